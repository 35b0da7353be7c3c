"""Imitation and offline updates, compared with an independent computation on copies of the networks."""
from copy import deepcopy

import numpy as np
import torch
from checks import P05_value_updates as p05
from checks import P09_actor_critic_updates as p09
from checks import P10_on_policy_updates as p10
from tianshou.data import Batch, ReplayBuffer
from tianshou.policy import BCQPolicy, CQLPolicy, DiscreteBCQPolicy, DiscreteCRRPolicy, GAILPolicy, ImitationPolicy
from torch import nn
from vlib.core import Scenario
from vlib.pol import DIM, Gauss, MLP, PolSpec, QA, Q, Rig, V, apply, as_t, obs_stack, pinned_noise, sgd

RULE = (
    "real updates of each imitation / offline algorithm on random stored experience; parameters of every network, targets, "
    "temperatures and all reported losses after each update are compared with an independent computation (sampled actions "
    "pinned, or read from what the critics and the discriminator were asked); distinct = (algorithm, options, rows, ring states)"
)
MIN = {
    "updates": 250, "boot_terminated": 150, "boot_truncated": 100, "truncated_rows": 150, "terminated_rows": 150, "random_actions": 400,
    "lagrange_updates": 20, "calibrated_updates": 20, "disc_updates": 60, "disc_even_splits": 8, "imitator_masks": 40, "target_synced": 20, "target_kept": 20,
}
PLAIN = ("single", "vector", "manager")


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def ends(ctx, recs):
    """[not terminated] per row"""
    ctx.note("truncated_rows", sum(bool(r["truncated"]) and not bool(r["terminated"]) for r in recs))
    ctx.note("terminated_rows", sum(bool(r["terminated"]) for r in recs))
    return torch.tensor([0.0 if r["terminated"] else 1.0 for r in recs])


def rews(recs):
    return torch.tensor([float(r["rew"]) for r in recs])


def acts(recs):
    return torch.tensor([int(r["act"]) for r in recs])


def stats(ctx, st, want, what):
    for k, v in want.items():
        got = getattr(st, k)
        ctx.check((got is None) == (v is None), f"stat:{k}", f"{what}: {k} {got} {v}")
        if v is not None:
            ctx.close(float(got), float(v), f"stat:{k}", f"{what}: {k}", rtol=2e-3, atol=5e-5)


def loop(ctx, rng, policy, spec, nets, ref, opts, full=False, kinds=PLAIN, rounds=5, prepare=None):
    """ref(it, pre, recs, idx, rig, st, what) advances copies `pre` and returns the expected statistics"""
    rig = Rig(ctx, rng, spec, policy, nets, kinds=kinds)
    rig.grow(2, 9)
    for it in range(int(rng.integers(1, rounds))):
        rig.grow(0, 4)
        policy.train(True)
        if prepare:
            prepare(rig)
        for m in policy.modules():
            if isinstance(m, QA):
                m.asked.clear()
                m.asked_obs.clear()
        pre = rig.pre()
        st, idx, _ = rig.update(0 if full else None)
        recs = rig.recs(idx)
        what = f"{type(policy).__name__} {opts} update {it}, buffer {rig.d.kind}, idx {idx.tolist()}"
        stats(ctx, st, ref(it, pre, recs, idx, rig, st, what), what)
        rig.check_nets(pre, what)
        for n in nets:
            if n.endswith(("_old", "_target")) and getattr(policy, n) is not getattr(policy, n.rsplit("_", 1)[0]):
                for p in getattr(policy, n).parameters():
                    ctx.check(p.grad is None or float(p.grad.abs().sum()) == 0, "target-gradient", what)
        ctx.sig(type(policy).__name__, opts, idx.tolist(), tuple((len(r.items), r.ptr) for r in rig.d.model.rings))
    ctx.sample({"policy": type(policy).__name__, "options": str(opts), "buffer": rig.d.kind, "stored": len(rig.d.model)})


def s_bc(ctx, rng):
    kind = pick(rng, ["disc", "box"])
    spec = PolSpec(rng, kind, int(rng.integers(1, 5)))
    net = Q(DIM, spec.n)
    lr = 0.1
    pol = ImitationPolicy(actor=net, optim=torch.optim.SGD(net.parameters(), lr=lr), action_space=spec.space())

    def ref(it, pre, recs, idx, rig, st, what):
        out = pre["actor"].raw(obs_stack(recs)[0])
        if kind == "disc":
            loss = -out.log_softmax(-1)[torch.arange(len(recs)), acts(recs)].mean()
        else:
            loss = ((out - as_t(np.stack([r["act"] for r in recs]))) ** 2).mean()
        apply(sgd(pre["actor"], loss, lr))
        return {"loss": float(loss)}

    loop(ctx, rng, pol, spec, ["actor"], ref, (kind, spec.n))
    x, _ = obs_stack([r for ring in rig_rows(rng, spec) for r in ring])
    with torch.no_grad():
        got = pol(Batch(obs=x.numpy(), info=Batch()))
        want = net.raw(x)
    ctx.close(got.act, want.argmax(-1) if kind == "disc" else want, "imitation-action", "", rtol=1e-5, atol=1e-6)


def rig_rows(rng, spec):
    return [[spec.rec(int(rng.integers(10**6)), 0, 0, 0.0, False, False) for _ in range(int(rng.integers(1, 6)))]]


def s_discrete_bcq(ctx, rng):
    kw = p05.common(rng)
    kw["target_update_freq"] = max(1, kw["target_update_freq"])
    spec = PolSpec(rng, "disc", int(rng.integers(1, 5)))
    thr, pen = float(pick(rng, [0.0, 0.3, 0.6, 0.95])), float(pick(rng, [0.0, 0.01, 0.5]))
    lr = 0.07
    net, imi = Q(DIM, spec.n), Q(DIM, spec.n)
    pol = DiscreteBCQPolicy(
        model=net, imitator=imi, optim=torch.optim.SGD([*net.parameters(), *imi.parameters()], lr=lr), action_space=spec.space(),
        unlikely_action_threshold=thr, imitation_logits_penalty=pen, **kw,
    )

    def chosen(model, imitator, x):
        q, p = model.raw(x), imitator.raw(x).softmax(-1)
        out = p / p.max(1, keepdim=True).values < thr
        ctx.note("imitator_masks", int(out.sum()))
        return q.masked_fill(out, -torch.inf).argmax(1)

    def ref(it, pre, recs, idx, rig, st, what):
        def value(rs):
            x, _ = obs_stack(rs, "obs_next")
            return pre["model_old"].raw(x)[torch.arange(len(rs)), chosen(pre["model"], pre["imitator"], x)]

        y = rig.targets(idx, kw["estimation_step"], kw["discount_factor"], value)
        sync = it % kw["target_update_freq"] == 0
        ctx.note("target_synced" if sync else "target_kept")
        if sync:
            pre["model_old"] = deepcopy(pre["model"])
        x, rows, a = obs_stack(recs)[0], torch.arange(len(recs)), acts(recs)
        td = pre["model"].raw(x)[rows, a] - y
        ql = torch.where(td.abs() < 1, 0.5 * td**2, td.abs() - 0.5).mean()
        lg = pre["imitator"].raw(x)
        il = -lg.log_softmax(-1)[rows, a].mean()
        rl = (lg**2).mean()
        loss = ql + il + pen * rl
        apply(sgd([*pre["model"].parameters(), *pre["imitator"].parameters()], loss, lr))
        return {"loss": float(loss), "q_loss": float(ql), "i_loss": float(il), "reg_loss": float(rl)}

    loop(ctx, rng, pol, spec, ["model", "imitator", "model_old"], ref, (thr, pen, *kw.values()))
    x, _ = obs_stack(rig_rows(rng, spec)[0])
    pol.eval()
    with torch.no_grad():
        ctx.equal(pol(Batch(obs=x.numpy(), info=Batch())).act, chosen(net, imi, x), "bcq-action", f"threshold {thr}")


def s_discrete_crr(ctx, rng):
    spec = PolSpec(rng, "disc", int(rng.integers(2, 5)))
    gamma, mode = float(pick(rng, [0.0, 0.5, 0.9, 1.0])), pick(rng, ["exp", "binary", "all"])
    ub, beta, mqw, freq = float(pick(rng, [1.2, 20.0])), float(pick(rng, [0.3, 1.0])), float(pick(rng, [0.0, 0.5, 5.0])), int(pick(rng, [0, 1, 2, 3]))
    lr = 0.03
    actor, critic = Q(DIM, spec.n), V(DIM, spec.n)
    pol = DiscreteCRRPolicy(
        actor=actor, critic=critic, optim=torch.optim.SGD([*actor.parameters(), *critic.parameters()], lr=lr), action_space=spec.space(),
        discount_factor=gamma, policy_improvement_mode=mode, ratio_upper_bound=ub, beta=beta, min_q_weight=mqw, target_update_freq=freq,
    )

    def ref(it, pre, recs, idx, rig, st, what):
        if freq:
            ctx.note("target_synced" if it % freq == 0 else "target_kept")
            if it % freq == 0:
                pre["actor_old"], pre["critic_old"] = deepcopy(pre["actor"]), deepcopy(pre["critic"])
        x, xn, rows, a = obs_stack(recs)[0], obs_stack(recs, "obs_next")[0], torch.arange(len(recs)), acts(recs)
        with torch.no_grad():
            nq = (pre["critic_old" if freq else "critic"].raw(xn) * pre["actor_old" if freq else "actor"].raw(xn).softmax(-1)).sum(-1)
            y = rews(recs) + gamma * ends(ctx, recs) * nq
        q = pre["critic"].raw(x)
        qa = q[rows, a]
        cl = 0.5 * ((qa - y) ** 2).mean()
        lp = pre["actor"].raw(x).log_softmax(-1)
        adv = qa - (q * lp.exp()).sum(-1)
        if mode == "binary":
            if float(adv.detach().abs().min()) < 1e-6:
                ctx.note("advantage_ties")
            coef = (adv > 0).float()
        elif mode == "exp":
            coef = (adv / beta).exp().clamp(max=ub)
        else:
            coef = torch.ones(len(recs))
        al = (-lp[rows, a] * coef).mean()
        ml = (torch.log(q.exp().sum(-1)) - qa).mean()
        loss = al + cl + mqw * ml
        apply(sgd([*pre["actor"].parameters(), *pre["critic"].parameters()], loss, lr))
        return {"loss": float(loss), "actor_loss": float(al), "critic_loss": float(cl), "cql_loss": float(ml)}

    loop(ctx, rng, pol, spec, ["actor", "critic"] + (["actor_old", "critic_old"] if freq else []), ref, (gamma, mode, ub, beta, mqw, freq))


class VAE(nn.Module):
    """Stub with the interface of a VAE; the noise of a decoded action depends on how often its observation occurred before."""

    def __init__(self, da, latent=2):
        super().__init__()
        self.e, self.d = MLP(DIM + da, 2 * latent), MLP(DIM + latent, da, post="tanh")
        self.latent = latent

    def forward(self, obs, act):
        o = as_t(obs)
        h = self.e.raw(torch.cat([o, as_t(act)], 1))
        mean, std = h[:, : self.latent], (0.5 * torch.tanh(h[:, self.latent :])).exp()
        z = mean + std * torch.sin(31 * mean.detach())
        return self.d.raw(torch.cat([o, z], 1)), mean, std

    def decode(self, obs, z=None):
        o = as_t(obs)
        if z is None:
            seen: dict = {}
            js = []
            for r in o.detach().numpy():
                k = r.tobytes()
                js.append(seen.get(k, 0))
                seen[k] = js[-1] + 1
            j = torch.tensor(js, dtype=torch.float32)
            z = torch.stack([torch.sin(2.3 * j + 0.4 + k) * 0.5 for k in range(self.latent)], 1)
        return self.d.raw(torch.cat([o, as_t(z)], 1))


class Pert(nn.Module):
    def __init__(self, da):
        super().__init__()
        self.m = MLP(DIM + da, da, post="tanh")

    def forward(self, obs, act):
        return (0.4 * self.m.raw(torch.cat([as_t(obs), as_t(act)], 1)) + as_t(act)).clamp(-1, 1)


def s_bcq(ctx, rng):
    spec = PolSpec(rng, "box", int(rng.integers(1, 4)))
    spec.act_dtype = np.float32  # BCQ compares actions with network outputs directly
    da = spec.n
    gamma, tau, lm = float(pick(rng, [0.0, 0.5, 0.99])), float(pick(rng, [0.0, 0.05, 0.5, 1.0])), float(pick(rng, [0.0, 0.3, 0.75, 1.0]))
    ns, fs = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    own = bool(rng.random() < 0.5)
    lr = dict(p=0.05, c=0.06, c2=0.04, v=0.05)
    pert, critic, vae = Pert(da), QA(da), VAE(da)
    kw = {}
    if own:
        c2 = QA(da)
        kw = dict(critic2=c2, critic2_optim=torch.optim.SGD(c2.parameters(), lr=lr["c2"]))
    else:
        lr["c2"] = lr["c"]
    pol = BCQPolicy(
        actor_perturbation=pert, actor_perturbation_optim=torch.optim.SGD(pert.parameters(), lr=lr["p"]), critic=critic,
        critic_optim=torch.optim.SGD(critic.parameters(), lr=lr["c"]), vae=vae, vae_optim=torch.optim.SGD(vae.parameters(), lr=lr["v"]),
        action_space=spec.space(), gamma=gamma, tau=tau, lmbda=lm, forward_sampled_times=fs, num_sampled_action=ns, **kw,
    )

    def ref(it, pre, recs, idx, rig, st, what):
        x, xn = obs_stack(recs)[0], obs_stack(recs, "obs_next")[0]
        a = as_t(np.stack([r["act"] for r in recs]))
        rec, mean, std = pre["vae"](x, a)
        vl = ((rec - a) ** 2).mean() + 0.5 * (-std.log() + (std**2 + mean**2 - 1) / 2).mean()
        apply(sgd(pre["vae"], vl, lr["v"]))
        with torch.no_grad():
            best = []
            for k in range(len(recs)):
                o = xn[k : k + 1].expand(ns, -1)
                an = pre["actor_perturbation_target"](o, pre["vae"].decode(o))
                q1, q2 = pre["critic_target"](o, an).flatten(), pre["critic2_target"](o, an).flatten()
                best.append((lm * torch.min(q1, q2) + (1 - lm) * torch.max(q1, q2)).max())
            y = rews(recs) + gamma * ends(ctx, recs) * torch.stack(best)
        ls = []
        for n, key in (("critic", "c"), ("critic2", "c2")):
            loss = ((pre[n](x, a).flatten() - y) ** 2).mean()
            apply(sgd(pre[n], loss, lr[key]))
            ls.append(float(loss))
        al = -pre["critic"](x, pre["actor_perturbation"](x, pre["vae"].decode(x).detach())).mean()
        apply(sgd(pre["actor_perturbation"], al, lr["p"]))
        for n in ("critic", "critic2", "actor_perturbation"):
            p09.mix(pre[n + "_target"], pre[n], tau)
        return {"actor_loss": float(al), "critic1_loss": ls[0], "critic2_loss": ls[1], "vae_loss": float(vl)}

    nets = ["actor_perturbation", "critic", "critic2", "vae", "actor_perturbation_target", "critic_target", "critic2_target"]
    # every observation once, so that the stub's noise does not depend on the order of rows
    loop(ctx, rng, pol, spec, nets, ref, (gamma, tau, lm, ns, fs, own), full=True)
    x, _ = obs_stack(rig_rows(rng, spec)[0])
    pol.eval()
    got = pol(Batch(obs=x.numpy(), info=Batch())).act
    with torch.no_grad():
        for k in range(len(x)):
            o = x[k : k + 1].expand(fs, -1)
            cand = pol.actor_perturbation(o, pol.vae.decode(o))
            q = pol.critic(o, cand).flatten()
            ctx.close(got[k], cand[q.argmax()], "bcq-action", f"{fs} candidates", rtol=1e-5, atol=1e-6)


def s_cql(ctx, rng):
    c = p09.Common(ctx, rng, "box")
    alpha, auto = c.auto_alpha()
    da = c.spec.n
    R, temp, wgt = int(rng.integers(1, 4)), float(pick(rng, [0.5, 1.0, 2.0])), float(pick(rng, [0.0, 0.5, 1.0, 3.0]))
    lag, thr = bool(rng.random() < 0.5), float(pick(rng, [0.1, 2.0]))
    amin, amax, clip = float(pick(rng, [0.0, 0.5])), float(pick(rng, [0.8, 1e6])), float(pick(rng, [0.05, 1.0, 100.0]))
    cal = bool(rng.random() < 0.5)
    lo, hi = pick(rng, [(-1.0, 1.0), (-1.0, 1.0), (-0.5, 0.25)])
    clr = 0.2
    actor, critic, c2 = Gauss(da), QA(da), QA(da)
    pol = CQLPolicy(
        actor=actor, actor_optim=c.opt("actor", actor), critic=critic, critic_optim=c.opt("critic", critic), critic2=c2, critic2_optim=c.opt("critic2", c2),
        action_space=c.spec.space(), cql_alpha_lr=clr, cql_weight=wgt, tau=c.tau, gamma=c.gamma, alpha=alpha, temperature=temp, with_lagrange=lag,
        lagrange_threshold=thr, min_action=lo, max_action=hi, num_repeat_actions=R, alpha_min=amin, alpha_max=amax, clip_grad=clip, calibrated=cal,
    )
    cla = torch.zeros(1, requires_grad=True)
    clo = torch.optim.Adam([cla], lr=clr)
    te_la = [None if auto is None else float(auto[1].detach())]
    rand: list = []
    cal_ret: dict = {}

    def prepare(rig):
        cal_ret.clear()
        if cal:
            pol.process_buffer(rig.d.buf)
            by = rig.d.model.by_slot()
            nm = rig.d.model.next_map()
            for s in by:
                cur, g, disc = s, 0.0, 1.0
                while True:
                    g += disc * float(by[cur]["rew"])
                    disc *= c.gamma
                    if by[cur]["done"] or nm[cur] == cur:
                        break
                    cur = nm[cur]
                cal_ret[s] = g

    def ref(it, pre, recs, idx, rig, st, what):
        B = len(recs)
        x, xn = obs_stack(recs)[0], obs_stack(recs, "obs_next")[0]
        a = as_t(np.stack([r["act"] for r in recs]))
        al0 = float(np.exp(te_la[0])) if auto else alpha
        act, lp = p09.gauss_act(pre["actor"], x)
        al = (al0 * lp - torch.min(pre["critic"](x, act), pre["critic2"](x, act)).flatten()).mean()
        apply(sgd(pre["actor"], al, c.lr["actor"]))
        aloss = None
        if auto:
            g = float(lp.detach().mean()) + auto[0]
            aloss = -te_la[0] * g
            te_la[0] += 0.1 * g
            al0 = float(np.exp(te_la[0]))
            ctx.close(float(pol.log_alpha.detach()), te_la[0], "temperature", what, rtol=1e-3, atol=1e-4)
        with torch.no_grad():
            an, lpn = p09.gauss_act(pre["actor"], xn)
            y = rews(recs) + c.gamma * ends(ctx, recs) * (torch.min(pre["critic_old"](xn, an), pre["critic2_old"](xn, an)).flatten() - al0 * lpn)
            ac, lpc = p09.gauss_act(pre["actor"], x)
        # the random actions are those asked of the critics which no policy chose
        cands = [(o, u) for o, u in zip(pol.critic.asked_obs, pol.critic.asked) if len(u) == B * R and len(pol.critic.asked) > 3]
        row = {r.numpy().tobytes(): k for k, r in enumerate(x)}

        def is_random(o, u):
            k = [row.get(r.numpy().tobytes()) for r in o]
            return None not in k and not any(torch.allclose(u, v[k], rtol=1e-3, atol=1e-3) for v in (ac, an, a, act.detach()))

        rs = [(o, u) for o, u in cands if is_random(o, u)]
        ctx.equal(len(rs), 1, "random-actions", f"{what}: calls of the critic with neither stored nor policy actions")
        o, u = rs[0]
        k = torch.tensor([row[r.numpy().tobytes()] for r in o])
        ctx.equal(np.bincount(k, minlength=B), np.full(B, R), "random-actions", f"{what}: random actions per row")
        ctx.check(float(u.min()) >= lo - 1e-6 and float(u.max()) <= hi + 1e-6, "random-actions", lambda: f"{what}: {u} outside [{lo}, {hi}]")
        other = [v for p, v in zip(pol.critic2.asked_obs, pol.critic2.asked) if torch.equal(p, o) and torch.equal(v, u)]
        ctx.check(len(other) >= 1, "random-actions", f"{what}: the second critic saw other random actions")
        rand.extend(((u - lo) / (hi - lo)).flatten().tolist())
        ctx.note("random_actions", u.numel())
        calr = torch.tensor([cal_ret[int(i)] for i in idx], dtype=torch.float32) if cal else None
        if cal:
            ctx.note("calibrated_updates")
        gaps, tds, qs = [], [], []
        for n in ("critic", "critic2"):
            q = pre[n](x, a).flatten()
            tds.append(((q - y) ** 2).mean())
            rv = pre[n](x[k], u).flatten() + da * np.log(2.0)
            rv = torch.stack([rv[k == b] for b in range(B)])  # [B, R]
            cv = (pre[n](x, ac).flatten() - lpc).view(B, 1).expand(B, R)
            nv = (pre[n](x, an).flatten() - lpn).view(B, 1).expand(B, R)
            allv = torch.cat([rv, cv, nv], 1)
            if cal:
                allv = torch.max(allv, calr[:, None])
            gaps.append(wgt * temp * torch.logsumexp(allv / temp, 1).mean() - wgt * q.mean())
        ca = cal_loss = None
        if lag:
            ctx.note("lagrange_updates")
            ca = cla.exp().clamp(amin, amax)
            gaps = [ca.detach() * (g - thr) for g in gaps]
            cal_loss = float(-0.5 * sum(g.detach() for g in gaps))
            clo.zero_grad()
            (-0.5 * ca * float(sum(g.detach() for g in gaps) / ca.detach())).sum().backward() if float(ca.detach()) > 0 else None
            clo.step()
            ca = float(ca.detach())
        tot = []
        for n, td, g in zip(("critic", "critic2"), tds, gaps):
            loss = (td + g).sum()
            p10.clip_step(list(pre[n].parameters()), loss, c.lr[n], clip, ctx)
            tot.append(float(loss))
        for n in ("critic", "critic2"):
            p09.mix(pre[n + "_old"], pre[n], c.tau)
        if lag:
            ctx.close(pol.cql_log_alpha.detach(), cla.detach(), "cql-alpha", what, rtol=1e-2, atol=5e-3)
            with torch.no_grad():
                cla.copy_(pol.cql_log_alpha)
        return {
            "actor_loss": float(al), "critic1_loss": tot[0], "critic2_loss": tot[1], "alpha": al0, "alpha_loss": aloss, "cql_alpha": ca,
            "cql_alpha_loss": cal_loss,
        }

    with pinned_noise():
        loop(
            ctx, rng, pol, c.spec, ["actor", "critic", "critic2", "critic_old", "critic2_old"], ref,
            (R, temp, wgt, lag, thr, amin, amax, clip, cal, (lo, hi), c.gamma, c.tau, bool(auto)), full=True, prepare=prepare,
        )
    if len(rand) >= 60:
        m, sd = float(np.mean(rand)), float(np.std(rand))
        z = abs(m - 0.5) * np.sqrt(12 * len(rand))
        ctx.check(z < 7 and 0.15 < sd < 0.42, "random-distribution", f"random actions have mean {m:.3f} and deviation {sd:.3f} of the range, expected 0.5 and 0.29")
        ctx.note("distribution_tests")


def s_td3_bc(ctx, rng):
    p09.s_td3(ctx, rng, bc=float(pick(rng, [0.5, 2.5])))


def s_discrete_cql(ctx, rng):
    p05.s_qrdqn(ctx, rng, cql=True)


class Disc(nn.Module):
    """Discriminator stub: records what it is asked while gradients are enabled."""

    def __init__(self, da):
        super().__init__()
        self.m = MLP(DIM + da, 1)
        self.device = "cpu"
        self.asked: list = []

    def forward(self, x):
        if torch.is_grad_enabled():
            self.asked.append(as_t(x).detach().clone())
        return self.m.raw(as_t(x))


class Gail:
    """Adds the discriminator to the PPO monitor."""

    lr = 0.1

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng

    def policy(self, s):
        self.spec = s.spec
        self.disc = Disc(s.spec.n)
        s.actor.output_dim = s.spec.n
        self.num = int(self.rng.integers(1, 5))
        self.expert = ReplayBuffer(16)
        self.rows = [s.spec.rec(10**7 + k, 0, k, 0.0, k % 4 == 3, False) for k in range(int(self.rng.integers(3, 14)))]
        for r in self.rows:
            self.expert.add(Batch({k: v for k, v in r.items() if k not in ("done",)}))
        self.extra = dict(
            expert_buffer=self.expert, disc_net=self.disc, disc_optim=torch.optim.SGD(self.disc.parameters(), lr=self.lr), disc_update_num=self.num,
        )
        return GAILPolicy

    def before(self):
        self.disc.asked.clear()
        self.pre = deepcopy(self.disc)

    def feats(self, recs):
        return torch.cat([obs_stack(recs)[0], as_t(np.stack([r["act"] for r in recs]))], 1)

    def reference(self, st, recs):
        ctx, n = self.ctx, len(recs)
        x = self.feats(recs)
        with torch.no_grad():
            rew = -torch.log(1 - torch.sigmoid(self.pre.m.raw(x).flatten().double()))
        asked = self.disc.asked
        own = {r.numpy().tobytes(): k for k, r in enumerate(x)}
        exp = {r.numpy().tobytes(): k for k, r in enumerate(self.feats(self.rows))}
        ctx.equal(len(asked) % 2, 0, "discriminator-calls", "")
        seen: list = []
        losses, ap, ae = [], [], []
        for j in range(0, len(asked), 2):
            pair = asked[j : j + 2]
            ks = [[d.get(r.numpy().tobytes()) for r in o] for o, d in zip(pair, (own, exp))]
            ctx.check(None not in ks[0] and None not in ks[1], "discriminator-rows", "rows that are neither collected nor expert data")
            seen += ks[0]
            ctx.check(len(ks[1]) >= 1 and len(ks[1]) <= len(ks[0]), "discriminator-rows", f"{len(ks[1])} expert rows for {len(ks[0])}")
            lp, le = self.pre.m.raw(pair[0]), self.pre.m.raw(pair[1])
            loss = torch.nn.functional.softplus(lp).mean() + torch.nn.functional.softplus(-le).mean()
            ap.append(float((lp < 0).float().mean()))
            ae.append(float((le > 0).float().mean()))
            apply(sgd(self.pre, loss, self.lr))
            losses.append(float(loss))
            ctx.note("disc_updates")
        ctx.check(sorted(seen) == list(range(n)), "discriminator-partition", lambda: f"rows {seen} of {n}")
        ctx.check(len(losses) >= min(self.num, n), "discriminator-updates", f"{len(losses)} updates, {self.num} requested for {n} rows")
        if n % self.num == 0:
            ctx.equal(len(losses), self.num, "discriminator-updates", f"{n} rows")
            ctx.note("disc_even_splits")
        for k, v in (("disc_loss", losses), ("acc_pi", ap), ("acc_exp", ae)):
            s = getattr(st, k)
            ctx.close([s.mean, s.max, s.min], [np.mean(v), np.max(v), np.min(v)], f"stat:{k}", "", rtol=2e-3, atol=5e-5)
        for (name, got), want in zip(self.disc.named_parameters(), self.pre.parameters()):
            ctx.close(got, want, "params:disc", f"discriminator {name}", rtol=3e-4, atol=3e-6)
        return rew.numpy()


def s_gail(ctx, rng):
    p10.s_ppo(ctx, rng, gail=Gail(ctx, rng))


SCENARIOS = [
    Scenario("bc", s_bc, 60, 400),
    Scenario("discrete_bcq", s_discrete_bcq, 40, 600),
    Scenario("discrete_cql", s_discrete_cql, 30, 400),
    Scenario("discrete_crr", s_discrete_crr, 40, 600),
    Scenario("bcq", s_bcq, 50, 800),
    Scenario("cql", s_cql, 60, 1000),
    Scenario("td3_bc", s_td3_bc, 30, 400),
    Scenario("gail", s_gail, 40, 600),
]
