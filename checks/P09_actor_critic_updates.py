"""Off-policy actor-critic updates, compared with an independent computation on copies of the networks."""
import itertools
from copy import deepcopy

import numpy as np
import torch
from tianshou.policy import DDPGPolicy, DiscreteSACPolicy, REDQPolicy, SACPolicy, TD3BCPolicy, TD3Policy
from vlib.core import Scenario
from vlib.pol import DIM, Gauss, MLP, PolSpec, QA, QAEns, Q, Rig, V, apply, as_t, obs_stack, pin, pinned_noise, sgd

RULE = (
    "real updates of each actor-critic policy on random experience in every buffer class; critics, actors, targets, "
    "temperature, reported losses and priorities after each update are compared with an independent computation (sampling "
    "noise pinned to a function of the mean, or read from what the critics were asked); distinct = (algorithm, options, "
    "indices, ring states)"
)
MIN = {
    "updates": 500, "boot_full": 500, "boot_terminated": 250, "boot_truncated": 200, "boot_unfinished": 50, "priority_writes": 250,
    "actor_updates": 250, "actor_delayed": 80, "alpha_updates": 80, "target_noise": 200,
}


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def mix(old, new, tau):
    """target <- tau * online + (1 - tau) * target"""
    with torch.no_grad():
        for o, n in zip(old.parameters(), new.parameters()):
            o.copy_(o * (1 - tau) + n * tau)


def gauss_act(actor, x):
    """squashed action and its log-density for the pinned noise."""
    (mu, sd), _ = actor(x)
    u = mu + sd * pin(mu.detach())
    lp = (-0.5 * ((u - mu) / sd) ** 2 - sd.log() - 0.5 * np.log(2 * np.pi)).sum(-1)
    lp = lp - (2 * (np.log(2.0) - u - torch.nn.functional.softplus(-2 * u))).sum(-1)
    return torch.tanh(u), lp


class Common:
    def __init__(self, ctx, rng, kind, max_n=4):
        self.ctx, self.rng = ctx, rng
        self.gamma = float(pick(rng, [0.0, 0.5, 0.9, 0.99, 1.0]))
        self.n = int(pick(rng, [1, 1, 2, 3, 5]))
        self.tau = float(pick(rng, [0.0, 0.005, 0.1, 0.5, 1.0]))
        self.spec = PolSpec(rng, kind, int(rng.integers(1, max_n)) if kind == "box" else int(rng.integers(2, 5)))
        self.lr = dict(actor=0.05, critic=0.06, critic2=0.04)

    def opt(self, name, net):
        return torch.optim.SGD(net.parameters(), lr=self.lr[name])

    def kw(self):
        return dict(tau=self.tau, gamma=self.gamma, estimation_step=self.n, action_space=self.spec.space())

    def auto_alpha(self):
        """('fixed', value) or the automatic-temperature tuple plus its reference state."""
        if self.rng.random() < 0.5:
            return float(pick(self.rng, [0.05, 0.2, 0.7])), None
        la = torch.tensor([float(pick(self.rng, [self.rng.normal() * 0.4 - 1] * 3 + [-7.0, 0.0, 2.0]))], requires_grad=True)
        te = -float(self.spec.n) if self.spec.kind == "box" else 0.6
        return (te, la, torch.optim.SGD([la], lr=0.1)), (te, la)

    def run(self, policy, nets, ref, rounds, opts, kinds=None):
        ctx, rng = self.ctx, self.rng
        rig = Rig(ctx, rng, self.spec, policy, nets, **({} if kinds is None else {"kinds": kinds}))
        rig.grow(2, 9)
        for it in range(rounds):
            rig.grow(0, 4)
            policy.train(True)
            for m in policy.modules():
                if isinstance(m, QA):
                    m.asked.clear()
            pre = rig.pre()
            self.alpha0 = float(policy.alpha) if hasattr(policy, "alpha") else None
            self.la0 = float(policy.log_alpha.detach()) if hasattr(policy, "log_alpha") else None
            st, idx, w = rig.update()
            recs = rig.recs(idx)
            what = f"{type(policy).__name__} {opts} tau={self.tau} n={self.n} gamma={self.gamma} update {it}, buffer {rig.d.kind}, idx {idx.tolist()}"
            cands = ref(it, pre, recs, idx, w, rig, policy)
            err = None
            for k, (nets_after, stats, prio) in enumerate(cands):
                try:
                    for key, want in stats.items():
                        got = getattr(st, key)
                        ctx.check((got is None) == (want is None), f"stat:{key}", f"{what}: {key} {got} {want}")
                        if want is not None:
                            ctx.close(float(got), float(want), f"stat:{key}", f"{what}: {key}", rtol=2e-3, atol=5e-5)
                    rig.check_nets(nets_after, what)
                    rig.check_prio(idx, prio, what)
                    err = None
                    self.matched = k
                    break
                except Exception as e:  # noqa: BLE001 - several admissible outcomes
                    err = err or e
            if err is not None:
                raise err
            for name in nets:
                if name.endswith("_old") or name.endswith("_target"):
                    for p in getattr(policy, name).parameters():
                        ctx.check(p.grad is None or float(p.grad.abs().sum()) == 0, "target-gradient", what)
            ctx.sig(type(policy).__name__, opts, idx.tolist(), tuple((len(r.items), r.ptr) for r in rig.d.model.rings))
        ctx.sample({"policy": type(policy).__name__, "options": str(opts), "buffer": rig.d.kind, "stored": len(rig.d.model)})

    def batch(self, recs):
        x, _ = obs_stack(recs)
        return x, as_t(np.stack([r["act"] for r in recs]))

    def critic_step(self, net, name, x, a, y, w, q=None):
        td = (net(x, a).flatten() if q is None else q) - y
        loss = (td**2 * w).mean()
        apply(sgd(net, loss, self.lr[name]))
        return td.detach(), float(loss)


class Det(MLP):
    """deterministic actor -> (action, state)"""

    def __init__(self, da):
        super().__init__(DIM, da, post="tanh")

    def forward(self, obs, state=None, info={}):  # noqa: B006
        return self.raw(as_t(obs)), state


def s_ddpg(ctx, rng):
    c = Common(ctx, rng, "box")
    actor, critic = Det(c.spec.n), QA(c.spec.n)
    pol = DDPGPolicy(actor=actor, actor_optim=c.opt("actor", actor), critic=critic, critic_optim=c.opt("critic", critic), **c.kw())

    def ref(it, pre, recs, idx, w, rig, policy):
        def value(rs):
            xn, _ = obs_stack(rs, "obs_next")
            return pre["critic_old"](xn, pre["actor_old"].raw(xn)).flatten()

        y = rig.targets(idx, c.n, c.gamma, value)
        x, a = c.batch(recs)
        td, cl = c.critic_step(pre["critic"], "critic", x, a, y, rig.weights(w))
        al = -pre["critic"](x, pre["actor"].raw(x)).mean()
        apply(sgd(pre["actor"], al, c.lr["actor"]))
        mix(pre["actor_old"], pre["actor"], c.tau)
        mix(pre["critic_old"], pre["critic"], c.tau)
        ctx.note("actor_updates")
        return [(pre, {"actor_loss": float(al), "critic_loss": cl}, td)]

    c.run(pol, ["actor", "critic", "actor_old", "critic_old"], ref, int(rng.integers(1, 6)), ())


def s_td3(ctx, rng, bc=None):
    c = Common(ctx, rng, "box")
    own = bool(rng.random() < 0.5)
    freq = int(pick(rng, [1, 2, 3]))
    noise = float(pick(rng, [0.0, 0.2, 0.5]))
    clip = float(pick(rng, [0.0, 0.1, 0.5]))
    actor, critic = Det(c.spec.n), QA(c.spec.n)
    kw = {}
    if own:
        c2 = QA(c.spec.n)
        kw = dict(critic2=c2, critic2_optim=c.opt("critic2", c2))
    else:
        c.lr["critic2"] = c.lr["critic"]
    cls = TD3Policy
    if bc is not None:
        cls, kw["alpha"] = TD3BCPolicy, bc
    pol = cls(
        actor=actor, actor_optim=c.opt("actor", actor), critic=critic, critic_optim=c.opt("critic", critic), policy_noise=noise,
        update_actor_freq=freq, noise_clip=clip, **kw, **c.kw(),
    )
    last = {"al": 0.0}

    def ref(it, pre, recs, idx, w, rig, policy):
        def value(rs):
            xn, _ = obs_stack(rs, "obs_next")
            asked = [policy.critic_old.asked, policy.critic2_old.asked]
            ctx.equal([len(q) for q in asked], [1, 1], "target-critic-calls", "")
            an = asked[0][0]
            ctx.check(torch.equal(an, asked[1][0]), "target-noise", "the two target critics are asked about different actions")
            eps = an - pre["actor_old"].raw(xn)
            ctx.note("target_noise", eps.numel() if noise > 0 else 0)
            m = float(eps.abs().max())
            ctx.check(m <= (1e-5 if noise == 0 else clip + 1e-5 if clip > 0 else 8 * noise), "target-noise", lambda: f"noise {eps} std {noise} clip {clip}")
            if noise > 0:
                ctx.check(bool((eps.abs() > 0).any()), "target-noise", "missing")
                if eps.numel() > 12 and (clip == 0 or clip >= noise):  # fewer may all be clipped alike
                    ctx.check(len(torch.unique(eps.round(decimals=4))) > 1, "target-noise", "identical for all actions")
                samples.extend((eps / noise).flatten().tolist())
            return torch.min(pre["critic_old"](xn, an), pre["critic2_old"](xn, an)).flatten()

        y = rig.targets(idx, c.n, c.gamma, value)
        x, a = c.batch(recs)
        td1, l1 = c.critic_step(pre["critic"], "critic", x, a, y, rig.weights(w))
        td2, l2 = c.critic_step(pre["critic2"], "critic2", x, a, y, rig.weights(w))
        if it % freq == 0:
            act = pre["actor"].raw(x)
            q = pre["critic"](x, act)
            al = -q.mean() if bc is None else -bc * q.mean() / q.detach().abs().mean() + ((act - a) ** 2).mean()
            apply(sgd(pre["actor"], al, c.lr["actor"]))
            last["al"] = float(al)
            for k in ("actor", "critic", "critic2"):
                mix(pre[k + "_old"], pre[k], c.tau)
            ctx.note("actor_updates")
        else:
            ctx.note("actor_delayed")
        return [(pre, {"actor_loss": last["al"], "critic1_loss": l1, "critic2_loss": l2}, (td1 + td2) / 2)]

    samples: list = []
    c.run(pol, ["actor", "critic", "critic2", "actor_old", "critic_old", "critic2_old"], ref, int(rng.integers(1, 7)), (own, freq, noise, clip, bc))
    if noise > 0 and len(samples) >= 200 and (clip == 0 or clip / noise >= 1):
        sd = float(np.std(samples))
        ctx.check(0.5 < sd < 1.4, "target-noise-scale", f"standard deviation {sd * noise:.3f}, expected about {noise}")
        ctx.note("noise_scale")


def alpha_after(c, ref, lp_mean):
    """reference temperature update: log_alpha += lr * mean(log_prob + target_entropy)"""
    te, _ = ref
    return c.la0 + 0.1 * (lp_mean + te), -c.la0 * (lp_mean + te)


def s_sac(ctx, rng):
    c = Common(ctx, rng, "box")
    alpha, auto = c.auto_alpha()
    own = bool(rng.random() < 0.5)
    actor, critic = Gauss(c.spec.n), QA(c.spec.n)
    kw = {}
    if own:
        c2 = QA(c.spec.n)
        kw = dict(critic2=c2, critic2_optim=c.opt("critic2", c2))
    else:
        c.lr["critic2"] = c.lr["critic"]
    pol = SACPolicy(
        actor=actor, actor_optim=c.opt("actor", actor), critic=critic, critic_optim=c.opt("critic", critic), alpha=alpha,
        deterministic_eval=bool(rng.random() < 0.5), **kw, **c.kw(),
    )

    def ref(it, pre, recs, idx, w, rig, policy):
        def value(rs):
            xn, _ = obs_stack(rs, "obs_next")
            an, lp = gauss_act(pre["actor"], xn)
            return torch.min(pre["critic_old"](xn, an), pre["critic2_old"](xn, an)).flatten() - c.alpha0 * lp

        y = rig.targets(idx, c.n, c.gamma, value)
        x, a = c.batch(recs)
        td1, l1 = c.critic_step(pre["critic"], "critic", x, a, y, rig.weights(w))
        td2, l2 = c.critic_step(pre["critic2"], "critic2", x, a, y, rig.weights(w))
        act, lp = gauss_act(pre["actor"], x)
        al = (c.alpha0 * lp - torch.min(pre["critic"](x, act), pre["critic2"](x, act)).flatten()).mean()
        apply(sgd(pre["actor"], al, c.lr["actor"]))
        ctx.note("actor_updates")
        stats = {"actor_loss": float(al), "critic1_loss": l1, "critic2_loss": l2, "alpha": c.alpha0, "alpha_loss": None}
        if auto:
            la, loss = alpha_after(c, auto, float(lp.mean()))
            stats.update(alpha=np.exp(la), alpha_loss=loss)
            ctx.close([float(policy.log_alpha.detach()), float(policy.alpha)], [la, np.exp(la)], "temperature", "", rtol=1e-3, atol=1e-5)
            ctx.note("alpha_updates")
        mix(pre["critic_old"], pre["critic"], c.tau)
        mix(pre["critic2_old"], pre["critic2"], c.tau)
        return [(pre, stats, (td1 + td2) / 2)]

    with pinned_noise():
        c.run(pol, ["actor", "critic", "critic2", "critic_old", "critic2_old"], ref, int(rng.integers(1, 6)), (own, bool(auto)))


def s_redq(ctx, rng):
    c = Common(ctx, rng, "box")
    alpha, auto = c.auto_alpha()
    E = int(rng.integers(1, 5))
    S = int(rng.integers(1, E + 1))
    delay = int(pick(rng, [1, 2, 3, 4, 5]))
    mode = pick(rng, ["min", "mean"])
    actor, critic = Gauss(c.spec.n), QAEns(c.spec.n, E)
    pol = REDQPolicy(
        actor=actor, actor_optim=c.opt("actor", actor), critic=critic, critic_optim=c.opt("critic", critic), alpha=alpha, ensemble_size=E,
        subset_size=S, actor_delay=delay, target_mode=mode, **c.kw(),
    )
    last = {"al": 0.0}

    def ref(it, pre0, recs, idx, w, rig, policy):
        out = []
        act_turn = (it + 1) % delay == 0
        ctx.note("actor_updates" if act_turn else "actor_delayed")
        for sub in itertools.combinations(range(E), S):
            pre = {k: deepcopy(v) for k, v in pre0.items()}

            def value(rs):
                xn, _ = obs_stack(rs, "obs_next")
                an, lp = gauss_act(pre["actor"], xn)
                q = pre["critic_old"](xn, an)[list(sub)].squeeze(-1)
                return (q.min(0).values if mode == "min" else q.mean(0)) - c.alpha0 * lp

            y = rig.targets(idx, c.n, c.gamma, value)
            x, a = c.batch(recs)
            td = pre["critic"](x, a).squeeze(-1) - y
            cl = (td**2 * rig.weights(w)).mean()
            apply(sgd(pre["critic"], cl, c.lr["critic"]))
            stats = {"critic_loss": float(cl), "alpha": c.alpha0, "alpha_loss": None}
            al = None
            if act_turn:
                act, lp = gauss_act(pre["actor"], x)
                al = (c.alpha0 * lp - pre["critic"](x, act).mean(0).flatten()).mean()
                apply(sgd(pre["actor"], al, c.lr["actor"]))
                if auto:
                    la, loss = alpha_after(c, auto, float(lp.detach().mean()))
                    ctx.close([float(policy.log_alpha.detach()), float(policy.alpha)], [la, np.exp(la)], "temperature", "", rtol=1e-3, atol=1e-5)
                    stats.update(alpha=np.exp(la), alpha_loss=loss)
                    ctx.note("alpha_updates")
            stats["actor_loss"] = last["al"] if al is None else float(al)
            mix(pre["critic_old"], pre["critic"], c.tau)
            out.append((pre, stats, td.mean(0)))
        pending["out"] = out
        return out

    pending: dict = {}
    with pinned_noise():
        rounds = int(rng.integers(1, 7)) + (delay if delay > 2 else 0)
        orig_ref = ref

        def wrapped(it, *a):
            if it > 0:
                last["al"] = pending["out"][c.matched][1]["actor_loss"]
            return orig_ref(it, *a)

        c.run(pol, ["actor", "critic", "critic_old"], wrapped, rounds, (E, S, delay, mode, bool(auto)))


def s_discrete_sac(ctx, rng):
    c = Common(ctx, rng, "disc")
    alpha, auto = c.auto_alpha()
    own = bool(rng.random() < 0.5)
    actor, critic = Q(DIM, c.spec.n), V(DIM, c.spec.n)
    kw = {}
    if own:
        c2 = V(DIM, c.spec.n)
        kw = dict(critic2=c2, critic2_optim=c.opt("critic2", c2))
    else:
        c.lr["critic2"] = c.lr["critic"]
    pol = DiscreteSACPolicy(actor=actor, actor_optim=c.opt("actor", actor), critic=critic, critic_optim=c.opt("critic", critic), alpha=alpha, **kw, **c.kw())

    def ref(it, pre, recs, idx, w, rig, policy):
        def soft(x):
            lg = pre["actor"].raw(x).log_softmax(-1)
            return lg.exp(), -(lg.exp() * lg).sum(-1)

        def value(rs):
            xn, _ = obs_stack(rs, "obs_next")
            p, h = soft(xn)
            return (p * torch.min(pre["critic_old"].raw(xn), pre["critic2_old"].raw(xn))).sum(-1) + c.alpha0 * h

        y = rig.targets(idx, c.n, c.gamma, value)
        x, a = c.batch(recs)
        rows, ai = torch.arange(len(recs)), a.long()
        td1, l1 = c.critic_step(pre["critic"], "critic", x, a, y, rig.weights(w), q=pre["critic"].raw(x)[rows, ai])
        td2, l2 = c.critic_step(pre["critic2"], "critic2", x, a, y, rig.weights(w), q=pre["critic2"].raw(x)[rows, ai])
        p, h = soft(x)
        q = torch.min(pre["critic"].raw(x), pre["critic2"].raw(x)).detach()
        al = -(c.alpha0 * h + (p * q).sum(-1)).mean()
        apply(sgd(pre["actor"], al, c.lr["actor"]))
        ctx.note("actor_updates")
        stats = {"actor_loss": float(al), "critic1_loss": l1, "critic2_loss": l2, "alpha": c.alpha0, "alpha_loss": None}
        if auto:
            la, loss = alpha_after(c, auto, -float(h.detach().mean()))
            stats.update(alpha=np.exp(la), alpha_loss=loss)
            ctx.close([float(policy.log_alpha.detach()), float(policy.alpha)], [la, np.exp(la)], "temperature", "", rtol=1e-3, atol=1e-5)
            ctx.note("alpha_updates")
        mix(pre["critic_old"], pre["critic"], c.tau)
        mix(pre["critic2_old"], pre["critic2"], c.tau)
        return [(pre, stats, (td1 + td2) / 2)]

    c.run(pol, ["actor", "critic", "critic2", "critic_old", "critic2_old"], ref, int(rng.integers(1, 6)), (own, bool(auto)))


SCENARIOS = [
    Scenario("ddpg", s_ddpg, 40, 800),
    Scenario("td3", s_td3, 60, 1000),
    Scenario("sac", s_sac, 60, 1000),
    Scenario("redq", s_redq, 50, 800),
    Scenario("discrete_sac", s_discrete_sac, 50, 800),
]
