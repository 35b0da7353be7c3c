"""On-policy updates (PG, A2C, PPO, NPG, TRPO), compared with an independent computation on copies of the networks."""
from copy import deepcopy

import numpy as np
import torch
from tianshou.policy import A2CPolicy, NPGPolicy, PGPolicy, PPOPolicy, TRPOPolicy
from torch.distributions import Categorical, Independent, Normal
from vlib.core import Scenario
from vlib.pol import DIM, Gauss, PolSpec, Q, Rig, V, as_t, obs_stack

RULE = (
    "real updates of each on-policy algorithm on random, partly unfinished and wrapped-around experience; the mini-batches "
    "actually used are read from the actor, and parameters and every reported loss are compared with an independent "
    "computation (advantages as explicit sums per episode); distinct = (algorithm, options, stored transitions, mini-batches)"
)
MIN = {
    "updates": 300, "minibatches": 900, "boot_terminated": 300, "boot_truncated": 200, "boot_unfinished": 100, "clipped_ratios": 50,
    "grad_clipped": 50, "dual_clipped": 8, "shuffled_passes": 60, "recomputed": 40, "trust_steps": 30, "line_search_failed": 5, "normalised_returns": 60,
}


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


class Watch(torch.nn.Module):
    """Delegates to the actor and records which rows are evaluated while learning."""

    def __init__(self, net):
        super().__init__()
        self.net = net
        self.max_action = 1.0
        self.log: list = []

    def forward(self, obs, state=None, info={}):  # noqa: B006
        if torch.is_grad_enabled() and self.training:
            self.log.append(as_t(obs).numpy().copy())
        return self.net(obs, state=state, info=info)


def dist_of(kind, out):
    return Categorical(logits=out) if kind == "disc" else Independent(Normal(*out), 1)


def indep(*a):
    return Independent(Normal(*a), 1)


class Rms:
    def __init__(self):
        self.mean, self.var, self.n = 0.0, 1.0, 0

    def update(self, x):
        x = np.asarray(x, float)
        m, v, k = x.mean(), x.var(), len(x)
        d, t = m - self.mean, self.n + k
        self.var = (self.var * self.n + v * k + d * d * self.n * k / t) / t
        self.mean += d * k / t
        self.n = t


class Setup:
    rew = None  # replaced rewards per row (GAIL)

    def __init__(self, ctx, rng, kind=None):
        self.ctx, self.rng = ctx, rng
        self.kind = kind or pick(rng, ["disc", "box"])
        self.spec = PolSpec(rng, self.kind, int(rng.integers(2, 5)) if self.kind == "disc" else int(rng.integers(1, 4)))
        self.gamma = float(pick(rng, [0.0, 0.5, 0.9, 0.99, 1.0]))
        self.lam = float(pick(rng, [0.0, 0.5, 0.95, 1.0]))
        self.norm = bool(rng.random() < 0.35)
        self.actor = Watch(Q(DIM, self.spec.n) if self.kind == "disc" else Gauss(self.spec.n))
        self.critic = V(DIM, 1)
        self.lr = 0.03 if self.kind == "disc" else 0.004
        self.rms = Rms()
        self.kw = dict(
            actor=self.actor, action_space=self.spec.space(), discount_factor=self.gamma, reward_normalization=self.norm, action_scaling=False,
            dist_fn=(lambda x: Categorical(logits=x)) if self.kind == "disc" else (lambda x: indep(*x)),
        )
        self.batch_size = pick(rng, [None, None, 2, 3, 5, 8])
        self.repeat = int(rng.integers(1, 4))
        self.maxb = int(pick(rng, [3, 7, 256]))

    def dist(self, net, x):
        return dist_of(self.kind, net.net(x)[0])

    def rig(self, policy, nets):
        r = Rig(self.ctx, self.rng, self.spec, policy, nets, kinds=("single", "vector", "vector", "manager"))
        r.grow(3, 9)
        while len(r.d.model) < 4 and sum(x.size for x in r.d.model.rings) >= 4:
            r.d.add()
        return r

    def ok(self, rig):
        """A single transition has no advantage spread to normalise by."""
        return len(rig.d.model) >= 2

    def chain(self, model, s):
        """(slots from s to the end of its episode or data, kind of end)"""
        by, nm = model.by_slot(), model.next_map()
        out = [s]
        while not by[out[-1]]["done"] and nm[out[-1]] != out[-1]:
            out.append(nm[out[-1]])
        e = by[out[-1]]
        return out, "terminated" if e["terminated"] else "truncated" if e["truncated"] else "unfinished"

    def gae(self, rig, idx, critic, scale, lam=None, v_const=None):
        """explicit sums: returns, advantages (float64), values of obs (float32 as computed)"""
        lam = self.lam if lam is None else lam
        by = rig.d.model.by_slot()
        recs = rig.recs(idx)
        x, _ = obs_stack(recs)
        xn, _ = obs_stack(recs, "obs_next")
        with torch.no_grad():
            v = critic.raw(x).flatten().double().numpy()
            vn = critic.raw(xn).flatten().double().numpy()
        pos = {int(s): k for k, s in enumerate(idx)}
        adv = np.zeros(len(idx))
        for k, s in enumerate(idx):
            ch, kind = self.chain(rig.d.model, int(s))
            self.ctx.note("boot_" + kind)
            for j, c in enumerate(ch):
                boot = 0.0 if by[c]["terminated"] else 1.0
                delta = float(by[c]["rew"] if self.rew is None else self.rew[pos[c]]) + self.gamma * boot * vn[pos[c]] * scale - v[pos[c]] * scale
                adv[k] += (self.gamma * lam) ** j * delta
        return adv + v * scale, adv, torch.tensor(v, dtype=torch.float32)

    def minibatches(self, rig, idx, n_extra=None):
        """row positions of every mini-batch, in order, from what the actor was asked while learning"""
        rows = {as_t(r["obs"]).numpy().tobytes(): k for k, r in enumerate(rig.recs(idx))}
        mbs: list = []
        for o in self.actor.log:
            mb = [rows[x.tobytes()] for x in o]
            mbs.append(mb)
        self.actor.log.clear()
        n = len(idx)
        b = self.batch_size or n
        want = [b] * max(n // b, 1)
        want[-1] = n - b * (len(want) - 1)
        self.ctx.equal([len(m) for m in mbs], want * self.repeat, "minibatch-sizes", f"{n} rows, batch_size {self.batch_size}, repeat {self.repeat}")
        for r in range(self.repeat):
            part = sum(mbs[r * len(want) : (r + 1) * len(want)], [])
            self.ctx.check(sorted(part) == list(range(n)), "minibatch-partition", lambda: f"rows {part} of {n}")
            if n >= 10 and len(want) > 1:
                # a shuffled order is the stored one (almost) never
                self.ctx.check(part != list(range(n)), "minibatch-order", lambda: f"pass {r} went through {n} rows in stored order")
                self.ctx.note("shuffled_passes")
        self.ctx.note("minibatches", len(mbs))
        return mbs, len(want)

    def seq_stats(self, st, name, vals, what, atol=2e-5):
        s = getattr(st, name)
        a = np.array(vals, float)
        self.ctx.close([s.mean, s.std, s.max, s.min], [a.mean(), a.std(), a.max(), a.min()], f"stat:{name}", what, rtol=3e-3, atol=atol)

    def done(self, pol, opts, rig, mbs, it):
        self.ctx.sig(type(pol).__name__, opts, self.gamma, self.lam, self.norm, rig.d.model.slots(), str(mbs))
        self.ctx.note("normalised_returns", self.norm)
        if it == 0:
            self.ctx.sample({"policy": type(pol).__name__, "options": str(opts), "stored": len(rig.d.model), "minibatches": [len(m) for m in mbs]})


def act_of(recs, kind):
    a = np.stack([r["act"] for r in recs])
    return torch.as_tensor(a) if kind == "disc" else as_t(a)


def clip_step(params, loss, lr, max_norm, ctx):
    gs = torch.autograd.grad(loss, params, allow_unused=True)
    gs = [torch.zeros_like(p) if g is None else g for g, p in zip(gs, params)]
    c = 1.0
    if max_norm:
        tot = torch.sqrt(sum((g**2).sum() for g in gs))
        c = min(1.0, max_norm / (float(tot) + 1e-6))
        ctx.note("grad_clipped", c < 1)
    with torch.no_grad():
        for p, g in zip(params, gs):
            p -= lr * c * g


def s_pg(ctx, rng):
    s = Setup(ctx, rng)
    pol = PGPolicy(optim=torch.optim.SGD(s.actor.parameters(), lr=s.lr), **s.kw)
    rig = s.rig(pol, ["actor"])
    for it in range(int(rng.integers(1, 4))):
        rig.grow(0, 4)
        pre = rig.pre()["actor"]
        pol.eval()
        s.actor.log.clear()
        st, idx, _ = rig.update(0, batch_size=s.batch_size, repeat=s.repeat)
        by = rig.d.model.by_slot()
        boot = s.rms.mean if s.norm else 0.0
        ret = np.zeros(len(idx))
        for k, i in enumerate(idx):
            ch, kind = s.chain(rig.d.model, int(i))
            ctx.note("boot_" + kind)
            ret[k] = sum(s.gamma**j * float(by[c]["rew"]) for j, c in enumerate(ch)) + (0 if kind == "terminated" else s.gamma ** len(ch) * boot)
        if s.norm:
            raw = ret.copy()
            ret = (ret - s.rms.mean) / np.sqrt(s.rms.var + 1e-8)
            s.rms.update(raw)
        mbs, _ = s.minibatches(rig, idx)
        recs = rig.recs(idx)
        losses = []
        for mb in mbs:
            rs = [recs[k] for k in mb]
            lp = s.dist(pre, obs_stack(rs)[0]).log_prob(act_of(rs, s.kind))
            loss = -(lp * as_t(ret[mb])).mean()
            clip_step(list(pre.parameters()), loss, s.lr, None, ctx)
            losses.append(float(loss))
        what = f"PG {s.kind} gamma={s.gamma} norm={s.norm} batch={s.batch_size} update {it} idx {idx.tolist()}"
        s.seq_stats(st, "loss", losses, what)
        rig.check_nets({"actor": pre}, what)
        if s.norm:
            ctx.close([float(pol.ret_rms.mean), float(pol.ret_rms.var)], [s.rms.mean, s.rms.var], "return-statistics", what, rtol=1e-4, atol=1e-5)
        s.done(pol, (s.kind, s.batch_size, s.repeat), rig, mbs, it)


def ac_setup(s, cls, **extra):
    params = list(s.actor.parameters()) + list(s.critic.parameters())
    return cls(critic=s.critic, optim=torch.optim.SGD(params, lr=s.lr), gae_lambda=s.lam, max_batchsize=s.maxb, **extra, **s.kw)


def returns_of(s, rig, idx, critic):
    scale = np.sqrt(s.rms.var + 1e-8) if s.norm else 1.0
    ret, adv, v = s.gae(rig, idx, critic, scale)
    if s.norm:
        raw = ret.copy()
        ret = ret / scale
        s.rms.update(raw)
    return as_t(ret), as_t(adv), v


def s_a2c(ctx, rng):
    s = Setup(ctx, rng)
    vf, ent, mg = float(pick(rng, [0.0, 0.5, 1.0])), float(pick(rng, [0.0, 0.01, 0.3])), pick(rng, [None, 0.05, 0.5, 100.0])
    pol = ac_setup(s, A2CPolicy, vf_coef=vf, ent_coef=ent, max_grad_norm=mg)
    rig = s.rig(pol, ["actor", "critic"])
    for it in range(int(rng.integers(1, 4))):
        rig.grow(0, 4)
        pre = rig.pre()
        pol.eval()
        s.actor.log.clear()
        st, idx, _ = rig.update(0, batch_size=s.batch_size, repeat=s.repeat)
        ret, adv, _ = returns_of(s, rig, idx, pre["critic"])
        mbs, _ = s.minibatches(rig, idx)
        recs = rig.recs(idx)
        L: dict = {"loss": [], "actor_loss": [], "vf_loss": [], "ent_loss": []}
        ps = list(pre["actor"].parameters()) + list(pre["critic"].parameters())
        for mb in mbs:
            rs = [recs[k] for k in mb]
            x = obs_stack(rs)[0]
            d = s.dist(pre["actor"], x)
            al = -(d.log_prob(act_of(rs, s.kind)) * adv[mb]).mean()
            vl = ((ret[mb] - pre["critic"].raw(x).flatten()) ** 2).mean()
            el = d.entropy().mean()
            loss = al + vf * vl - ent * el
            clip_step(ps, loss, s.lr, mg, ctx)
            for k, v in zip(L, (loss, al, vl, el)):
                L[k].append(float(v))
        what = f"A2C {s.kind} vf={vf} ent={ent} clip={mg} gamma={s.gamma} lam={s.lam} norm={s.norm} batch={s.batch_size} update {it} idx {idx.tolist()}"
        for k in L:
            s.seq_stats(st, k, L[k], what)
        rig.check_nets(pre, what)
        s.done(pol, (s.kind, vf, ent, mg, s.batch_size, s.repeat), rig, mbs, it)


def s_ppo(ctx, rng, gail=None):
    s = Setup(ctx, rng, "box" if gail else None)
    s.lr *= float(pick(rng, [1, 10, 25] if s.kind == "disc" else [1, 4]))
    vf, ent, mg = float(pick(rng, [0.25, 0.5])), float(pick(rng, [0.0, 0.05])), pick(rng, [None, None, 0.5])
    eps, dual = float(pick(rng, [0.05, 0.2])), pick(rng, [None, 1.2, 1.5, 3.0])
    vclip, norm_adv, rec = (bool(rng.random() < 0.5) for _ in range(3))
    if s.batch_size is not None and norm_adv:
        s.batch_size = max(s.batch_size, 3)
    s.repeat = int(rng.integers(1, 5))
    if dual and not gail and rng.random() < 0.6:  # far from the collecting policy
        s.repeat, s.batch_size, mg = int(rng.integers(3, 6)), 3, None
        s.lr = 1.0 if s.kind == "disc" else 0.02
    pol = ac_setup(
        s, gail.policy(s) if gail else PPOPolicy, vf_coef=vf, ent_coef=ent, max_grad_norm=mg, eps_clip=eps, dual_clip=dual, value_clip=vclip, advantage_normalization=norm_adv,
        recompute_advantage=rec, **(gail.extra if gail else {}),
    )
    rig = s.rig(pol, ["actor", "critic"])
    if not s.ok(rig):
        return
    for it in range(int(rng.integers(1, 3))):
        rig.grow(0, 4)
        pre = rig.pre()
        if gail:
            gail.before()
        pol.eval()
        s.actor.log.clear()
        st, idx, _ = rig.update(0, batch_size=s.batch_size, repeat=s.repeat)
        recs = rig.recs(idx)
        with torch.no_grad():
            lp_old = s.dist(pre["actor"], obs_stack(recs)[0]).log_prob(act_of(recs, s.kind))
        if gail:
            s.rew = gail.reference(st, recs)
        ret, adv, v_old = returns_of(s, rig, idx, pre["critic"])
        mbs, per = s.minibatches(rig, idx)
        L: dict = {"loss": [], "clip_loss": [], "vf_loss": [], "ent_loss": []}
        ps = list(pre["actor"].parameters()) + list(pre["critic"].parameters())
        for m, mb in enumerate(mbs):
            if rec and m > 0 and m % per == 0:
                ret, adv, v_old = returns_of(s, rig, idx, pre["critic"])
                ctx.note("recomputed")
            rs = [recs[k] for k in mb]
            x = obs_stack(rs)[0]
            d = s.dist(pre["actor"], x)
            a = adv[mb]
            if norm_adv:
                a = (a - a.mean()) / (a.std() + 1e-8)
            ratio = (d.log_prob(act_of(rs, s.kind)) - lp_old[mb]).exp()
            ctx.note("clipped_ratios", int(((ratio < 1 - eps) | (ratio > 1 + eps)).sum()))
            surr = torch.min(ratio * a, ratio.clamp(1 - eps, 1 + eps) * a)
            if dual:
                ctx.note("dual_clipped", int(((a < 0) & (surr < dual * a)).sum()))
                ctx.note("dual_clipped_small", int(((a < 0) & (a > -0.5) & (surr < dual * a)).sum()))
                surr = torch.where(a < 0, torch.max(surr, dual * a), surr)
            cl = -surr.mean()
            v = pre["critic"].raw(x).flatten()
            e = (ret[mb] - v) ** 2
            if vclip:
                vc = v_old[mb] + (v - v_old[mb]).clamp(-eps, eps)
                e = torch.max(e, (ret[mb] - vc) ** 2)
            vl, el = e.mean(), d.entropy().mean()
            loss = cl + vf * vl - ent * el
            clip_step(ps, loss, s.lr, mg, ctx)
            for k, val in zip(L, (loss, cl, vl, el)):
                L[k].append(float(val))
        what = f"PPO {s.kind} vf={vf} ent={ent} clip={mg} eps={eps} dual={dual} vclip={vclip} normadv={norm_adv} recompute={rec} gamma={s.gamma} lam={s.lam} norm={s.norm} batch={s.batch_size} repeat={s.repeat} update {it} idx {idx.tolist()}"
        if not all(np.isfinite(L["loss"])) or max(np.abs(L["loss"])) > 1e4 or (norm_adv and float(adv.std()) < 1e-4):
            ctx.note("degenerate")
            return
        for k in L:
            s.seq_stats(st, k, L[k], what, atol=2e-4)
        ctx.equal(st.gradient_steps, len(mbs), "gradient-steps", what)
        rig.check_nets(pre, what, rtol=2e-3, atol=5e-5)
        s.done(pol, (s.kind, vf, ent, mg, eps, dual, vclip, norm_adv, rec, s.batch_size, s.repeat), rig, mbs, it)


def flat(ps):
    return torch.cat([p.reshape(-1) for p in ps])


def set_flat(net, v):
    k = 0
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(v[k : k + p.numel()].view_as(p).to(p.dtype))
            k += p.numel()


def kl_of(kind, p, q):
    if kind == "disc":
        return (p.probs * (p.logits.log_softmax(-1) - q.logits.log_softmax(-1))).sum(-1).mean()
    m1, s1, m2, s2 = p.base_dist.loc, p.base_dist.scale, q.base_dist.loc, q.base_dist.scale
    return ((s2 / s1).log() + (s1**2 + (m1 - m2) ** 2) / (2 * s2**2) - 0.5).sum(-1).mean()


def natural(s, actor, x, grad):
    """(F + 0.1 I)^-1 grad by ten conjugate-gradient steps with the explicit Hessian of the KL, in float64"""
    ps = list(actor.parameters())
    with torch.no_grad():
        old = s.dist(actor, x)
    kl = kl_of(s.kind, old, s.dist(actor, x))
    g1 = flat(torch.autograd.grad(kl, ps, create_graph=True))
    H = torch.stack([flat(torch.autograd.grad(g1[i], ps, retain_graph=True)) for i in range(len(g1))])
    A = H + 0.1 * torch.eye(len(g1), dtype=H.dtype)
    b = grad.clone()
    xk, r, p = torch.zeros_like(b), b.clone(), b.clone()
    rr = r @ r
    for _ in range(10):
        if rr < 1e-30:
            break
        z = A @ p
        al = rr / (p @ z)
        xk, r = xk + al * p, r - al * z
        new = r @ r
        if new < 1e-10:
            break
        p, rr = r + new / rr * p, new
    return xk, A


def s_trust(ctx, rng):
    s = Setup(ctx, rng)
    trpo = bool(rng.random() < 0.6)
    norm_adv = bool(rng.random() < 0.5)
    iters, step = int(rng.integers(1, 4)), float(pick(rng, [0.05, 0.1, 0.5, 1.0]))
    if s.batch_size is not None:
        s.batch_size = max(s.batch_size, 3)
    s.repeat = int(rng.integers(1, 3))
    s.critic = V(DIM, 1)
    extra = {}
    if trpo:
        maxkl, coeff, nb = float(pick(rng, [0.001, 0.01, 0.5, 2.0])), float(pick(rng, [0.5, 0.8])), int(pick(rng, [1, 1, 2, 10]))
        extra = dict(max_kl=maxkl, backtrack_coeff=coeff, max_backtracks=nb)
    torch.set_default_dtype(torch.float64)
    try:
        s.actor.double()
        s.critic.double()
        pol = (TRPOPolicy if trpo else NPGPolicy)(
            critic=s.critic, optim=torch.optim.SGD(s.critic.parameters(), lr=s.lr), gae_lambda=s.lam, max_batchsize=s.maxb, advantage_normalization=norm_adv,
            optim_critic_iters=iters, actor_step_size=step, **extra, **s.kw,
        )
        rig = s.rig(pol, ["actor", "critic"])
        if not s.ok(rig):
            return
        pre = rig.pre()
        pol.eval()
        s.actor.log.clear()
        st, idx, _ = rig.update(0, batch_size=s.batch_size, repeat=s.repeat)
        recs = rig.recs(idx)
        with torch.no_grad():
            lp_old = s.dist(pre["actor"], obs_stack(recs)[0]).log_prob(act_of(recs, s.kind))
        ret, adv, _ = returns_of(s, rig, idx, pre["critic"])
        if norm_adv:
            if float(adv.std()) < 1e-3:
                return
            adv = (adv - adv.mean()) / adv.std()
        mbs, _ = s.minibatches(rig, idx)
        what = f"{type(pol).__name__} {s.kind} {extra} iters={iters} step={step} normadv={norm_adv} gamma={s.gamma} lam={s.lam} norm={s.norm} batch={s.batch_size} repeat={s.repeat} idx {idx.tolist()}"

        def reference(pre, adv):
            """parameters in place, losses; None if a decision hangs on rounding"""
            L: dict = {"actor_loss": [], "vf_loss": [], "kl": []}
            if trpo:
                L["step_size"] = []
            for mb in mbs:
                rs = [recs[k] for k in mb]
                x, act, a = obs_stack(rs)[0], act_of(rs, s.kind), adv[mb]
                actor = pre["actor"]
                ps = list(actor.parameters())

                def surr(net):
                    lp = s.dist(net, x).log_prob(act)
                    return -(((lp - lp_old[mb]).exp() if trpo else lp) * a).mean()

                al = surr(actor)
                direction, A = natural(s, actor, x, flat(torch.autograd.grad(al, ps)).detach())
                direction = -direction
                if float(direction.abs().max()) < 1e-7:
                    return None  # stationary point: the direction is rounding noise
                theta = flat(ps).detach().clone()
                with torch.no_grad():
                    old = deepcopy(s.dist(actor, x))
                    if not trpo:
                        set_flat(actor, theta + step * direction)
                        kl = float(kl_of(s.kind, old, s.dist(actor, x)))
                        ctx.note("natural_steps")
                    else:
                        beta = float(torch.sqrt(2 * maxkl / (direction @ (A @ direction))))
                        found = False
                        for i in range(nb):
                            set_flat(actor, theta + beta * direction)
                            kl, new = float(kl_of(s.kind, old, s.dist(actor, x))), float(surr(actor))
                            # float32 rounding inside the policy can only matter next to a threshold
                            if abs(kl - maxkl) < 1e-3 * maxkl or abs(new - float(al)) < 1e-6 * max(1.0, abs(float(al))):
                                return None
                            if kl < maxkl and new < float(al):
                                found = True
                                break
                            if i < nb - 1:
                                beta *= coeff
                        if not found:
                            set_flat(actor, theta)
                            beta, kl = 0.0, 0.0
                            ctx.note("line_search_failed")
                        else:
                            ctx.note("trust_steps")
                        L["step_size"].append(beta)
                cps = list(pre["critic"].parameters())
                for _ in range(iters):
                    vl = ((ret[mb].to(cps[0].dtype) - pre["critic"].raw(x).flatten()) ** 2).mean()
                    clip_step(cps, vl, s.lr, None, ctx)
                L["actor_loss"].append(float(al))
                L["vf_loss"].append(float(vl))
                L["kl"].append(kl)
            return L

        pert = deepcopy(pre)
        noise = torch.as_tensor(np.random.default_rng(7).choice([-1.0, 1.0], len(adv)))
        L, Lp = reference(pre, adv), reference(pert, adv * (1 + 1e-6 * noise))
        if L is None or Lp is None:
            ctx.note("threshold_ties")
            return
        with torch.no_grad():
            f, fp = flat(pre["actor"].parameters()), flat(pert["actor"].parameters())
            sens = float(((f - fp).abs() / (1 + f.abs())).max())
        if not sens < 1e-5 or not np.allclose(L["kl"], Lp["kl"], rtol=3e-4, atol=1e-5):
            ctx.note("ill_conditioned")  # rounding of the advantages is amplified beyond the tolerance
            return
        if not np.all(np.isfinite([v for v in L["actor_loss"] + L["vf_loss"]])) or max(np.abs(L["vf_loss"])) > 1e4:
            ctx.note("degenerate")
            return
        for k in L:
            s.seq_stats(st, k, L[k], what, atol=2e-4)
        rig.check_nets(pre, what, rtol=5e-3, atol=2e-4)
        s.done(pol, (s.kind, trpo, str(extra), iters, step, norm_adv, s.batch_size, s.repeat), rig, mbs, 0)
    finally:
        torch.set_default_dtype(torch.float32)


SCENARIOS = [
    Scenario("pg", s_pg, 50, 800),
    Scenario("a2c", s_a2c, 60, 900),
    Scenario("ppo", s_ppo, 130, 1600),
    Scenario("trust", s_trust, 90, 1000),
]
