"""Value-based updates (DQN family), compared with an independent computation on copies of the networks."""
from copy import deepcopy

import numpy as np
import torch
import torch.nn.functional as F
from tianshou.policy import BranchingDQNPolicy, C51Policy, DiscreteCQLPolicy, DQNPolicy, FQFPolicy, IQNPolicy, QRDQNPolicy, RainbowPolicy
from tianshou.utils.net.discrete import FractionProposalNetwork, FullQuantileFunction, NoisyLinear
from torch import nn
from vlib.core import Scenario
from vlib.pol import DIM, MLP, PolSpec, Q, Rig, apply, as_t, obs_stack, sgd

RULE = (
    "real updates of each value-based policy on random experience in every buffer class, with masks, double/plain targets, "
    "target-network frequencies, n-step and discount values; parameters, target parameters, losses and priorities after "
    "each update are compared with an independent computation; distinct = (algorithm, options, indices, ring states)"
)
MIN = {
    "updates": 700, "boot_full": 800, "boot_terminated": 400, "boot_truncated": 300, "boot_unfinished": 80, "priority_writes": 400,
    "masked_updates": 100, "target_synced": 100, "target_kept": 100, "single_row_updates": 20, "networks_apart": 100,
}


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def common(rng):
    return dict(
        discount_factor=float(pick(rng, [0.0, 0.5, 0.9, 0.99, 1.0])), estimation_step=int(pick(rng, [1, 1, 2, 3, 5])),
        target_update_freq=int(pick(rng, [0, 1, 2, 3])),
    )


def masked_argmax(q, mask):
    return (q if mask is None else q.masked_fill(~mask, -torch.inf)).argmax(1)


def run(ctx, rng, policy, spec, kw, opts, lr, step_ref, nets, rounds, before=None):
    """step_ref(pre, old, recs, idx, w, rig) -> (loss, priorities, [gradient steps]) on `pre` networks."""
    rig = Rig(ctx, rng, spec, policy, nets)
    rig.grow(2, 9)
    freq = kw["target_update_freq"]
    for it in range(rounds):
        rig.grow(0, 5)
        policy.train(True)
        if rng.random() < 0.4:  # online and target networks far apart
            with torch.no_grad():
                for p in policy.model.parameters():
                    p.add_(torch.as_tensor(rng.normal(0, 0.6, size=tuple(p.shape)), dtype=p.dtype))
            ctx.note("networks_apart", bool(freq))
        pre = rig.pre()
        old = deepcopy(policy.model_old) if freq else None
        st, idx, w = rig.update()
        ctx.note("single_row_updates", len(idx) == 1)
        ctx.note("masked_updates", spec.masked)
        if before is not None:
            before(pre, old, policy)
        recs = rig.recs(idx)
        want_old = None
        if freq:
            want_old = deepcopy(pre["model"] if it % freq == 0 else old)
            ctx.note("target_synced" if it % freq == 0 else "target_kept")
        loss, prio, steps = step_ref(pre, old, want_old, recs, idx, w, rig, st)
        for s in steps:
            apply(s)
        what = f"{type(policy).__name__} {opts} update {it}, buffer {rig.d.kind}, idx {idx.tolist()}"
        ctx.close(float(st.loss), float(loss), "loss", what, rtol=2e-3, atol=2e-5)
        rig.check_nets(pre, what)
        rig.check_prio(idx, prio, what)
        if freq:
            for (k, got), (_, want) in zip(policy.model_old.named_parameters(), want_old.named_parameters()):
                ctx.close(got, want, "target-network", lambda k=k: f"{what}: target {k}", rtol=1e-6, atol=1e-7)
                ctx.check(got.grad is None or not got.grad.abs().sum() > 0, "target-gradient", what)
        ctx.sig(type(policy).__name__, opts, idx.tolist(), tuple((len(r.items), r.ptr) for r in rig.d.model.rings))
    ctx.sample({"policy": type(policy).__name__, "options": opts, "buffer": rig.d.kind, "stored": len(rig.d.model)})


def s_dqn(ctx, rng):
    kw = common(rng)
    spec = PolSpec(rng, "disc", int(rng.integers(1, 5)), masked=bool(rng.random() < 0.4))
    dbl, clip = bool(rng.random() < 0.5), bool(rng.random() < 0.3)
    lr = 0.07
    net = Q(DIM, spec.n)
    pol = DQNPolicy(model=net, optim=torch.optim.SGD(net.parameters(), lr=lr), action_space=spec.space(), is_double=dbl, clip_loss_grad=clip, **kw)

    def ref(pre, old, want_old, recs, idx, w, rig, st):
        def value(rs):
            x, m = obs_stack(rs, "obs_next")
            qo, qt = pre["model"].raw(x), (old or pre["model"]).raw(x)
            a = masked_argmax(qo if dbl else qt, m)
            return qt[torch.arange(len(a)), a]

        y = rig.targets(idx, kw["estimation_step"], kw["discount_factor"], value)
        x, _ = obs_stack(recs)
        q = pre["model"].raw(x)[torch.arange(len(recs)), torch.tensor([int(r["act"]) for r in recs])]
        td = y - q
        if clip:
            loss = torch.where(td.abs() <= 1, 0.5 * td**2, td.abs() - 0.5).mean()
        else:
            loss = (td**2 * rig.weights(w)).mean()
        return loss, td, [sgd(pre["model"], loss, lr)]

    run(ctx, rng, pol, spec, kw, (dbl, clip, spec.masked, *kw.values()), lr, ref, ["model"], int(rng.integers(1, 6)))


class Branch(Q):
    def __init__(self, nb, k):
        super().__init__(DIM, (nb, k))
        self.num_branches, self.action_per_branch = nb, k


def s_bdq(ctx, rng):
    kw = dict(common(rng), estimation_step=1)
    nb, k = int(rng.integers(1, 4)), int(rng.integers(2, 5))
    spec = PolSpec(rng, "branch", k, branches=nb)
    dbl = bool(rng.random() < 0.5)
    lr = 0.07
    net = Branch(nb, k)
    pol = BranchingDQNPolicy(model=net, optim=torch.optim.SGD(net.parameters(), lr=lr), action_space=spec.space(), is_double=dbl, **kw)

    def ref(pre, old, want_old, recs, idx, w, rig, st):
        def value(rs):
            x, _ = obs_stack(rs, "obs_next")
            qo, qt = pre["model"].raw(x), (old or pre["model"]).raw(x)
            a = (qo if dbl else qt).argmax(-1, keepdim=True)
            return qt.gather(-1, a).squeeze(-1).mean(-1)

        y = rig.targets(idx, 1, kw["discount_factor"], value)
        x, _ = obs_stack(recs)
        a = torch.as_tensor(np.stack([r["act"] for r in recs]))[..., None]
        td = y[:, None] - pre["model"].raw(x).gather(-1, a).squeeze(-1)  # [B, branches]
        loss = ((td**2).mean(-1) * rig.weights(w)).mean()
        return loss, td.sum(-1), [sgd(pre["model"], loss, lr)]

    run(ctx, rng, pol, spec, kw, (dbl, nb, k, *kw.values()), lr, ref, ["model"], int(rng.integers(1, 6)))


class Noisy(nn.Module):
    """Distributional network with noisy layers."""

    def __init__(self, n, atoms):
        super().__init__()
        self.n, self.atoms = n, atoms
        self.l1, self.l2 = NoisyLinear(DIM, 6, 0.5), NoisyLinear(6, n * atoms, 0.5)

    def raw(self, x):
        return self.l2(torch.tanh(self.l1(x))).view(-1, self.n, self.atoms).softmax(-1)

    def forward(self, obs, state=None, info={}):  # noqa: B006
        return self.raw(as_t(obs)), state


def noise_of(net):
    return [b.clone() for _, b in net.named_buffers()]


def s_c51(ctx, rng):
    kw = common(rng)
    spec = PolSpec(rng, "disc", int(rng.integers(1, 5)), masked=bool(rng.random() < 0.4), rew_scale=0.2)
    atoms = int(pick(rng, [2, 5, 11]))
    vmin, vmax = float(rng.uniform(-4, -0.5)), float(rng.uniform(0.5, 4))
    lr = 0.3
    rainbow = bool(rng.random() < 0.4)
    net = Noisy(spec.n, atoms) if rainbow else Q(DIM, (spec.n, atoms), post="softmax")
    pol = (RainbowPolicy if rainbow else C51Policy)(
        model=net, optim=torch.optim.SGD(net.parameters(), lr=lr), action_space=spec.space(), num_atoms=atoms, v_min=vmin, v_max=vmax, **kw,
    )
    z = np.linspace(vmin, vmax, atoms)
    zt = torch.tensor(z, dtype=torch.float32)
    if rainbow and kw["target_update_freq"]:
        pol.model_old.train()
    state = {"k": 0}

    def before(pre, old, policy):
        """The noise drawn for this update, read from the networks the policy used."""
        if not rainbow:
            return
        drawn, was = noise_of(policy.model), noise_of(pre["model"])
        ctx.check(any(not torch.equal(a, b) for a, b in zip(drawn, was)), "noise-not-resampled", "online network")
        for (n1, b), v in zip(pre["model"].named_buffers(), drawn):
            b.copy_(v)
        if old is not None:
            od, ow = noise_of(policy.model_old), noise_of(old)
            ctx.check(any(not torch.equal(a, b) for a, b in zip(od, ow)), "noise-not-resampled", "target network")
            if state["k"] % kw["target_update_freq"] != 0:
                ctx.check(any(not torch.equal(a, b) for a, b in zip(od, drawn)), "noise-shared", "target network uses the online noise")
            for (n1, b), v in zip(old.named_buffers(), od):
                b.copy_(v)
        state["k"] += 1
        ctx.note("noise_draws")

    def ref(pre, old, want_old, recs, idx, w, rig, st):
        ends = {}

        def value(rs):
            ends["recs"] = rs
            return torch.ones(len(rs))

        f = rig.targets(idx, kw["estimation_step"], kw["discount_factor"], lambda rs: torch.zeros(len(rs))).double().numpy()
        g = rig.targets(idx, kw["estimation_step"], kw["discount_factor"], value).double().numpy() - f
        online, target = pre["model"], want_old if want_old is not None else pre["model"]
        if rainbow and want_old is not None:
            for (_, b), (_, v) in zip(want_old.named_buffers(), pol.model_old.named_buffers()):
                b.copy_(v)
            target.train()
        with torch.no_grad():
            x, m = obs_stack(ends["recs"], "obs_next")
            a = masked_argmax((online.raw(x) * zt).sum(2), m)
            p = target.raw(x)[torch.arange(len(a)), a].double().numpy()
        proj = np.zeros((len(recs), atoms))
        dz = (vmax - vmin) / (atoms - 1)
        for i in range(len(recs)):
            for j in range(atoms):
                b = (min(max(f[i] + g[i] * z[j], vmin), vmax) - vmin) / dz
                lo = min(int(np.floor(b + 1e-9)), atoms - 1)
                hi = min(lo + 1, atoms - 1)
                proj[i, lo] += p[i, j] * (1 - (b - lo)) if hi > lo else p[i, j]
                if hi > lo:
                    proj[i, hi] += p[i, j] * (b - lo)
        ctx.close(proj.sum(1), np.ones(len(recs)), "reference-projection", "", rtol=1e-5, atol=1e-5)
        cur = online.raw(obs_stack(recs)[0])[torch.arange(len(recs)), torch.tensor([int(r["act"]) for r in recs])]
        ce = -(torch.tensor(proj, dtype=torch.float32) * torch.log(cur + 1e-8)).sum(1)
        loss = (ce * rig.weights(w)).mean()
        return loss, ce, [sgd(online, loss, lr)]

    run(ctx, rng, pol, spec, kw, (rainbow, atoms, spec.masked, *kw.values()), lr, ref, ["model"], int(rng.integers(1, 6)), before)


def quantile_parts(cur, tau, y):
    """cur [B,N], tau [B,N] or [N], y [B,M] -> (per-sample loss, priority)."""
    tau = tau if tau.dim() == 2 else tau.expand(len(cur), -1)
    B, N, M = len(cur), cur.shape[1], y.shape[1]
    u = y[:, None, :] - cur[:, :, None]
    hub = torch.where(u.abs() < 1, 0.5 * u**2, u.abs() - 0.5)
    wgt = torch.where(u.detach() <= 0, 1 - tau[:, :, None], tau[:, :, None])
    ctx_shape = (B, N, M)
    assert hub.shape == ctx_shape
    return (hub * wgt).sum(2).mean(1), hub.detach().sum(2).mean(1)


def s_qrdqn(ctx, rng, cql=False):
    kw = common(rng)
    spec = PolSpec(rng, "disc", int(rng.integers(1, 5)), masked=bool(rng.random() < 0.4))
    nq = int(pick(rng, [2, 5, 9]))
    lr = 0.02
    net = Q(DIM, (spec.n, nq))
    mqw = float(pick(rng, [0.0, 0.5, 5.0])) if cql else None
    cls, extra = (DiscreteCQLPolicy, {"min_q_weight": mqw}) if cql else (QRDQNPolicy, {})
    pol = cls(model=net, optim=torch.optim.SGD(net.parameters(), lr=lr), action_space=spec.space(), num_quantiles=nq, **extra, **kw)
    tau = torch.tensor([(2 * i + 1) / (2 * nq) for i in range(nq)])

    def ref(pre, old, want_old, recs, idx, w, rig, st):
        def value(rs):
            x, m = obs_stack(rs, "obs_next")
            a = masked_argmax(pre["model"].raw(x).mean(2), m)
            return (old or pre["model"]).raw(x)[torch.arange(len(a)), a]

        y = rig.targets(idx, kw["estimation_step"], kw["discount_factor"], value)
        cur = pre["model"].raw(obs_stack(recs)[0])[torch.arange(len(recs)), torch.tensor([int(r["act"]) for r in recs])]
        per, prio = quantile_parts(cur, tau, y)
        loss = (per * rig.weights(w)).mean()
        if cql:
            q = pre["model"].raw(obs_stack(recs)[0]).mean(2)
            gap = torch.log(q.exp().sum(1)).mean() - q[torch.arange(len(recs)), torch.tensor([int(r["act"]) for r in recs])].mean()
            ctx.close([float(st.qr_loss), float(st.cql_loss)], [float(loss), float(gap)], "stat:cql", "", rtol=2e-3, atol=2e-5)
            loss = loss + mqw * gap
        return loss, prio, [sgd(pre["model"], loss, lr)]

    run(ctx, rng, pol, spec, kw, (nq, mqw, spec.masked, *kw.values()), lr, ref, ["model"], int(rng.integers(1, 6)))


class Implicit(nn.Module):
    """Implicit quantile network with taus fixed by the number of samples."""

    def __init__(self, n):
        super().__init__()
        self.n = n
        self.m = MLP(DIM + 1, n)
        self.sizes: list = []

    def taus(self, b, s):
        return (torch.arange(s) + 0.3 + 0.05 * s).fmod(s).add(0.2).div(s + 0.5).expand(b, s)

    def raw(self, x, s):
        t = self.taus(len(x), s)
        inp = torch.cat([x[:, None, :].expand(-1, s, -1), t[..., None]], -1)
        return self.m.raw(inp.reshape(-1, DIM + 1)).view(len(x), s, self.n).transpose(1, 2), t

    def forward(self, obs, sample_size, state=None, info={}, **kw):  # noqa: B006
        self.sizes.append(sample_size)
        return self.raw(as_t(obs), sample_size), state


def s_iqn(ctx, rng):
    kw = common(rng)
    spec = PolSpec(rng, "disc", int(rng.integers(1, 5)), masked=bool(rng.random() < 0.4))
    ss, so, sy = (int(i) for i in rng.permutation(np.arange(2, 9))[:3])
    lr = 0.02
    net = Implicit(spec.n)
    pol = IQNPolicy(
        model=net, optim=torch.optim.SGD(net.parameters(), lr=lr), action_space=spec.space(), sample_size=ss, online_sample_size=so, target_sample_size=sy, **kw,
    )

    def ref(pre, old, want_old, recs, idx, w, rig, st):
        def value(rs):
            x, m = obs_stack(rs, "obs_next")
            a = masked_argmax(pre["model"].raw(x, so)[0].mean(2), m)
            q = old.raw(x, sy)[0] if old is not None else pre["model"].raw(x, so)[0]
            return q[torch.arange(len(a)), a]

        y = rig.targets(idx, kw["estimation_step"], kw["discount_factor"], value)
        cur, tau = pre["model"].raw(obs_stack(recs)[0], so)
        cur = cur[torch.arange(len(recs)), torch.tensor([int(r["act"]) for r in recs])]
        per, prio = quantile_parts(cur, tau, y)
        loss = (per * rig.weights(w)).mean()
        return loss, prio, [sgd(pre["model"], loss, lr)]

    run(ctx, rng, pol, spec, kw, (ss, so, sy, spec.masked, *kw.values()), lr, ref, ["model"], int(rng.integers(1, 6)))


class Feat(nn.Module):
    """Feature network with the standard (features, state) output."""

    def __init__(self, out=6):
        super().__init__()
        self.l = nn.Linear(DIM, out)
        self.output_dim = out

    def forward(self, obs, state=None, info={}):  # noqa: B006
        return torch.tanh(self.l(as_t(obs))), state


def s_fqf(ctx, rng):
    kw = common(rng)
    spec = PolSpec(rng, "disc", int(rng.integers(1, 5)), masked=bool(rng.random() < 0.4))
    nf = int(pick(rng, [2, 4, 7]))
    ent = float(pick(rng, [0.0, 0.3]))
    lr, lrf = 0.02, 0.05
    net = FullQuantileFunction(Feat(), spec.n, hidden_sizes=(5,), num_cosines=4, preprocess_net_output_dim=6)
    frac = FractionProposalNetwork(nf, 6)
    with torch.no_grad():
        frac.net.weight.mul_(40)
    pol = FQFPolicy(
        model=net, optim=torch.optim.SGD(net.parameters(), lr=lr), fraction_model=frac, fraction_optim=torch.optim.SGD(frac.parameters(), lr=lrf),
        action_space=spec.space(), num_fractions=nf, ent_coef=ent, **kw,
    )
    pol.fraction_model.train()

    def ref(pre, old, want_old, recs, idx, w, rig, st):
        net, fr = pre["model"], pre["fraction_model"]
        net.train()

        def value(rs):
            x, m = obs_stack(rs, "obs_next")
            (q, f, _), _ = net(x, propose_model=fr)
            a = masked_argmax(((f.taus[:, 1:] - f.taus[:, :-1])[:, None] * q).sum(2), m)
            if old is not None:
                (q, _, _), _ = old(x, propose_model=fr, fractions=f)
            return q[torch.arange(len(a)), a]

        y = rig.targets(idx, kw["estimation_step"], kw["discount_factor"], value)
        rows, acts = torch.arange(len(recs)), torch.tensor([int(r["act"]) for r in recs])
        (q, f, qt), _ = net(obs_stack(recs)[0], propose_model=fr)
        cur = q[rows, acts]
        per, prio = quantile_parts(cur, f.tau_hats.detach(), y)
        ql = (per * rig.weights(w)).mean()
        # dW/dtau_i = 2 F^-1(tau_i) - F^-1(hat tau_i) - F^-1(hat tau_{i-1}), in the sign-corrected form
        # of the reference implementation for quantiles that cross
        with torch.no_grad():
            h, s = cur, qt[rows, acts]
            grad = torch.zeros_like(s)
            for i in range(s.shape[1]):
                left = h[:, 0] if i == 0 else s[:, i - 1]
                right = h[:, -1] if i == s.shape[1] - 1 else s[:, i + 1]
                a, b = s[:, i] - h[:, i], s[:, i] - h[:, i + 1]
                grad[:, i] = torch.where(s[:, i] > left, a, -a) + torch.where(s[:, i] < right, b, -b)
        fl = (grad * f.taus[:, 1:-1]).sum(1).mean()
        el = f.entropies.mean()
        tot = fl - ent * el
        ctx.close(float(st.quantile_loss), float(ql), "quantile-loss", "", rtol=2e-3, atol=2e-5)
        ctx.close(float(st.fraction_loss), float(fl), "fraction-loss", "", rtol=2e-3, atol=2e-4)
        ctx.close(float(st.entropy_loss), float(el), "entropy-loss", "", rtol=2e-3, atol=2e-5)
        s1 = sgd(fr, tot, lrf, retain=True)
        s2 = sgd(net, ql, lr)
        return ql + tot, prio, [s1, s2]

    run(ctx, rng, pol, spec, kw, (nf, ent, spec.masked, *kw.values()), lr, ref, ["model", "fraction_model"], int(rng.integers(1, 6)))


SCENARIOS = [
    Scenario("dqn", s_dqn, 90, 1500),
    Scenario("bdq", s_bdq, 50, 900),
    Scenario("c51", s_c51, 70, 1200),
    Scenario("qrdqn", s_qrdqn, 50, 900),
    Scenario("iqn", s_iqn, 50, 900),
    Scenario("fqf", s_fqf, 50, 900),
]
