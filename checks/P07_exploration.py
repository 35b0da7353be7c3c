"""Exploration: epsilon-greedy, action noise, random agents - distribution, independence and when it applies."""
from copy import deepcopy

import gymnasium as gym
import numpy as np
import torch
from tianshou.data import AsyncCollector, Batch, Collector, VectorReplayBuffer
from tianshou.env import DummyVectorEnv
from tianshou.exploration import GaussianNoise, OUNoise
from tianshou.exploration.random import BaseNoise
from tianshou.policy.random import MARLRandomPolicy
from vlib import zoo
from vlib.core import Scenario

RULE = (
    "exploration on the actions of every policy of the library for groups of observations with action masks, epsilons changed on the "
    "way, noise processes and collectors with exploration and random collection switched on and off; frequencies, moments and "
    "correlations of the observed draws are compared with the documented distribution (6.5 sigma); distinct = (policy, epsilon, masks, options)"
)
MIN = {
    "eps_rows": 60000, "policies": 36, "masked_groups": 60, "small_calls": 3000, "branch_rows": 4000, "noise_rows": 20000, "ou_steps": 4000, "ou_resets": 50,
    "random_agent_rows": 20000, "collected": 1500, "noised_steps": 400, "unnoised_steps": 400, "set_eps": 60,
}
Z = 6.5
GREEDY = ["dqn", "dqn_plain", "c51", "rainbow", "qrdqn", "iqn", "fqf", "dcql", "dbcq", "icm_dqn"]
NOISY = ["ddpg", "td3", "sac", "redq", "cql", "td3bc"]


class Fixed(BaseNoise):
    """Known noise: records the sizes it was asked for."""

    def __init__(self, rng):
        self.rng, self.asked, self.given, self.resets = rng, [], [], 0

    def reset(self):
        self.resets += 1

    def __call__(self, size):
        self.asked.append(tuple(size))
        self.given.append(self.rng.normal(size=size))
        return self.given[-1].copy()


def binom_ok(n, N, p):
    return abs(n - N * p) <= Z * np.sqrt(N * p * (1 - p)) + 1e-9 + (3 if 0 < p < 1 else 0)


def groups(rng, n, masked, G, reps):
    """Masks and greedy actions of G groups, rows shuffled."""
    masks = rng.random((G, n)) < 0.6
    masks[np.arange(G), rng.integers(0, n, G)] = True
    if not masked:
        masks[:] = True
    best = np.array([int(rng.choice(np.flatnonzero(m))) for m in masks])
    rows = rng.permutation(np.repeat(np.arange(G), reps))
    return masks, best, rows


def s_eps(ctx, rng):
    name = GREEDY[ctx.case % len(GREEDY)]
    it = zoo.build(name, rng, drop=0.0, masked=False)
    pol, n = it.policy, it.spec.n
    masked = bool(rng.random() < 0.6)
    with torch.no_grad():
        pol.eval()
        pol(zoo.obs_batch(it.spec, rng, rows=2))
    if name != "dbcq":
        ctx.check((pol.policy if name == "icm_dqn" else pol).eps == 0.0, "default-eps", name)
    for _ in range(2):
        eps = float(rng.choice([0.0, 0.05, 0.3, 0.5, 0.9, 1.0]))
        pol.set_eps(eps)
        ctx.note("set_eps")
        G = int(rng.integers(1, 4))
        masks, best, rows = groups(rng, n, masked, G, 1200)
        obs = Batch(obs=np.zeros((len(rows), 3)), mask=masks[rows]) if masked else np.zeros((len(rows), 3))
        small = bool(rng.random() < 0.3)
        out = []
        step = int(rng.integers(1, 4)) if small else len(rows)
        for s in range(0, len(rows), step):
            b = Batch(obs=obs[s : s + step], info=Batch())
            kb = deepcopy(b)
            act = best[rows[s : s + step]].copy()
            got = pol.exploration_noise(act, b)
            if s == 0:
                ctx.equal(b, kb, "input-modified", name)
                ctx.check(isinstance(got, np.ndarray) and got.dtype.kind in "iu" and got.shape == act.shape, "noised-type", f"{name}: {got!r:.80}")
            out.append(got)
            ctx.note("small_calls", small)
        out = np.concatenate(out)
        what = f"{name}, eps {eps}, {n} actions, calls with {step} rows"
        ctx.note("eps_rows", len(rows))
        changed = np.zeros(len(rows))
        for g in range(G):
            sel = rows == g
            k = int(masks[g].sum())
            cnt = np.bincount(out[sel], minlength=n)
            N = int(sel.sum())
            p = np.where(masks[g], eps / k, 0.0) + (1 - eps) * (np.arange(n) == best[g])
            ctx.check(len(cnt) == n, "action-range", what)
            ctx.check(all(binom_ok(c, N, q) for c, q in zip(cnt, p)), "eps-greedy-frequencies", f"{what}, allowed {masks[g]}, greedy {best[g]}: {cnt} expected {(N * p).round(1)}")
            q = eps * (1 - 1 / k)
            if 0 < q < 1:
                changed[sel] = ((out[sel] != best[g]) - q) / np.sqrt(q * (1 - q))
            ctx.note("masked_groups", k < n)
        for lag in range(1, 4):  # each row tosses its own coin
            c = float((changed[lag:] * changed[:-lag]).sum())
            ctx.check(abs(c) <= Z * np.sqrt(len(rows)) * 2, "rows-not-independent", f"{what}: lag {lag}: {c}")
        ctx.sig(name, eps, masks, small)
    t = torch.as_tensor(best[rows[:5]])
    pol.set_eps(0.0)
    a = best[rows[:5]].copy()
    ctx.equal(np.asarray(pol.exploration_noise(a, Batch(obs=obs[:5], info=Batch()))), t.numpy(), "eps-zero-changed-actions", name)
    ctx.sample({"policy": name, "eps": eps, "rows": len(rows), "masks": masks.tolist()})


def s_branch(ctx, rng):
    it = zoo.build("bdq", rng, drop=0.0)
    pol, n = it.policy, it.spec.n
    eps = float(rng.choice([0.0, 0.2, 0.6, 1.0]))
    pol.set_eps(eps)
    N, nb = 1500, pol.num_branches
    best = rng.integers(0, n, nb)
    act = np.tile(best, (N, 1))
    out = pol.exploration_noise(act.copy(), Batch(obs=np.zeros((N, 3)), info=Batch()))
    what = f"bdq, eps {eps}, {n} actions per branch"
    for j in range(nb):
        cnt = np.bincount(out[:, j], minlength=n)
        p = eps / n + (1 - eps) * (np.arange(n) == best[j])
        ctx.check(len(cnt) == n and all(binom_ok(c, N, q) for c, q in zip(cnt, p)), "eps-greedy-frequencies", f"{what}, branch {j}: {cnt} expected {(N * p).round(1)}")
    same = int((out == best).all(1).sum())
    ctx.check(binom_ok(same, N, 1 - eps + eps / n**nb), "branches-explore-together", f"{what}: {same} of {N} rows kept")
    ch = (out[:, 0] != best[0]).astype(float)
    q = eps * (1 - 1 / n)
    if 0 < q < 1:
        z = (ch - q) / np.sqrt(q * (1 - q))
        ctx.check(abs((z[1:] * z[:-1]).sum()) < 2 * Z * np.sqrt(N), "rows-not-independent", what)
    ctx.note("branch_rows", N)
    ctx.sig("bdq", eps, n, best)


def moments(ctx, z, what, kind="noise"):
    """z: (rows, dims) should be independent standard normals."""
    N = len(z)
    ctx.check(np.isfinite(z).all(), f"{kind}-not-finite", what)
    ctx.check(abs(z.mean(0)).max() < Z / np.sqrt(N), f"{kind}-mean", f"{what}: {z.mean(0)}")
    ctx.check(abs(z.var(0) - 1).max() < Z * np.sqrt(2 / N) + 0.01, f"{kind}-spread", f"{what}: {z.var(0)}")
    if N > 8:
        ctx.check(abs((z[1:] * z[:-1]).mean(0)).max() < Z / np.sqrt(N - 1), f"{kind}-rows-not-independent", what)
    for j in range(z.shape[1] - 1):
        ctx.check(abs((z[:, j] * z[:, j + 1]).mean()) < Z / np.sqrt(N), f"{kind}-dims-not-independent", what)


def s_noise(ctx, rng):
    name = NOISY[ctx.case % len(NOISY)]
    mode = ["gauss", "none", "fixed", "default"][int(rng.integers(4))]
    mu, sigma = float(rng.normal()), float(rng.choice([0.0, 0.1, 1.0]))
    over = {}
    exp = None
    if mode == "gauss":
        exp = GaussianNoise(mu, sigma)
    elif mode == "fixed":
        exp = Fixed(rng)
    late = bool(rng.random() < 0.4)
    if mode == "default":
        over = {"exploration_noise": "default"}
        if name == "td3bc":
            mode, exp = "gauss", GaussianNoise(mu, sigma)
            over = {"exploration_noise": exp}
        else:
            mu, sigma = 0.0, 0.1
    elif not late:
        over = {"exploration_noise": exp}
    pol = zoo.build(name, rng, drop=0.0, **over).policy
    if late and mode != "default" and "exploration_noise" not in over:
        pol.set_exp_noise(exp)
    d = int(rng.integers(1, 4))
    what = f"{name}, {mode} mu {mu:.2f} sigma {sigma}"
    zs = []
    for B in ([1, 3, 2, 700] if rng.random() < 0.7 else [2] * 200):
        act = rng.normal(size=(B, d))
        keep = act.copy()
        got = pol.exploration_noise(act, Batch(obs=np.zeros((B, 3)), info=Batch()))
        ctx.check(np.asarray(got).shape == keep.shape, "noised-type", what)
        if mode == "none":
            ctx.equal(got, keep, "noise-without-noise", what)
        elif mode == "fixed":
            ctx.equal(exp.asked[-1], (B, d), "noise-size", what)
            ctx.close(got, keep + exp.given[-1], "noise-added", what, atol=1e-12)
        elif sigma == 0:
            ctx.close(got, keep + mu, "noise-added", what, atol=1e-9)
        else:
            zs.append((got - keep - mu) / sigma)
        ctx.note("noise_rows", B)
    if mode == "fixed":
        ctx.equal(len(exp.asked), len(exp.given), "noise-calls", what)
    if zs:
        moments(ctx, np.concatenate(zs), what)
    t = torch.zeros(2, d)
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = pol.exploration_noise(t, Batch(obs=np.zeros((2, 3)), info=Batch()))
    ctx.check(mode == "none" or isinstance(got, torch.Tensor) and bool((got == 0).all()), "tensor-action", what)
    ctx.sig(name, mode, mu, sigma, d)


def s_process(ctx, rng):
    """Noise processes themselves: innovations of the Ornstein-Uhlenbeck recursion are standard normal."""
    if rng.random() < 0.25:
        ctx.raises(lambda: GaussianNoise(sigma=-0.1), AssertionError, "negative-sigma", "")
        g = GaussianNoise(2.0, 0.5)
        z = (np.stack([g((3,)) for _ in range(300)]) - 2.0) / 0.5
        g.reset()
        moments(ctx, np.concatenate([z, (g((300, 3)) - 2.0) / 0.5]), "Gaussian noise", "process")
        ctx.note("noise_rows", 600)
        return
    mu, sigma, theta, dt = float(rng.normal()), float(rng.choice([0.1, 0.3, 2.0])), float(rng.choice([0.15, 1.0, 5.0])), float(rng.choice([1e-2, 0.1]))
    shape = [(1,), (3,), (2, 2)][int(rng.integers(3))]
    x0 = [None, float(rng.normal() * 3), rng.normal(size=shape) * 3][int(rng.integers(3))]
    keep = deepcopy(x0)
    p = OUNoise(mu, sigma, theta, dt, x0) if rng.random() < 0.5 else OUNoise(mu=mu, sigma=sigma, theta=theta, dt=dt, x0=x0)
    size = list(shape) if rng.random() < 0.3 else shape
    start = np.zeros(shape) if x0 is None else np.broadcast_to(np.asarray(x0, float), shape).copy()
    prev, zs = start, []
    for t in range(300):
        if rng.random() < 0.05:
            p.reset()
            prev = start
            ctx.note("ou_resets")
        over = float(rng.normal()) * float(rng.integers(0, 2)) if rng.random() < 0.2 else None  # often exactly zero
        x = p(size) if over is None else p(size, over)
        m = mu if over is None else over
        ctx.check(np.shape(x) == shape, "noise-size", f"{np.shape(x)} for {size}")
        zs.append((x - prev - theta * dt * (m - prev)) / (sigma * np.sqrt(dt)))
        prev = x.copy()
        if rng.random() < 0.2:
            _ = x + 1.0
        ctx.note("ou_steps")
    ctx.equal(p._x0 if hasattr(p, "_x0") else keep, keep, "initial-value-modified", "")
    moments(ctx, np.stack(zs).reshape(300, -1), f"OU mu {mu:.2f} sigma {sigma} theta {theta} dt {dt} x0 {x0} size {size!r}", "process")
    ctx.sig("ou", mu, sigma, theta, dt, shape)


def s_random_agent(ctx, rng):
    n = int(rng.integers(1, 7))
    pol = MARLRandomPolicy(action_space=gym.spaces.Discrete(n))
    masks, _, rows = groups(rng, n, True, int(rng.integers(1, 4)), 900)
    b = Batch(obs=Batch(obs=np.zeros((len(rows), 2)), mask=masks[rows], agent_id=np.array(["a"] * len(rows))), info=Batch())
    keep = deepcopy(b)
    out = np.asarray(pol(b).act)
    ctx.equal(b, keep, "input-modified", "random agent")
    for g, m in enumerate(masks):
        sel = rows == g
        cnt = np.bincount(out[sel], minlength=n)
        k, N = int(m.sum()), int(sel.sum())
        ctx.check(len(cnt) == n and all(binom_ok(c, N, q) for c, q in zip(cnt, m / k)), "random-agent-frequencies", f"allowed {m}: {cnt} of {N}")
        ctx.note("masked_groups", k < n)
    ctx.note("random_agent_rows", len(rows))
    ctx.sig("random-agent", masks)


def s_identity(ctx, rng):
    """Every other policy leaves actions alone; all noised discrete actions stay legal."""
    name = zoo.ALL[ctx.case % len(zoo.ALL)]
    ctx.note("policies", ctx.case < len(zoo.ALL))
    it = zoo.build(name, rng, drop=0.0)
    pol = it.policy
    pol.eval()
    b = zoo.obs_batch(it.spec, rng)
    with torch.no_grad():
        out = pol(b)
    act = np.array(out.act.numpy() if isinstance(out.act, torch.Tensor) else out.act)
    keep = act.copy()
    if hasattr(pol, "set_eps") and name != "icm_ppo":
        pol.set_eps(0.7)
    got = np.asarray(pol.exploration_noise(act, b))
    ctx.equal(got.shape, keep.shape, "noised-type", name)
    if name in GREEDY:
        for i, a in enumerate(got):
            ctx.check(0 <= a < it.spec.n and (not it.spec.masked or b.obs.mask[i, int(a)]), "illegal-exploration", f"{name}: {a}")
    elif name == "bdq":
        ctx.check((got >= 0).all() and (got < it.spec.n).all(), "illegal-exploration", name)
    elif name not in (*NOISY, "sac_auto"):
        ctx.equal(got, keep, "unexpected-noise", name)
    if name == "icm_ppo":
        ctx.raises(lambda: pol.set_eps(0.1), NotImplementedError, "set-eps-without-eps", "")


class Echo(gym.Env):
    def __init__(self, i, sp, masked):
        self.action_space, self.i, self.t, self.got, self.masked = sp, i, 0, [], masked
        self.observation_space = gym.spaces.Box(-9, 9, (3,))

    def ob(self):
        o = np.random.default_rng([self.i, self.t]).normal(size=3)
        if not self.masked:
            return o
        m = np.random.default_rng([self.i, self.t, 1]).random(self.action_space.n) < 0.6
        m[self.t % self.action_space.n] = True
        return {"obs": o, "mask": m}

    def reset(self, *, seed=None, options=None):
        self.t += 1
        return self.ob(), {}

    def step(self, a):
        self.got.append(np.array(a, copy=True))
        self.t += 1
        return self.ob(), 0.0, self.t % 7 == 0, False, {}


def s_collect(ctx, rng):
    """Collectors apply exploration noise exactly when asked to, before mapping, and store the noised action."""
    box = bool(rng.random() < 0.5)
    name = str(rng.choice(["ddpg", "td3"] if box else ["dqn", "dqn_plain", "qrdqn"]))
    it = zoo.build(name, rng, drop=0.0)
    pol = it.policy
    masked = it.spec.masked
    sp = pol.action_space
    eps = float(rng.choice([0.0, 0.6, 1.0]))
    fixed = Fixed(rng)
    if box:
        pol.set_exp_noise(fixed)
    else:
        pol.set_eps(eps)
    k = int(rng.integers(1, 4))
    envs = [Echo(i, sp, masked) for i in range(k)]
    explore = bool(rng.random() < 0.6)
    rnd = bool(rng.random() < 0.2)
    asyn = bool(rng.random() < 0.3)
    buf = VectorReplayBuffer(400 * k, k)
    cls = AsyncCollector if asyn else Collector
    venv = DummyVectorEnv([lambda e=e: e for e in envs], **({"wait_num": max(1, k - 1), "timeout": None} if asyn and k > 1 else {}))
    if asyn and k == 1:
        cls = Collector
    col = cls(pol, venv, buf, exploration_noise=explore)
    calls, fw = [], []
    orig, orig_f = pol.exploration_noise, pol.forward

    def spy(act, batch):
        k0 = np.array(act, copy=True)
        r = orig(act, batch)
        calls.append((k0, np.array(r, copy=True), deepcopy(batch)))
        return r

    def spy_f(batch, *a, **kw):
        o = orig_f(batch, *a, **kw)
        fw.append(np.array(o.act.detach().numpy() if isinstance(o.act, torch.Tensor) else o.act, copy=True))
        return o

    pol.exploration_noise, pol.forward = spy, spy_f
    col.reset()
    col.collect(n_step=40 * k, random=rnd)
    stored, got = [], []
    for i, e in enumerate(envs):
        nst = len(buf.buffers[i])
        stored.append(np.asarray(buf.buffers[i].act[:nst]))
        got.append(np.stack(e.got[:nst]))
    s, g = np.concatenate(stored), np.concatenate(got)
    what = f"{name}, {cls.__name__}, exploration {explore}, random {rnd}"
    ctx.close(pol.map_action(s.copy()), g, "stored-vs-delivered", what, rtol=1e-4, atol=1e-4)
    ctx.note("collected", len(s))
    if rnd or not explore:
        ctx.check(not calls, "noise-not-asked-for", what)
        ctx.note("unnoised_steps", len(s))
    else:
        ctx.equal(len(calls), len(fw), "noise-per-step", what)
        for (a, _, b), f in zip(calls, fw):
            ctx.close(a, f, "noise-on-other-actions", what)
            ctx.equal(len(b.obs), len(f), "noise-rows", what)
        ctx.note("noised_steps", len(s))
        pool = sorted(map(lambda r: np.asarray(r, float).round(9).tolist(), np.concatenate([c[1] for c in calls])))
        have = sorted(map(lambda r: np.asarray(r, float).round(9).tolist(), s))
        if not asyn:
            ctx.close(np.array(have, float), np.array(pool, float), "noised-actions-not-stored", what, atol=1e-6)
        if masked:
            for i, st in enumerate(stored):
                m = buf.buffers[i].obs.mask[: len(st)]
                ctx.check(m[np.arange(len(st)), st.astype(int)].all(), "illegal-exploration", what)
    if not rnd and not explore:
        pool = sorted(map(lambda r: np.asarray(r, float).round(9).tolist(), np.concatenate(fw)))
        have = sorted(map(lambda r: np.asarray(r, float).round(9).tolist(), s))
        if not asyn:
            ctx.close(np.array(have, float), np.array(pool, float), "actions-altered-without-noise", what, atol=1e-6)
    ctx.sig(what, eps, k, box)


SCENARIOS = [
    Scenario("eps", s_eps, 60, 900),
    Scenario("branch", s_branch, 12, 120),
    Scenario("noise", s_noise, 60, 900),
    Scenario("process", s_process, 40, 500),
    Scenario("random_agent", s_random_agent, 20, 300),
    Scenario("identity", s_identity, 108, 800),
    Scenario("collect", s_collect, 60, 800),
]
