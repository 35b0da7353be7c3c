"""Action-space and termination wrappers translate exactly."""
import itertools

import gymnasium as gym
import numpy as np
from tianshou.env import ContinuousToDiscrete, DummyVectorEnv, MultiDiscreteToDiscrete, TruncatedAsTerminated
from vlib.core import Scenario

RULE = (
    "random box, multi-discrete and time-limited environments behind the wrappers; the action and flags reaching the inner "
    "environment for every wrapped action are compared with the mathematical grid, numbering and flag rules; distinct = "
    "(space parameters, actions)"
)
MIN = {"grid_actions": 4000, "numbered_actions": 4000, "batch_actions": 300, "flag_steps": 1500, "truncations": 150, "venv_steps": 300}


class Sink(gym.Env):
    def __init__(self, space, plan=None):
        self.action_space, self.observation_space = space, gym.spaces.Box(-9, 9, (2,))
        self.got, self.plan, self.k = [], plan or [], 0

    def reset(self, *, seed=None, options=None):
        return np.zeros(2, np.float32), {"r": 1}

    def step(self, a):
        self.got.append(np.array(a, copy=True))
        t = self.plan[self.k % len(self.plan)] if self.plan else (False, False)
        self.k += 1
        return np.full(2, self.k, np.float32), self.k / 2, *t, {"k": self.k}


def s_grid(ctx, rng):
    d = int(rng.integers(1, 5))
    lo = rng.normal(size=d).astype(np.float32) * 3
    hi = (lo + rng.uniform(0.1, 5, size=d)).astype(np.float32)
    per = int(rng.integers(2, 7)) if rng.random() < 0.5 else [int(x) for x in rng.integers(1, 7, size=d)]
    n = [per] * d if isinstance(per, int) else per
    inner = Sink(gym.spaces.Box(lo, hi))
    env = ContinuousToDiscrete(inner, per)
    ctx.check(isinstance(env.action_space, gym.spaces.MultiDiscrete), "grid-space", "")
    ctx.equal([int(x) for x in env.action_space.nvec], n, "grid-space", "")
    val = lambda i, a: float(lo[i]) + (float(hi[i]) - float(lo[i])) * (a / (n[i] - 1) if n[i] > 1 else 0.0)
    env.reset()
    acts = list(itertools.product(*[range(x) for x in n]))
    rng.shuffle(acts)
    for a in acts[:40]:
        env.step(np.array(a))
        got = np.asarray(inner.got[-1], float)
        ctx.close(got, np.array([val(i, x) for i, x in enumerate(a)]), "grid-action", str(a), rtol=1e-5, atol=1e-5)
        ctx.note("grid_actions")
    b = np.array(acts[: int(rng.integers(1, 6))])
    ctx.close(np.asarray(env.action(b), float), np.array([[val(i, x) for i, x in enumerate(a)] for a in b]), "grid-action", "batch", rtol=1e-5, atol=1e-5)
    ctx.note("batch_actions")
    ctx.sig(d, tuple(n), round(float(lo[0]), 4))


def s_number(ctx, rng):
    n = [int(x) for x in rng.integers(1, 6, size=int(rng.integers(1, 5)))]
    inner = Sink(gym.spaces.MultiDiscrete(n))
    env = MultiDiscreteToDiscrete(inner)
    total = int(np.prod(n))
    ctx.check(isinstance(env.action_space, gym.spaces.Discrete), "number-space", "")
    ctx.equal(int(env.action_space.n), total, "number-space", str(n))
    want = list(itertools.product(*[range(x) for x in n]))  # most significant first
    order = rng.permutation(total)[:60]
    for k in order:
        env.step([int(k), np.int64(k)][int(rng.integers(2))])
        ctx.equal(np.asarray(inner.got[-1]).astype(int).tolist(), list(want[k]), "numbered-action", f"{k} of {n}")
        ctx.note("numbered_actions")
    keep = order.copy()
    ctx.equal(np.asarray(env.action(order)).astype(int), np.array([want[k] for k in keep]), "numbered-action", "batch")
    ctx.equal(order, keep, "action-modified", "")
    ctx.note("batch_actions")
    ctx.sig(tuple(n), tuple(order[:6]))


def s_both(ctx, rng):
    """Continuous -> multi-discrete -> discrete behind a vector environment."""
    d = int(rng.integers(1, 4))
    per = [int(x) for x in rng.integers(2, 5, size=d)]
    env = DummyVectorEnv([lambda: MultiDiscreteToDiscrete(ContinuousToDiscrete(Sink(gym.spaces.Box(-1, 1, (d,))), per)) for _ in range(2)])
    env.reset()
    want = list(itertools.product(*[np.linspace(-1, 1, p) for p in per]))
    for _ in range(6):
        a = rng.integers(len(want), size=2)
        env.step(a)
        for i in range(2):
            ctx.close(np.asarray(env.workers[i].env.unwrapped.got[-1], float), np.array(want[a[i]]), "chained-action", str(per), rtol=1e-5, atol=1e-6)
            ctx.note("venv_steps")
    ctx.sig(tuple(per), d)


def s_flags(ctx, rng):
    plan = [(bool(rng.random() < 0.3), bool(rng.random() < 0.3)) for _ in range(int(rng.integers(1, 9)))]
    env = TruncatedAsTerminated(Sink(gym.spaces.Discrete(3), plan))
    ctx.equal(env.reset()[1], {"r": 1}, "reset-passed", "")
    for k in range(12):
        o, r, te, tr, info = env.step(k % 3)
        wt, wr = plan[k % len(plan)]
        ctx.equal([bool(te), bool(tr)], [wt or wr, wr], "flags", f"inner flags {(wt, wr)}")
        ctx.equal([o.tolist(), r, info], [[k + 1.0] * 2, (k + 1) / 2, {"k": k + 1}], "passed-through", "")
        ctx.note("flag_steps")
        ctx.note("truncations", wr)
    lim = int(rng.integers(1, 6))
    env = TruncatedAsTerminated(gym.wrappers.TimeLimit(Sink(gym.spaces.Discrete(3)), lim))
    env.reset()
    for k in range(1, lim + 1):
        o, r, te, tr, info = env.step(0)
        ctx.equal([bool(te), bool(tr)], [k == lim] * 2, "time-limit", f"step {k} of {lim}")
    ctx.sig(tuple(plan), lim)


SCENARIOS = [Scenario("grid", s_grid, 300, 5000), Scenario("number", s_number, 300, 5000), Scenario("both", s_both, 60, 500), Scenario("flags", s_flags, 160, 2000)]
