"""Seeding a vector environment determines every environment's randomness, on every backend."""
import gymnasium as gym
import numpy as np
from tianshou.env import DummyVectorEnv, ShmemVectorEnv, SubprocVectorEnv, VectorEnvNormObs, VectorEnvWrapper
from vlib.core import Scenario

RULE = (
    "stochastic environments seeded in every supported way, then run on random actions and subsets; observations, rewards "
    "and action-space samples are compared with environments seeded directly with the seed each must receive, and between "
    "backends; distinct = (backend, seeding, op sequence)"
)
MIN = {"seedings": 350, "reset_seedings": 250, "rand_steps": 3000, "space_samples": 1500, "proc_cases": 60}


class RandEnv(gym.Env):
    def __init__(self, kind):
        self.observation_space = gym.spaces.Box(-100, 100, (3,), np.float64)
        self.action_space = {"disc": gym.spaces.Discrete(50), "box": gym.spaces.Box(-1, 1, (2,)), "multi": gym.spaces.MultiDiscrete([9, 8, 7])}[kind]
        self.seeds = []

    def reset(self, *, seed=None, options=None):
        super().reset(seed=seed)
        self.seeds.append(seed)
        return self.np_random.normal(size=3), {}

    def step(self, a):
        return self.np_random.normal(size=3) + float(np.sum(a)), float(self.np_random.random()), bool(self.np_random.random() < 0.1), False, {}


def some_seed(rng):
    return int(rng.integers(0, 10**6)) if rng.random() < 0.7 else int(rng.integers(0, 2))


def s_seed(ctx, rng):
    pick = lambda xs: xs[int(rng.integers(len(xs)))]
    backend = pick(["dummy", "dummy", "dummy", "subproc", "shmem"])
    n = int(rng.integers(1, 5)) if backend != "dummy" or rng.random() < 0.7 else int(rng.integers(5, 70))
    kind = pick(["disc", "box", "multi"])
    fns = [lambda: RandEnv(kind) for _ in range(n)]
    venv = {"dummy": DummyVectorEnv, "subproc": SubprocVectorEnv, "shmem": ShmemVectorEnv}[backend](fns)
    direct = [f() for f in fns]
    env = pick([venv, venv, VectorEnvWrapper(venv)])
    ctx.note("proc_cases", backend != "dummy")
    ops = []
    try:
        for _ in range(int(rng.integers(1, 4))):
            how = pick(["int", "list", "reset", "npseed", "reset_some"])
            if how in ("int", "npseed"):
                s = some_seed(rng)
                seeds = [s + i for i in range(n)]
                ret = env.seed(s)
            elif how == "list":
                seeds = [some_seed(rng) for _ in range(n)]
                ret = env.seed(list(seeds))
            else:
                seeds, ret = None, None
            if ret is not None:
                ctx.equal(len(ret), n, "seed-result", "")
                for i, d in enumerate(direct):
                    d.action_space.seed(seeds[i])
                    d.reset(seed=seeds[i])
                ctx.note("seedings")
                if rng.random() < 0.6:
                    got = env.reset()[0]
                    ctx.close(got, np.stack([d.reset()[0] for d in direct]), "seeded-reset", how, rtol=1e-12, atol=1e-12)
            else:
                s = some_seed(rng)
                ids = list(range(n)) if how == "reset" else [int(i) for i in rng.permutation(n)[: int(rng.integers(1, n + 1))]]
                if how == "reset_some" and not ops:  # the others need a known state
                    env.seed(5)
                    for i, d in enumerate(direct):
                        d.action_space.seed(5 + i)
                        d.reset(seed=5 + i)
                got = env.reset(None if how == "reset" else ids, seed=s)[0]
                for i in ids:
                    direct[i].action_space.seed(s)
                ctx.close(got, np.stack([direct[i].reset(seed=s)[0] for i in ids]), "seeded-reset", how, rtol=1e-12, atol=1e-12)
                ctx.note("reset_seedings")
            ops.append((how, s if how != "list" else tuple(seeds)))
            ctx.trace.append(ops[-1])
            # the action spaces of the workers follow the seed
            for i in range(n):
                a = [venv.workers[i].action_space.sample() for _ in range(2)]
                b = [direct[i].action_space.sample() for _ in range(2)]
                ctx.check(np.array_equal(np.array(a), np.array(b)), "action-space-seed", lambda: f"{how}: env {i} samples {a}, expected {b}")
                ctx.note("space_samples")
            if how in ("int", "list", "npseed"):
                for i, sp in enumerate(env.action_space):
                    if backend == "dummy":  # the space sampled from above itself
                        continue
                    ref = RandEnv(kind).action_space
                    ref.seed(seeds[i])
                    a, b = sp.sample(), ref.sample()
                    ctx.check(np.array_equal(a, b), "environment-space-seed", lambda: f"{how}: env {i} samples {a}, expected {b}")
            for _ in range(int(rng.integers(1, 8))):
                ids = [int(i) for i in rng.permutation(n)[: int(rng.integers(1, n + 1))]]
                act = np.array([rng.integers(0, 5, size=direct[0].action_space.shape or ()) for _ in ids]).astype(direct[0].action_space.dtype)
                got = env.step(act, ids)
                for k, i in enumerate(ids):
                    w = direct[i].step(act[k])
                    ctx.close(got[0][k], w[0], "seeded-observation", f"env {i}", rtol=1e-12, atol=1e-12)
                    ctx.equal([float(got[1][k]), bool(got[2][k])], [w[1], w[2]], "seeded-result", f"env {i}")
                    ctx.note("rand_steps")
    finally:
        env.close()
    ctx.sig(backend, n, kind, tuple(ops))
    ctx.sample({"backend": backend, "envs": n, "ops": [str(o) for o in ops]})


SCENARIOS = [Scenario("seed", s_seed, 600, 8000)]
