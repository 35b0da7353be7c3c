"""Every vector-environment backend behaves like its environments driven directly, one by one."""
import copy
import warnings

import gymnasium as gym
import numpy as np
import torch
from tianshou.data import Batch
from tianshou.env import DummyVectorEnv, RayVectorEnv, ShmemVectorEnv, SubprocVectorEnv, VectorEnvWrapper
from vlib import envs as E
from vlib.core import Scenario, diff

RULE = (
    "random sequences of reset/step/seed/attribute/render calls on random subsets and orders of environments, on every "
    "backend; each result and the environments' own logs are compared with identical environments driven directly; "
    "earlier results must not change later; distinct = (backend, layout, op sequence)"
)
MIN = {"ops": 8000, "steps": 5000, "resets": 1500, "subset_ops": 1000, "unordered_ids": 500, "attr_ops": 500, "proc_steps": 1500, "shmem_steps": 700, "held_results": 3000, "dict_obs": 500, "wrapped": 60, "worker_calls": 500}
OBS = ["vec", "vec64", "int", "img", "discrete", "multidisc", "multibin", "dict", "ragged", "pybool"]


class XEnv(E.TagEnv):
    """TagEnv plus layouts and reset arguments the tag environment of the collector checks does not need."""

    def __init__(self, eid, seed, obs, act, max_len, p_trunc, info, rew_dim, n_act):
        self.xkind = obs
        super().__init__(eid, seed, "vec" if obs in ("ragged", "pybool") else obs, act, max_len, p_trunc, info, rew_dim, n_act=n_act)
        self.knob = eid * 10
        self.mutable = [eid]
        if obs == "pybool":
            self.observation_space = gym.spaces.Box(-1e9, 1e9, (4,), np.float64)

    @property
    def seen_knob(self):
        return self.knob

    def make_obs(self):
        o = super().make_obs()
        if self.xkind == "ragged":  # lengths differ between environments
            return np.concatenate([o, np.zeros(self.eid, np.float32)])
        if self.xkind == "pybool":  # float64 space, float32 data
            return o.astype(np.float32)
        return o

    def step(self, act):
        a = list(super().step(act))
        if self.rew_dim == 0 and self.eid % 2:
            a[1] = float(a[1])
        return tuple(a)


class Wrap(gym.Wrapper):
    """A gymnasium wrapper in between: attributes live on the innermost environment."""


def same_obs(kind, got_row, want):
    if kind == "dict":
        return diff(dict(got_row) if not isinstance(got_row, dict) else got_row, want)
    return diff(np.asarray(got_row), np.asarray(want))


def s_ops(ctx, rng, backend=None):
    pick = lambda xs: xs[int(rng.integers(len(xs)))]
    backend = backend or pick(["dummy"] * 4 + ["subproc", "shmem", "subshm"])
    n = int(rng.integers(1, 6 if backend in ("dummy",) else 4))
    obs = pick(OBS if backend not in ("shmem", "subshm") else [o for o in OBS if o != "ragged"])
    if obs == "ragged" and n == 1:
        n = 2
    a = (int(rng.integers(2**31)), obs, pick(["disc", "box", "multi"]), int(rng.integers(1, 9)), pick([0.0, 0.5, 1.0]), pick(["plain", "nested", "none", "stepwise"]), pick([0, 0, 0, 2]), int(rng.integers(2, 7)))
    inner = bool(rng.random() < 0.4)
    mk = lambda i: (lambda: Wrap(XEnv(i, *a)) if inner else XEnv(i, *a))
    direct = [mk(i)() for i in range(n)]
    cls = {"dummy": DummyVectorEnv, "subproc": SubprocVectorEnv, "shmem": ShmemVectorEnv, "ray": RayVectorEnv,
           "subshm": lambda f: SubprocVectorEnv(f, share_memory=True), "spawn": lambda f: SubprocVectorEnv(f, context="spawn")}[backend]
    fns = [mk(i) for i in range(n)]
    raw = venv = cls(fns)
    wrapped = bool(rng.random() < 0.25)
    if wrapped:
        venv = VectorEnvWrapper(raw)
        ctx.note("wrapped")
    ctx.equal(len(venv), n, "length", "")
    ctx.equal([type(s).__name__ for s in venv.action_space], [type(d.action_space).__name__ for d in direct], "spaces", "action spaces")
    ctx.check(all(s == d.action_space for s, d in zip(venv.action_space, direct)), "spaces", "action space")
    ctx.check(all(s == d.observation_space for s, d in zip(venv.observation_space, direct)), "spaces", "observation space")
    ctx.trace.append((backend, n, a, inner, wrapped))
    held = []
    ops = []
    alive = [False] * n
    try:
        for _ in range(int(rng.integers(6, 30))):
            ctx.note("ops")
            r = rng.random()
            k = int(rng.integers(1, n + 1))
            ids = rng.permutation(n)[:k]
            form = pick(["all", "list", "array", "scalar", "npint"])
            if form == "all":
                arg, ids = None, np.arange(n)
            elif form == "list":
                arg = [int(i) for i in ids]
            elif form == "array":
                arg = ids.copy()
            else:
                ids = ids[:1]
                arg = int(ids[0]) if form == "scalar" else ids[0]
            if rng.random() < 0.1:  # a single worker used by itself
                w, d = raw.workers[int(ids[0])], direct[int(ids[0])]
                ctx.note("worker_calls")
                if rng.random() < 0.5 or not alive[ids[0]]:
                    kw = pick([{}, {"seed": int(rng.integers(pick([1, 1000])))}])
                    got, want = w.reset(**kw), d.reset(**kw)
                    if kw:  # the action space of a worker is seeded along with it
                        d.action_space.seed(kw["seed"])
                        ctx.equal(np.asarray(copy.deepcopy(w.action_space).sample()), np.asarray(copy.deepcopy(d.action_space).sample()), "worker-action-seed", "")
                    alive[ids[0]] = True
                else:
                    act = d.action_space.sample()
                    got, want = w.step(copy.deepcopy(act)), d.step(act)
                    alive[ids[0]] = not (want[2] or want[3])
                ops.append(("worker", int(ids[0]), len(want)))
                ctx.trace.append(ops[-1])
                ctx.equal(len(got), len(want), "worker-result", str(ops[-1]))
                bad = same_obs(obs, got[0], want[0])
                ctx.check(bad is None, "worker-result", lambda: f"{ops[-1]}: {bad}")
                for g, x in zip(got[1:], want[1:]):
                    ctx.check(diff(g, x) is None, "worker-result", lambda: f"{ops[-1]}: {g} instead of {x}")
                held.append((got[0], None, (copy.deepcopy(got[0]), None)))
                continue
            ctx.note("subset_ops", len(ids) < n)
            ctx.note("unordered_ids", list(ids) != sorted(ids))
            if r < 0.2 or (r < 0.8 and not all(alive[i] for i in ids)):
                kw = pick([{}, {}, {"seed": int(rng.integers(pick([1, 1000])))}, {"options": {"a": int(rng.integers(9))}}])
                got_o, got_i = venv.reset(arg, **kw)
                ops.append(("reset", ids.tolist(), form, kw))
                ctx.trace.append(ops[-1])
                want = [direct[i].reset(**kw) for i in ids]
                check_rows(ctx, obs, got_o, [w[0] for w in want], "reset")
                ctx.equal(len(got_i), len(ids), "reset-info", "number of infos")
                for g, w in zip(got_i, want):
                    ctx.equal(g, w[1], "reset-info", str(ops[-1]))
                for i in ids:
                    alive[i] = True
                held.append((got_o, got_i, copy.deepcopy((got_o, got_i))))
                ctx.note("resets")
            elif r < 0.8:
                acts = [direct[i].action_space.sample() for i in ids]
                af = pick(["array", "list", "tensor"]) if backend in ("dummy",) else pick(["array", "list"])
                av = np.array(acts) if af == "array" else list(acts) if af == "list" else torch.as_tensor(np.array(acts))
                snap = copy.deepcopy(av)
                got = venv.step(av, arg)
                ops.append(("step", ids.tolist(), form))
                ctx.trace.append(ops[-1])
                ctx.equal(len(got), 5, "step-shape", "number of results")
                ctx.check(diff(np.asarray(av), np.asarray(snap)) is None, "action-modified", "")
                want = [direct[i].step(np.array(acts)[j] if af != "list" else acts[j]) for j, i in enumerate(ids)]
                check_rows(ctx, obs, got[0], [w[0] for w in want], "step")
                ctx.equal(np.asarray(got[1], float), np.array([w[1] for w in want], float), "reward", str(ops[-1]))
                ctx.equal(np.asarray(got[2]), np.array([w[2] for w in want]), "terminated", str(ops[-1]))
                ctx.equal(np.asarray(got[3]), np.array([w[3] for w in want]), "truncated", str(ops[-1]))
                ctx.equal(len(got[4]), len(ids), "info", "number of infos")
                for j, i in enumerate(ids):
                    w = dict(want[j][4], env_id=int(i))
                    g = {**got[4][j], "env_id": int(got[4][j]["env_id"])}
                    ctx.equal(g, w, "info", str(ops[-1]))
                    alive[i] = not (want[j][2] or want[j][3])
                ctx.note("steps", len(ids))
                ctx.note("proc_steps", len(ids) if backend != "dummy" else 0)
                ctx.note("shmem_steps", len(ids) if backend in ("shmem", "subshm") else 0)
                ctx.note("dict_obs", len(ids) if obs == "dict" else 0)
                held.append((got, None, copy.deepcopy((got, None))))
            elif r < 0.9:
                ctx.note("attr_ops")
                if rng.random() < 0.5:
                    v = pick([int(rng.integers(100)), "s", [1, {"q": 2}], np.arange(3)])
                    venv.set_env_attr("knob", v, arg)
                    ops.append(("set", ids.tolist()))
                    for i in ids:
                        direct[i].unwrapped.knob = v
                got = venv.get_env_attr("knob", arg)
                ctx.equal(len(got), len(ids), "attribute", "number of values")
                for g, i in zip(got, ids):
                    ctx.equal(g, direct[i].unwrapped.knob, "attribute", f"env {i} of {ids}")
                for g, i in zip(venv.get_env_attr("seen_knob", arg), ids):
                    ctx.equal(g, direct[i].unwrapped.knob, "attribute", f"env {i} of {ids}, as the environment's own code sees it")
                got = venv.get_env_attr("mutable", arg)
                ctx.equal([list(x) for x in got], [[int(i)] for i in ids], "attribute", "untouched attribute")
            elif r < 0.95:
                ctx.equal([tuple(x) for x in venv.render()], [d.render() for d in direct], "render", "")
                ops.append(("render",))
            else:
                s = pick([None, 0, int(rng.integers(1000)), [int(x) for x in rng.integers(1000, size=n)]])
                venv.seed(s)
                ops.append(("seed", s))
                for i, d in enumerate(direct):
                    d.reset(seed=None if s is None else s[i] if isinstance(s, list) else s + i)
                    alive[i] = True
        logs = [list(x) for x in venv.get_env_attr("log")]
        for i in range(n):
            ctx.equal(len(logs[i]), len(direct[i].unwrapped.log), "env-calls", f"env {i}")
            for g, w in zip(logs[i], direct[i].unwrapped.log):
                ctx.check(diff(list(g), list(w)) is None, "env-calls", lambda: f"env {i} received {g}, expected {w}")
                if g[0] == "step":
                    ctx.equal(np.asarray(g[2]).dtype.kind, np.asarray(w[2]).dtype.kind, "action-kind", f"env {i}")
        for o, i, (oc, ic) in held:
            ctx.check(diff(list(o) if isinstance(o, tuple) else o, list(oc) if isinstance(oc, tuple) else oc) is None, "earlier-result-changed", lambda: f"{o} was {oc}")
            ctx.check(i is None or diff(list(i), list(ic)) is None, "earlier-result-changed", "info")
            ctx.note("held_results")
    finally:
        venv.close()
    ctx.sig(backend, a[1:], wrapped, inner, tuple(map(str, ops)))
    ctx.sample({"backend": backend, "layout": list(a), "ops": [str(o) for o in ops[:12]]})


def check_rows(ctx, kind, got, want, what):
    ctx.check(isinstance(got, np.ndarray), "result-type", f"{what}: {type(got)}")
    ctx.equal(len(got), len(want), "rows", what)
    for j, w in enumerate(want):
        d = same_obs(kind, got[j], w)
        ctx.check(d is None, "observation", lambda: f"{what} row {j}: {d}; got {got[j]}")


def s_ray(ctx, rng):
    try:
        import ray

        if not ray.is_initialized():
            ray.init(num_cpus=2, include_dashboard=False, log_to_driver=False, logging_level="error", object_store_memory=100 * 2**20)
    except Exception:  # the cluster could not be started here: nothing to observe
        ctx.note("ray_unavailable")
        return
    s_ops(ctx, rng, backend="ray")


def s_spawn(ctx, rng):
    s_ops(ctx, rng, backend="spawn")


SCENARIOS = [Scenario("ops", s_ops, 700, 5000), Scenario("spawn", s_spawn, 1, 12, timeout=300), Scenario("ray", s_ray, 2, 6, timeout=600, solo=True)]
