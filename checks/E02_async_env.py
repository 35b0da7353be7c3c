"""Asynchronous stepping: each action sent yields exactly one result, its own, however the environments finish."""
import copy

import numpy as np
from checks.C03_async_collect import Sched, ScriptWorker
from tianshou.env import BaseVectorEnv, DummyVectorEnv, RayVectorEnv, ShmemVectorEnv, SubprocVectorEnv, VectorEnvWrapper
from vlib import envs as E
from vlib.core import Scenario, diff

RULE = (
    "random sequences of sends to idle environments, fetches, resets and forbidden calls on asynchronous vector envs whose "
    "completion order is scripted or arises from real processes with delays; a directly driven twin of each environment "
    "supplies the expected result of every step; distinct = (backend, waiting rule, op and completion sequence)"
)
MIN = {"sends": 5000, "results": 5000, "out_of_order": 700, "fetch_only": 200, "refused": 200, "resets": 400, "proc_results": 300, "timeouts": 100, "below_wait_num": 300}


def s_async(ctx, rng, backend=None):
    pick = lambda xs: xs[int(rng.integers(len(xs)))]
    backend = backend or pick(["script"] * 12 + ["dummy", "subproc", "shmem"])
    n = int(rng.integers(1, 7 if backend == "script" else 5))
    wait_num = int(rng.integers(1, n + 1)) if rng.random() < 0.9 else None
    timeout = pick([0.003, 0.02]) if rng.random() < 0.3 or wait_num in (n, None) else None
    if backend == "ray":  # few executions: let the number of awaited results matter
        n = int(rng.integers(3, 5))
        wait_num, timeout = int(rng.integers(2, n)), pick([None, None, 0.02])
    delay = 0.0 if backend in ("script", "dummy") else pick([0.001, 0.004, 0.01])
    obs = pick(["vec", "img", "dict", "int"])
    a = [int(rng.integers(2**31)), obs, pick(["disc", "box"]), int(rng.integers(1, 7)), 0.4, pick(["plain", "none", "nested"]), 0]
    direct = [E.TagEnv(i, *a) for i in range(n)]
    fns = [lambda i=i: E.TagEnv(i, *a, delay) for i in range(n)]
    if backend == "script":
        Sched.rng, Sched.trace, Sched.skew = rng, [], pick([0.0, 0.5, 0.9])
        raw = BaseVectorEnv(fns, ScriptWorker, wait_num, timeout)
    else:
        raw = {"dummy": DummyVectorEnv, "subproc": SubprocVectorEnv, "shmem": ShmemVectorEnv, "ray": RayVectorEnv}[backend](fns, wait_num=wait_num, timeout=timeout)
    venv = VectorEnvWrapper(raw) if rng.random() < 0.2 else raw
    ctx.check(venv.is_async, "async-mode", f"wait_num={wait_num} of {n}, timeout={timeout}")
    ctx.trace.append((backend, n, wait_num, timeout, a))
    w_eff = wait_num or n
    fly: dict[int, tuple] = {}  # env -> expected result of its step in flight
    order: list[int] = []  # in-flight envs in sending order
    live = [False] * n
    held, ops = [], []

    def reset(ids):
        got_o, got_i = venv.reset(pick([ids, np.array(ids)]) if len(ids) != n or rng.random() < 0.5 else None)
        for j, i in enumerate(ids if True else []):
            wo, wi = direct[i].reset()
            ctx.check(diff(got_o[j], wo) is None, "reset-obs", lambda: f"env {i}: {got_o[j]} vs {wo}")
            ctx.equal(got_i[j], wi, "reset-info", f"env {i}")
            live[i] = True
        held.append((got_o, copy.deepcopy(got_o)))
        ctx.note("resets")

    def receive(got):
        ctx.equal(len(got), 5, "result-arity", "")
        ids = [int(x["env_id"]) for x in got[4]]
        ctx.check(len(set(ids)) == len(ids), "result-twice", str(ids))
        ctx.check(set(ids) <= set(fly), "result-without-step", lambda: f"{ids}, in flight {sorted(fly)}")
        need = 1 if timeout is not None else min(w_eff, len(fly))
        ctx.check(len(ids) >= need, "too-few-results", lambda: f"{len(ids)} of {len(fly)} in flight, wait_num={wait_num}, timeout={timeout}")
        ctx.note("below_wait_num", len(fly) < w_eff)
        ctx.note("timeouts", timeout is not None and len(ids) < min(w_eff, len(fly)))
        ctx.note("out_of_order", ids != order[: len(ids)])
        for x in got:
            ctx.equal(len(x), len(ids), "rows", "")
        for j, i in enumerate(ids):
            w = fly.pop(i)
            order.remove(i)
            ctx.check(diff(got[0][j], w[0]) is None, "result-obs", lambda: f"env {i}: {got[0][j]} vs {w[0]}")
            ctx.equal([float(got[1][j]), bool(got[2][j]), bool(got[3][j])], [float(w[1]), bool(w[2]), bool(w[3])], "result", f"env {i}")
            ctx.equal({**got[4][j], "env_id": i}, dict(w[4], env_id=i), "result-info", f"env {i}")
            live[i] = not (w[2] or w[3])
            ctx.note("results")
            ctx.note("proc_results", backend in ("subproc", "shmem", "ray"))
        held.append((got, copy.deepcopy(got)))
        ops.append(("got", tuple(ids)))

    try:
        reset(list(range(n)))
        for _ in range(int(rng.integers(5, 30))):
            idle = [i for i in range(n) if i not in fly]
            ctx.equal(sorted(raw.ready_id), idle, "ready-set", "")
            ctx.equal(sorted(raw.waiting_id), sorted(fly), "waiting-set", "")
            r = rng.random()
            dead = [i for i in idle if not live[i]]
            if dead:
                ops.append(("reset", tuple(dead)))
                ctx.trace.append(ops[-1])
                reset(dead)
            if r < 0.2 and fly:
                bad = pick(sorted(fly))
                ids = [bad] + ([pick(idle)] if idle and rng.random() < 0.5 else [])
                rng.shuffle(ids)
                what = pick(["step", "reset", "attr", "render", "setattr"])
                ctx.trace.append(("refuse", what, tuple(ids)))
                fn, exc = {
                    "step": (lambda: venv.step(np.array([direct[i].action_space.sample() for i in ids]), ids), AssertionError),
                    "reset": (lambda: venv.reset(ids), AssertionError),
                    "attr": (lambda: venv.get_env_attr("eid", ids), AssertionError),
                    "setattr": (lambda: venv.set_env_attr("eid", 7, ids), AssertionError),
                    "render": (lambda: venv.render(), RuntimeError),
                }[what]
                ctx.raises(fn, exc, "busy-env-accepted", what)
                ctx.note("refused")
            elif r < 0.4 and fly:
                ops.append(("fetch",))
                ctx.trace.append(ops[-1])
                ctx.note("fetch_only")
                receive(venv.step(None))
            elif idle:
                ids = [int(i) for i in rng.permutation(idle)[: int(rng.integers(1, len(idle) + 1))]]
                acts = np.array([direct[i].action_space.sample() for i in ids])
                for j, i in enumerate(ids):
                    fly[i] = direct[i].step(acts[j])
                    order.append(i)
                ops.append(("send", tuple(ids)))
                ctx.trace.append(ops[-1])
                ctx.note("sends", len(ids))
                receive(venv.step(acts, pick([ids, np.array(ids)])))
        while fly:
            receive(venv.step(None))
        logs = [list(x) for x in venv.get_env_attr("log")]
        for i in range(n):
            d = diff([list(x) for x in logs[i]], [list(x) for x in direct[i].log])
            ctx.check(d is None, "env-calls", lambda: f"env {i}: {d}")
        for got, was in held:
            ctx.check(diff(list(got) if isinstance(got, tuple) else got, list(was) if isinstance(was, tuple) else was) is None, "earlier-result-changed", "")
    finally:
        venv.close()
    ctx.sig(backend, n, wait_num, timeout, a[1:], tuple(ops))
    ctx.sample({"backend": backend, "envs": n, "wait_num": wait_num, "timeout": timeout, "ops": [str(o) for o in ops[:15]]})


def s_ray(ctx, rng):
    try:
        import ray

        if not ray.is_initialized():
            ray.init(num_cpus=2, include_dashboard=False, log_to_driver=False, logging_level="error", object_store_memory=100 * 2**20)
    except Exception:
        ctx.note("ray_unavailable")
        return
    s_async(ctx, rng, backend="ray")


SCENARIOS = [Scenario("async", s_async, 500, 6000), Scenario("ray", s_ray, 2, 6, timeout=600, solo=True)]
