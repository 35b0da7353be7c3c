"""Asynchronous collection: every step handed back is recorded once, paired with the action that caused it."""
import time
import warnings

import numpy as np
from checks.C01_exactly_once import Rig
from tianshou.data import AsyncCollector
from tianshou.env import BaseVectorEnv, ShmemVectorEnv, SubprocVectorEnv, VectorEnvNormObs
from tianshou.env.worker import DummyEnvWorker
from vlib import envs as E
from vlib.bufmodel import batch_tree
from vlib.core import Scenario

RULE = (
    "AsyncCollector on vector envs whose completion order is chosen by the monitor (any subset of at least wait_num, in "
    "any order) or arises from real worker processes with delays; the environments' logs are the oracle for what must be "
    "recorded; distinct = (completion schedule, wait_num, policy kind, op sequence)"
)
MIN = {"steps": 6000, "out_of_order": 1500, "inflight_at_end": 300, "resets_inflight": 40, "proc_cases": 8, "states": 1500, "busy_sets": 2000, "schedules": 150}


class Sched:
    rng = None
    trace: list = []
    skew = 0.0


class ScriptWorker(DummyEnvWorker):
    """Steps at once, but reports completion when and in the order the schedule says."""

    @staticmethod
    def wait(workers, wait_num, timeout=None):
        n = len(workers)
        if n == 0:
            return []
        lo = min(wait_num, n)
        if timeout is not None and Sched.rng.random() < 0.3:
            lo = 0
        k = int(Sched.rng.integers(lo, n + 1))
        if Sched.skew and Sched.rng.random() < Sched.skew:
            k = lo
        p = [int(x) for x in Sched.rng.permutation(n)[:k]]
        Sched.trace.append(tuple(p))
        return [workers[i] for i in p]


def check(ctx, rig, st, before, after, kw, acc):
    logs = rig.steps()
    n = rig.n
    total = sum(after) - sum(before)
    eps = []
    for i in range(n):
        for s in logs[i][before[i]:after[i]]:
            acc[i][0] += s[3]
            acc[i][1] += 1
            if s[4] or s[5]:
                eps.append((acc[i][1], acc[i][0]))
                acc[i][:] = [0.0, 0]
    ctx.equal(int(st.n_collected_steps), total, "steps-reported", str(kw))
    ctx.equal(int(st.n_collected_episodes), len(eps), "episodes-reported", str(kw))
    got = sorted(zip([int(x) for x in st.lens], [float(x) for x in st.returns]))
    ctx.close(np.array(got, float).reshape(-1, 2), np.array(sorted(eps), float).reshape(-1, 2), "episode-stats", str(kw), rtol=1e-9, atol=1e-9)
    if "n_step" in kw:
        ctx.check(total >= kw["n_step"], "too-few-steps", str(kw))
        ctx.check(total < kw["n_step"] + n, "too-many-steps", lambda: f"{kw}: {total}")
    else:
        ctx.check(kw["n_episode"] <= len(eps) < kw["n_episode"] + n, "episode-amount", lambda: f"{kw}: {len(eps)}")
    return total, len(eps)


def check_state(ctx, rig):
    for call in rig.pol.calls:
        e, ep, t, a = call["codes"].T
        if call["busy"] is not None:
            # every environment is either computing a step or given its next action
            ctx.equal(sorted([*call["busy"], *e.tolist()]), list(range(rig.n)), "environment-left-out", lambda: f"in flight {call['busy']}, given actions {e.tolist()}")
            ctx.note("busy_sets")
        if rig.state:
            want = np.stack([np.where(t > 0, e + 1, 0), t], 1)
            ctx.equal(call["hid"], want, "state-handed-over", lambda: f"{rig.state}: environments {e.tolist()} at steps {t.tolist()}")
            ctx.note("states", len(e))
    rig.pol.calls.clear()


def run(ctx, rng, rig, n_ops, rnd=True):
    c = rig.col
    rig.pol.busy = lambda: [int(i) for i in rig.env.waiting_id]
    c.reset()
    rig.mark_buffer_reset()
    acc = [[0.0, 0] for _ in range(rig.n)]
    tot = [0, 0]
    for _ in range(n_ops):
        r = rng.random()
        if r < 0.15:
            ctx.note("resets_inflight", bool(rig.inflight()))
            c.reset()
            rig.mark_buffer_reset()
            # steps whose result was dropped by the reset are not "received": shift the books
            for i in range(rig.n):
                rig.rand[i] = [False] * len(rig.steps()[i])
            acc = [[0.0, 0] for _ in range(rig.n)]
            tot = [0, 0]
            rig.ops.append(("reset",))
            ctx.trace.append(rig.ops[-1])
            continue
        kw = {"n_step": int(rng.integers(1, 24))} if rng.random() < 0.6 else {"n_episode": int(rng.integers(1, 8))}
        if rnd and not rig.state and not rig.extra and rng.random() < 0.25 and rig.can_random():
            kw["random"] = True
        mode = rig.pol.training
        st, before, after = rig.collect(**kw)
        ctx.equal(rig.pol.training, mode, "train-mode-changed", str(kw))
        d = check(ctx, rig, st, before, after, kw, acc)
        tot = [tot[0] + d[0], tot[1] + d[1]]
        ctx.equal([int(c.collect_step), int(c.collect_episode)], tot, "running-totals", str(kw))
        ctx.note("inflight_at_end", len(rig.inflight()))
        if not rnd or not any(any(x) for x in rig.rand):
            check_state(ctx, rig)
            rig.verify()
        else:
            verify_no_random(ctx, rig)


def verify_no_random(ctx, rig):
    """As verify(), but a step in flight across collects may have been drawn in either mode: contents except actions."""
    save = rig.rand
    rig.rand = [[None] * len(x) for x in rig.steps()]
    try:
        rig.verify()
    finally:
        rig.rand = save


def s_script(ctx, rng):
    n = int(rng.integers(2, 7))
    wait = int(rng.integers(1, n + 1))
    timeout = None if wait < n and rng.random() < 0.7 else 0.01
    Sched.rng = np.random.default_rng(int(rng.integers(2**31)))
    Sched.trace = []
    Sched.skew = float(rng.choice([0.0, 0.8]))
    wrap = False
    rig = Rig(ctx, rng, backend="script", n=n, collector_cls=AsyncCollector, room=4, rew_dim=0,
              mkenv=lambda fns: BaseVectorEnv(fns, ScriptWorker, wait_num=wait, timeout=timeout))
    ctx.trace.append(("wait_num", wait, timeout))
    run(ctx, rng, rig, int(rng.integers(3, 8)), rnd=bool(rng.random() < 0.3))
    ctx.note("out_of_order", sum(list(p) != list(range(len(p))) for p in Sched.trace))
    ctx.note("schedules", len(Sched.trace) > 5)
    ctx.sig(n, wait, timeout, tuple(Sched.trace), rig.state, tuple(str(o) for o in rig.ops))
    ctx.sample({"envs": n, "wait_num": wait, "ops": [str(o) for o in rig.ops], "first completions": [list(p) for p in Sched.trace[:10]]})


def s_procs(ctx, rng):
    n = int(rng.integers(2, 5))
    wait = int(rng.integers(1, n))
    timeout = None if rng.random() < 0.6 else 0.004
    cls = [SubprocVectorEnv, ShmemVectorEnv][int(rng.integers(2))]
    rig = Rig(ctx, rng, backend="asyncproc", n=n, collector_cls=AsyncCollector, room=4, rew_dim=0, info="plain",
              obs=["vec", "int", "img"][int(rng.integers(3))], delay=0.004, mkenv=lambda fns: cls(fns, wait_num=wait, timeout=timeout))
    c = rig.col
    # the logs live in the worker processes: read them once, when nothing is in flight any more
    real_logs = rig.logs
    acc_steps = acc_eps = 0
    rets, lens = [], []
    try:
        c.reset()
        for _ in range(int(rng.integers(1, 4))):
            kw = {"n_step": int(rng.integers(4, 24))} if rng.random() < 0.6 else {"n_episode": int(rng.integers(1, 8))}
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                st = c.collect(**kw)
            rig.ops.append(str(kw))
            acc_steps += int(st.n_collected_steps)
            acc_eps += int(st.n_collected_episodes)
            rets += [float(x) for x in st.returns]
            lens += [int(x) for x in st.lens]
        fl = rig.inflight()
        while c.env.waiting_id:
            c.env.step(None, id=c.env.waiting_id)
        logs = [list(x) for x in c.env.get_env_attr("log")]
        steps = [E.steps_of(x)[: -1 if i in fl else None] for i, x in enumerate(logs)]
        faults = [f for w in c.env.get_env_attr("faults") for f in w]
    finally:
        c.close()
    rig.logs = lambda: logs
    rig.steps = lambda: steps
    rig.faults = lambda: faults
    rig.rand = [[False] * len(x) for x in steps]
    rig.base = [0] * n
    rig.verify()
    check_state(ctx, rig)
    ctx.equal(acc_steps, sum(len(x) for x in steps), "steps-reported", "")
    want = []
    for lg in steps:
        r, k = 0.0, 0
        for s in lg:
            r, k = r + s[3], k + 1
            if s[4] or s[5]:
                want.append((k, r))
                r, k = 0.0, 0
    ctx.close(np.array(sorted(zip(lens, rets))).reshape(-1, 2), np.array(sorted(want)).reshape(-1, 2), "episode-stats", "", rtol=1e-9, atol=1e-9)
    ctx.note("steps", acc_steps)
    ctx.note("proc_cases")
    ctx.sig(n, wait, timeout, cls.__name__, tuple(rig.ops), tuple(len(x) for x in steps))


def s_wrapped(ctx, rng):
    """Through an observation-normalising wrapper the same holds (statistics frozen at mean 0, deviation 1)."""
    n = int(rng.integers(2, 5))
    wait = int(rng.integers(1, n))
    Sched.rng = np.random.default_rng(int(rng.integers(2**31)))
    Sched.trace, Sched.skew = [], 0.5

    def mk(fns):
        v = VectorEnvNormObs(BaseVectorEnv(fns, ScriptWorker, wait_num=wait), update_obs_rms=False)
        v.workers = v.venv.workers
        v.obs_rms.clip_max = None
        v.obs_rms.eps = 0.0
        return v

    rig = Rig(ctx, rng, backend="script", n=n, collector_cls=AsyncCollector, room=4, rew_dim=0, obs="vec64", mkenv=mk)
    run(ctx, rng, rig, int(rng.integers(2, 6)), rnd=False)
    ctx.sig(n, wait, tuple(Sched.trace))


SCENARIOS = [
    Scenario("script", s_script, 220, 4000),
    Scenario("procs", s_procs, 16, 240),
    Scenario("wrapped", s_wrapped, 16, 200),
]
