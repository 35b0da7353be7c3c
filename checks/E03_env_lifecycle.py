"""Vector environments are released completely, exactly once, and failures surface instead of hanging."""
import multiprocessing
import os
import shutil
import signal
import tempfile
import time

import gymnasium as gym
import numpy as np
from tianshou.data import Collector
from tianshou.env import DummyVectorEnv, ShmemVectorEnv, SubprocVectorEnv, VectorEnvWrapper
from vlib import envs as E
from vlib.core import Scenario

RULE = (
    "vector envs on every local backend closed at random points (idle, steps in flight, large results pending, after a "
    "failure or a killed worker process); a file log written by the environments counts constructions and closings, the "
    "process table shows what is left; distinct = (backend, history, failure)"
)
MIN = {"closes": 90, "envs_closed": 250, "refused_after_close": 1000, "inflight_closes": 25, "failures": 35, "killed": 3, "processes_ended": 90}


class LogEnv(E.TagEnv):
    def __init__(self, d, eid, a, delay=0.0, big=0, fail=None):
        super().__init__(eid, *a, delay)
        self.dir, self.big, self.fail = d, big, fail
        if big:
            self.observation_space = gym.spaces.Box(-1e9, 1e9, (big,), np.float64)
        self.count = 0
        self.uid = f"{os.getpid()}-{id(self)}-{time.monotonic_ns()}"
        self.put("made")

    def put(self, what):
        fd = os.open(os.path.join(self.dir, "log"), os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, f"{what} {self.eid} {self.uid}\n".encode())
        os.close(fd)

    def make_obs(self):
        return np.full(self.big, float(self.t)) if self.big else super().make_obs()

    def reset(self, **kw):
        if self.fail == "reset" and self.ep >= 0:
            raise ValueError("planned failure in reset")
        return super().reset(**kw)

    def step(self, a):
        self.count += 1
        if self.fail == ("step", self.count):
            raise ValueError("planned failure in step")
        return super().step(a)

    def close(self):
        self.put("closed")
        super().close()


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif-env-")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def counts(self):
        made, closed = {}, {}
        p = os.path.join(self.d, "log")
        for ln in open(p).read().splitlines() if os.path.exists(p) else []:
            what, eid, uid = ln.split()
            (made if what == "made" else closed).setdefault((int(eid), uid), 0)
            (made if what == "made" else closed)[(int(eid), uid)] += 1
        return made, closed


def make(rng, backend, d, n, a, delay, big, fails, **kw):
    fns = [lambda i=i: LogEnv(d, i, a, delay, big, fails.get(i)) for i in range(n)]
    cls = {"dummy": DummyVectorEnv, "subproc": SubprocVectorEnv, "shmem": ShmemVectorEnv}[backend]
    return cls(fns, **kw)


def refused(ctx, venv, n):
    acts = np.zeros(n, int)
    for name, fn in (("reset", lambda: venv.reset()), ("step", lambda: venv.step(acts)), ("seed", lambda: venv.seed(1)), ("render", lambda: venv.render()),
                     ("get_env_attr", lambda: venv.get_env_attr("eid")), ("set_env_attr", lambda: venv.set_env_attr("eid", 1)), ("close", lambda: venv.close()),
                     ("reset_one", lambda: venv.reset([0])), ("action_space", lambda: venv.action_space)):
        ctx.raises(fn, AssertionError, "usable-after-close", name)
        ctx.note("refused_after_close")


def gone(ctx, procs):
    for p in procs:
        p.join(20)
        ctx.check(not p.is_alive(), "process-left", str(p))
        ctx.note("processes_ended")


def s_close(ctx, rng):
    pick = lambda xs: xs[int(rng.integers(len(xs)))]
    backend = pick(["dummy", "subproc", "shmem"])
    n = int(rng.integers(1, 5))
    a = [int(rng.integers(2**31)), "vec", "disc", 50, 0.4, "plain", 0]
    asyn = bool(rng.random() < 0.5)
    delay = 0.0 if backend == "dummy" else pick([0.0, 0.01, 0.05])
    big = pick([0, 0, 40000])
    kw = {"wait_num": 1} if asyn and n > 1 else {"timeout": 0.01} if asyn else {}
    with Scratch() as sc:
        raw = make(rng, backend, sc.d, n, a, delay, big, {}, **kw)
        procs = [] if backend == "dummy" else [w.process for w in raw.workers]
        for p in procs:
            ctx.check(p.is_alive(), "process-missing", "")
        venv = VectorEnvWrapper(raw) if rng.random() < 0.2 else raw
        via = pick(["direct", "direct", "collector"]) if not asyn else "direct"
        ops = int(rng.integers(0, 6))
        if ops:
            venv.reset()
            free = list(range(n))
            for _ in range(ops):
                if not free:
                    got = venv.step(None)
                else:
                    got = venv.step(np.zeros(len(free), int), free)
                free = [int(x["env_id"]) for x in got[4]] if asyn else free
        fly = list(raw.waiting_id)
        ctx.note("inflight_closes", bool(fly))
        ctx.trace.append((backend, n, kw, delay, big, ops, fly, via))
        if via == "collector":
            col = Collector(E.StubPolicy(gym.spaces.Discrete(5), "disc", "vec"), venv)
            col.close()
        else:
            venv.close()
        ctx.note("closes")
        refused(ctx, venv, n)
        gone(ctx, procs)
        made, closed = sc.counts()
        want = {i: 1 for i in range(n)} if backend != "shmem" else {i: 2 for i in range(n)}
        ctx.equal({i: sum(1 for k in made if k[0] == i) for i in range(n)}, want, "constructions", "")
        ctx.equal(closed, {k: 1 for k in made}, "close-count", "times each environment was closed")
        ctx.note("envs_closed", len(closed))
        ctx.sig(backend, n, asyn, delay, bool(big), ops, tuple(fly), via)
        ctx.sample({"backend": backend, "envs": n, "in_flight": fly, "rounds": ops})


def s_fail(ctx, rng):
    """A failing environment makes the call fail promptly; the others are released by close."""
    pick = lambda xs: xs[int(rng.integers(len(xs)))]
    backend = pick(["dummy", "subproc", "shmem"])
    n = int(rng.integers(1, 4))
    a = [int(rng.integers(2**31)), "vec", "disc", 50, 0.4, "plain", 0]
    bad = int(rng.integers(n))
    kill = backend != "dummy" and rng.random() < 0.3
    k = int(rng.integers(1, 5))
    fail = None if kill else pick(["reset", ("step", k)])
    with Scratch() as sc:
        # worker processes report the planned failure on their stderr: keep it out of ours
        err = os.dup(2)
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
        try:
            venv = make(rng, backend, sc.d, n, a, 0.0, 0, {} if kill else {bad: fail})
            procs = [] if backend == "dummy" else [w.process for w in venv.workers]
            venv.reset()
            done = 0
            failed = None
            t0 = time.time()
            try:
                if fail == "reset":
                    venv.reset()
                for t in range(k + 2):
                    if kill and t == k:
                        os.kill(procs[bad].pid, signal.SIGKILL)
                        procs[bad].join()
                    venv.step(np.zeros(n, int))
                    done += 1
            except Exception as ex:  # noqa: BLE001
                failed = ex
            dt = time.time() - t0
            ctx.check(failed is not None, "failure-swallowed", f"{backend} {fail} {kill}")
            ctx.check(dt < 30, "failure-slow", f"{dt:.0f}s")
            if backend == "dummy":
                ctx.check(isinstance(failed, ValueError) and "planned" in str(failed), "failure-replaced", repr(failed))
            ctx.equal(done, 0 if fail == "reset" else k if kill else k - 1, "steps-before-failure", f"{fail} {kill}")
            ctx.note("failures")
            ctx.note("killed", kill)
            venv.close()
            refused(ctx, venv, n)
            gone(ctx, procs)
        finally:
            os.dup2(err, 2)
            os.close(err)
        made, closed = sc.counts()
        if backend == "dummy":
            ctx.equal(closed, {x: 1 for x in made}, "close-count", "after a failure")
        else:  # the environment in the dead worker cannot be closed any more
            lost = {x for x in made if x not in closed}
            ctx.equal({x[0] for x in lost}, {bad}, "close-count", "environments left open after a failure")
            ctx.check(all(v == 1 for v in closed.values()), "close-count", str(closed))
        ctx.note("envs_closed", len(closed))
        ctx.sig(backend, n, bad, kill, str(fail), k)


SCENARIOS = [Scenario("close", s_close, 180, 2500, timeout=100), Scenario("fail", s_fail, 80, 1200, timeout=100)]
