"""Trainers: which collections, updates, evaluations and callbacks happen, in which order and with which arguments."""
import warnings

import numpy as np
from tianshou.data import AsyncCollector, Batch, Collector, VectorReplayBuffer
from tianshou.data.buffer.base import MalformedBufferError
from tianshou.env import DummyVectorEnv
from vlib import train as T
from vlib.core import Scenario

ASPECT = "T01"
RULE = (
    "random training configurations of the three trainers over scripted environments; every collection, update, evaluation, "
    "callback and log call is recorded and the record parsed by a reference automaton; distinct = (trainer, options, epochs, "
    "stop point, event-kind sequence)"
)
MIN = {"runs": 200, "epochs": 400, "updates": 3000, "train_collects": 1000, "evaluations": 500, "stopped_in_train": 10, "stopped_in_test": 10, "second_runs": 30,
       "refusals": 40, "resumed": 15}


def drive(ctx, rng, aspect, ses, mode=None):
    """Run a trainer, following it with the reference automaton."""
    mode = mode or ["run", "iter", "iter+run", "run+run"][int(rng.integers(4))]
    tr = ses.trainer()
    parts = mode.split("+")
    s_updates = 0
    for n, part in enumerate(parts):
        ses.ev.clear()
        ses.ev.fwd.clear()
        w = T.Walker(ctx, ses, aspect)
        w.s_updates = s_updates
        reset_buffer = bool(rng.random() < 0.3)
        w.updated = (n == 0 and not ses.c["prefill"]) or (part == "run" and reset_buffer)  # the buffer starts out empty
        exc = None
        info, stats = None, []
        try:
            if part == "run":
                info = tr.run(reset_buffer=reset_buffer)
            else:
                for st in tr:
                    stats.append((st, len(ses.ev)))
        except ValueError as e:
            if "n_gradient_steps is 0" not in str(e):
                raise
            exc = e
        ctx.trace.append([mode, part, ses.kind, {k: v for k, v in ses.c.items() if k != "logger"}])
        try:
            w.start()
            ep = w.epoch0
            stopped = False
            k = 0
            while ep < ses.c["max_epoch"] and not stopped:
                ep += 1
                stopped = w.epoch(ep)
                if part == "iter":
                    w.ck("T01", k < len(stats), "epochs-yielded", "")
                    w.epoch_stats(stats[k][0], ep)
                    k += 1
            if exc is None:
                w.end()
                w.eq("T01", len(stats), k, "epochs-yielded")
                if info is not None:
                    w.info(info)
                if ses.test is not None:
                    w.eq("T02", (tr.best_epoch, tr.best_reward, tr.best_reward_std, tr.best_score), (w.best_epoch, w.best, w.best_std, w.best_score), "best-of-the-run", tol=1e-9)
            w.tag = (ep, stopped)
        except T.Foreign as f:
            ctx.note("foreign:" + f.args[0])
            return w
        except ZeroStop:
            ctx.note("zero_update_refused")
            return w
        s_updates = w.s_updates
        ctx.note("runs")
        ctx.note("second_runs", n > 0)
        if exc is not None:
            return w
    return w


class ZeroStop(Exception):
    pass


def _updates(self, col):
    """The reference refuses an update count of zero, as the trainer must."""
    s, c = self.s, self.s.c
    if s.kind == "off" and round(c["ups"] * col["steps"]) == 0:
        self.ck("T01", self.peek()["k"] == "end", "zero-updates", "an update count of zero must be refused")
        raise ZeroStop
    return _orig_updates(self, col)


_orig_updates = T.Walker.updates
T.Walker.updates = _updates


def s_protocol(ctx, rng):
    ses = T.Session(rng)
    w = drive(ctx, rng, ASPECT, ses)
    ctx.sig(ses.kind, sorted((k, str(v)) for k, v in ses.c.items() if k not in ("logger", "fns")))
    ctx.sample({"trainer": ses.kind, "config": {k: str(v) for k, v in ses.c.items()}, "events": [e["k"] for e in ses.ev][:60]})


def s_resume(ctx, rng):
    me = int(rng.integers(1, 5))
    ses = T.Session(rng, max_epoch=me, resume=(int(rng.integers(0, me + 2)), int(rng.integers(0, 500)), int(rng.integers(0, 300))))
    if ses.kind == "offline":
        ses.c["resume"] = (ses.c["resume"][0], 0, ses.c["resume"][2])
        ses.logger.resume = ses.c["resume"]
    drive(ctx, rng, ASPECT, ses)
    ctx.note("resumed")
    ctx.sig(ses.kind, ses.c["resume"], me)


def s_refuse(ctx, rng):
    """Configurations that must be refused rather than silently train on the wrong thing."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        which = int(rng.integers(4))
        if which == 0:  # NaN observations in the buffer
            ses = T.Session(rng, kind=["on", "off"][int(rng.integers(2))], ups=1.0, stop=False, prefill=0)
            ses.c["nan_at"] = int(rng.integers(1, 4))
            ses.build()
            tr = ses.trainer()
            ctx.raises(tr.run, MalformedBufferError, "nan-accepted", str(ses.c))
            w = [e for e in ses.ev if e["k"] == "collect" and e["who"] == "train"]
            upd_after = [e for e in ses.ev[ses.ev.index(w[-1]):] if e["k"] == "update"]
            ctx.check(not upd_after, "update-on-nan", "")
        elif which == 1:  # asynchronous test collector
            ses = T.Session(rng, kind=["on", "off"][int(rng.integers(2))], test=True)
            env = DummyVectorEnv([lambda i=i: T.ScriptEnv(i, 1) for i in range(2)], wait_num=1)
            ses.test = AsyncCollector(ses.policy, env, VectorReplayBuffer(100, 2))
            tr = ses.trainer()
            ctx.raises(tr.run, AssertionError, "async-test-collector", "")
        elif which == 2:  # no step_per_epoch
            ses = T.Session(rng)
            ctx.raises(lambda: ses.trainer(step_per_epoch=None), AssertionError, "no-step-per-epoch", "")
        else:  # zero gradient steps
            ses = T.Session(rng, kind="off", ups=0.1, by_step=True, spc=1, n_train=1, stop=False)
            ctx.raises(ses.trainer().run, ValueError, "zero-updates", "")
            ctx.check(not [e for e in ses.ev if e["k"] == "update"], "zero-updates", "updates happened")
    ctx.note("refusals")
    ctx.sig(which, ses.kind, ses.c["spe"])


SCENARIOS = [
    Scenario("protocol", s_protocol, 260, 6000),
    Scenario("resume", s_resume, 40, 1200),
    Scenario("refuse", s_refuse, 60, 800),
]
