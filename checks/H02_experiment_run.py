"""High-level experiments: what a run does, in which order, and what it reports."""
import contextlib
import copy
import os
import shutil
import tempfile

import numpy as np
import torch
from tianshou.data.collector import BaseCollector
from tianshou.env import DummyVectorEnv
from tianshou.highlevel.experiment import ExperimentConfig
from tianshou.highlevel.trainer import (
    EpochStopCallback,
    EpochStopCallbackRewardThreshold,
    EpochTestCallback,
    EpochTestCallbackDQNSetEps,
    EpochTrainCallback,
    EpochTrainCallbackDQNEpsLinearDecay,
    EpochTrainCallbackDQNSetEps,
    TrainingContext,
)
from tianshou.policy import BasePolicy
from vlib import hl
from vlib.core import Scenario
from vlib.hl import ALGOS, LOG, pick

RULE = (
    "whole experiment runs of every algorithm with random sampling options, callbacks, prefill, watching; the recorded order of collections, updates and callbacks "
    "is checked against the documented life cycle; distinct = algorithm/options/shape of the event sequence"
)
MIN = {"runs": 60, "train_collects": 150, "test_collects": 120, "updates": 300, "callbacks": 150, "stopped": 5, "prefills": 15, "watched": 15,
       "eps_checked": 20, "repeats": 10, "untrained": 8, "threshold": 100, "worlds": 5}


class Ev:
    """The event log of one run."""

    def __init__(self):
        self.ev = []
        self.quiet = False

    def add(self, kind, **kw):
        if not self.quiet:
            self.ev.append({"kind": kind, **kw})


def eps_of(p):
    return getattr(p, "eps", None)


@contextlib.contextmanager
def watching(log):
    collect, update, forward = BaseCollector.collect, BasePolicy.update, BasePolicy.__call__
    depth = [0]

    def w_collect(self, *a, **k):
        k = {**dict(zip(("n_step", "n_episode", "random", "render", "reset_before_collect", "gym_reset_kwargs"), a)), **k}
        a = ()
        b = {"args": (a, k), "who": self, "eps": eps_of(self.policy), "buf": len(self.buffer), "training": self.policy.is_within_training_step}
        log.add("collect", **b)
        e = log.ev[-1]
        n0 = len(LOG)
        log.calls = 0
        r = collect(self, *a, **k)
        e.update(steps=int(r.n_collected_steps), episodes=int(r.n_collected_episodes), returns=np.array(r.returns, float), forwards=log.calls,
                 renders=sum(1 for x in LOG[n0:] if x[0] == "render"), buf_after=len(self.buffer), random=bool(k.get("random", False)))
        return r

    def w_update(self, *a, **k):
        depth[0] += 1
        if depth[0] == 1:
            log.add("update", policy=self, args=(a, {**dict(zip(("sample_size", "buffer"), a)), **k}))
        try:
            return update(self, *a, **k)
        finally:
            depth[0] -= 1

    def w_call(self, *a, **k):
        log.calls = getattr(log, "calls", 0) + 1
        return forward(self, *a, **k)

    BaseCollector.collect, BasePolicy.update, BasePolicy.__call__ = w_collect, w_update, w_call
    try:
        yield
    finally:
        BaseCollector.collect, BasePolicy.update = collect, update
        del BasePolicy.__call__


class TrainCb(EpochTrainCallback):
    def __init__(self, log):
        self.log = log

    def callback(self, epoch, env_step, context):
        self.log.add("train_cb", epoch=epoch, step=env_step, context=context)


class TestCb(EpochTestCallback):
    def __init__(self, log):
        self.log = log

    def callback(self, epoch, env_step, context):
        self.log.add("test_cb", epoch=epoch, step=env_step, context=context)


class StopCb(EpochStopCallback):
    """Stops at the k-th call (never for None)."""

    def __init__(self, log, k):
        self.log, self.k, self.n = log, k, 0

    def should_stop(self, mean_rewards, context):
        self.n += 1
        r = self.k is not None and self.n >= self.k
        self.log.add("stop_cb", value=mean_rewards, result=r, context=context)
        return r

    def __deepcopy__(self, memo):
        return StopCb(self.log, self.k)


def build(rng, log, base, registered=True, algo=None, **cfgkw):
    algo = algo or pick(rng, [a for a in ALGOS if a not in ("npg", "trpo", "random")] + ["dqn"] * 2)
    bcls, setter, pcls, _, kinds, fam = ALGOS[algo]
    kind = pick(rng, kinds)
    kw = {"act": "disc" if kind == "d" else "box", "high": (1.0,) * int(rng.integers(1, 3))}
    opt = {"update_per_step": pick(rng, [0.5, 1.0, 1.6])}
    if rng.random() < 0.45:
        opt.update(start_timesteps=int(rng.integers(3, 25)), start_timesteps_random=bool(rng.random() < 0.6))
    sc = hl.sampling(rng, **opt)
    seeds = (int(rng.integers(1000)), int(rng.integers(1000, 2000)))
    fac = hl.registered(*seeds, **kw) if registered else hl.OwnFactory(**kw)
    cfg = ExperimentConfig(**{"persistence_enabled": False, "watch": False, "seed": int(rng.integers(1000)), "device": "cpu", "persistence_base_dir": base, **cfgkw})
    b = bcls(fac, cfg, sc).with_name(f"run-{algo}")
    if algo not in ("iqn", "random"):
        (b.with_model_factory_default if algo == "dqn" else b.with_actor_factory_default)((8,))
    return algo, fam, sc, cfg, b


def collector_args(e):
    a, k = e["args"]
    return {**dict(zip(["n_step", "n_episode", "random", "render"], a, strict=False)), **k}


def bests(tests, later):
    """The best mean, however many of the evaluations before the first epoch count (at least the last does)."""
    n = len(tests) - later
    return [max(tests[k:]) for k in range(n)]


def check_trace(ctx, log, res, algo, fam, sc, cbs, decay, seteps):
    world = res.world
    tc, te = world.train_collector, world.test_collector
    ev = [e for e in log.ev if e["kind"] != "collect" or e["who"] in (tc, te)]
    shape = "".join({"update": "u", "train_cb": "t", "test_cb": "s", "stop_cb": "p", "collect": "C" if e.get("who") is tc else "T"}[e["kind"]] for e in ev)
    shape = shape.replace("uu", "u").replace("uu", "u").replace("uu", "u").replace("uu", "u")
    ctx.sig(algo, shape)
    for e in ev:
        if e["kind"].endswith("_cb"):
            c = e["context"]
            ctx.check(isinstance(c, TrainingContext) and c.policy is world.policy and c.envs is world.envs and c.logger is world.logger, "callback-context", e["kind"])
            ctx.note("callbacks")
        if e["kind"] == "update":
            ctx.check(e["policy"] is world.policy, "update-policy", algo)
    i = 0
    if sc.start_timesteps:
        e = ev[0]
        ctx.check(e["kind"] == "collect" and e["who"] is tc, "prefill-first", lambda: f"{shape[:20]}")
        ctx.check(sc.start_timesteps <= e["steps"] < sc.start_timesteps + sc.num_train_envs, "prefill-steps", lambda: f"{e['steps']} for {sc.start_timesteps}")
        ctx.check((e["forwards"] == 0) == sc.start_timesteps_random, "prefill-random", lambda: f"random={sc.start_timesteps_random}: {e['forwards']} policy calls")
        ctx.note("prefills")
        i = 1
    steps = grad = 0
    epoch, in_epoch, tests, stopped = 0, 0, [], False
    last_cb = None
    first_collect = True
    tests_in_epoch = later = 0
    bs = sc.batch_size
    m = sc.num_train_envs
    for e in ev[i:]:
        k = e["kind"]
        ctx.check(not stopped, "goes-on-after-stop", lambda e=e: f"{e['kind']} after the stop callback returned True: {shape}")
        if k == "collect" and e["who"] is tc:
            if in_epoch == 0 and not stopped:
                epoch += 1
                ctx.check(tests and (epoch == 1 or tests_in_epoch > 0), "epoch-without-test", lambda: f"epoch {epoch}: {shape}")
                tests_in_epoch = 0
                if cbs["train"]:
                    ctx.check(last_cb is not None and last_cb["epoch"] == epoch and last_cb["step"] == steps, "train-callback-missing", lambda: f"epoch {epoch} step {steps}: {last_cb}")
            ctx.check(epoch <= sc.num_epochs, "too-many-epochs", lambda: shape)
            a = collector_args(e)
            if first_collect and sc.start_timesteps:
                ctx.equal(e["buf"], ev[0]["buf_after"], "prefill-kept", "transitions in the buffer when training starts")
            first_collect = False
            ctx.check(not a.get("random") and e["forwards"] > 0, "train-collect-random", algo)
            if sc.step_per_collect is not None:
                ctx.equal(e["steps"], int(np.ceil(sc.step_per_collect / m)) * m, "train-collect-steps", algo)
            else:
                ctx.equal(e["episodes"], sc.episode_per_collect, "train-collect-episodes", algo)
            ctx.check(e["training"], "exploring-in-training", "the policy is told to be within a training step")
            if decay is not None and last_cb is not None:
                a0, a1, n = decay
                want = a0 - last_cb["step"] / n * (a0 - a1) if last_cb["step"] <= n else a1
                ctx.close(e["eps"], want, "eps-train", f"after {last_cb['step']} of {n} steps", rtol=1e-9)
                ctx.note("eps_checked")
            elif isinstance(seteps[0], float):
                ctx.equal(e["eps"], seteps[0], "eps-train", algo)
                ctx.note("eps_checked")
            steps += e["steps"]
            in_epoch += e["steps"]
            ctx.note("train_collects")
            since = e["steps"]
            updates = 0
        elif k == "collect":
            if epoch:
                ctx.check(in_epoch >= sc.step_per_epoch, "epoch-too-short", lambda: f"{in_epoch} steps of {sc.step_per_epoch} in epoch {epoch}")
                ctx.check(in_epoch - since < sc.step_per_epoch, "epoch-too-long", lambda: f"{in_epoch} steps of {sc.step_per_epoch} in epoch {epoch}")
                in_epoch = 0
            ctx.equal(e["episodes"], sc.num_test_episodes, "test-episodes", algo)
            ctx.check(not e["training"], "exploring-in-test", "the policy is told not to be within a training step")
            if isinstance(seteps[1], float):
                ctx.equal(e["eps"], seteps[1], "eps-test", algo)
                ctx.note("eps_checked")
            if cbs["test"]:
                ctx.check(prev["kind"] == "test_cb" and prev["epoch"] == epoch and prev["step"] in (steps, None), "test-callback-missing", lambda: f"epoch {epoch} step {steps}: {prev}")
            tests.append(float(e["returns"].mean()))
            tests_in_epoch += 1
            later += epoch > 0
            ctx.note("test_collects")
        elif k == "update":
            ctx.check(epoch > 0, "update-before-training", lambda: shape)
            a = e["args"][1]
            ctx.note("updates")
            updates += 1
            if fam == "on":
                ctx.equal((a.get("batch_size"), a.get("repeat")), (bs, sc.repeat_per_collect), "update-options", algo)
                ctx.equal(updates, 1, "updates-per-collect", algo)
            else:
                ctx.equal(a.get("sample_size"), bs, "update-options", algo)
                grad += 1
        elif k == "train_cb":
            last_cb = e
            ctx.equal(e["step"], steps, "callback-step", "train")
            ctx.equal(e["epoch"], epoch + (in_epoch == 0), "callback-epoch", "train")
        elif k == "stop_cb":
            ctx.check(tests_in_epoch > 0 and epoch > 0, "stop-callback-early", lambda: shape)
            ctx.check(any(abs(e["value"] - x) < 1e-9 for x in (tests[-1], *bests(tests, later))), "stop-callback-value", lambda e=e: f"{e['value']} after test means {tests}")
            stopped = e["result"]
        prev = e
    ctx.check(stopped or epoch == sc.num_epochs, "epochs-missing", lambda: f"{epoch} of {sc.num_epochs}: {shape}")
    ctx.check(tests_in_epoch > 0, "last-epoch-untested", lambda: shape)
    if stopped:
        ctx.note("stopped")
    r = res.trainer_result
    ctx.check(r is not None, "no-result", "a training run returns no result")
    if fam == "off":
        ctx.check(abs(grad - sc.update_per_step * steps) <= 0.5 * len([e for e in ev[i:] if e.get("who") is tc]) + 1e-6, "gradient-steps", lambda: f"{grad} for {steps} steps at {sc.update_per_step}")
        ctx.equal(r.gradient_step, grad, "result-gradient-steps", algo)
    ctx.equal(r.train_step, steps, "result-train-steps", algo)
    ctx.check(any(abs(r.best_reward - x) < 1e-9 for x in bests(tests, later)), "result-best-reward", lambda: f"{algo}: {r.best_reward} after test means {tests}, {later} after the first epoch")
    # how often the policy is evaluated before the first epoch, and whether that is counted, is left open
    ctx.check(r.test_episode in [sc.num_test_episodes * (later + k) for k in range(len(tests) - later + 1)], "result-test-episodes",
              lambda: f"{algo}: {r.test_episode} with {len(tests)} evaluations, {later} of them after the first epoch began")


def check_world(ctx, res, cfg, sc, base, name):
    w = res.world
    ctx.check(w.trainer is not None and w.train_collector is not None and w.test_collector is not None, "world-parts")
    ctx.equal(os.path.abspath(w.persist_path("x")), os.path.abspath(os.path.join(base, name, "x")), "world-directory")
    ctx.check(not os.path.exists(base) or not os.listdir(base), "files-without-persistence", lambda: f"{os.listdir(base)}")


def case_run(ctx, rng):
    LOG.clear()
    log = Ev()
    tmp = tempfile.mkdtemp(prefix="verif-h02-")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        base = os.path.join(tmp, "base")
        watch = bool(rng.random() < 0.4)
        wn, wr = int(rng.integers(1, 4)), pick(rng, [0.0, 1e-4])
        algo, fam, sc, cfg, b = build(rng, log, base, registered=bool(rng.random() < 0.6), watch=watch, watch_num_episodes=wn, watch_render=wr)
        cbs = {"train": bool(rng.random() < 0.7), "test": bool(rng.random() < 0.7)}
        decay, seteps = None, [None, None]
        a0, a1, n = float(rng.uniform(0.5, 1)), float(rng.uniform(0, 0.4)), int(rng.integers(5, 60))
        if algo == "dqn" and rng.random() < 0.8:
            inner = EpochTrainCallbackDQNEpsLinearDecay(a0, a1, n) if rng.random() < 0.6 else EpochTrainCallbackDQNSetEps(a0)
            decay = (a0, a1, n) if isinstance(inner, EpochTrainCallbackDQNEpsLinearDecay) else None
            seteps = [a0 if decay is None else None, a1]
            cbs = {"train": True, "test": True}
            tcb, ecb = TrainCb(log), TestCb(log)
            rec = tcb.callback, ecb.callback
            tin = EpochTestCallbackDQNSetEps(a1)
            tcb.callback = lambda *a: (inner.callback(*a), rec[0](*a))[0]
            ecb.callback = lambda *a: (tin.callback(*a), rec[1](*a))[0]
            b.with_epoch_train_callback(tcb).with_epoch_test_callback(ecb)
        else:
            if cbs["train"]:
                b.with_epoch_train_callback(TrainCb(log))
            if cbs["test"]:
                b.with_epoch_test_callback(TestCb(log))
        stop = pick(rng, ["none", "never", 1, 1, 2])
        if stop != "none":
            b.with_epoch_stop_callback(StopCb(log, None if stop == "never" else stop))
        ctx.trace.append((algo, repr(sc), cbs, stop, watch, wn, wr))
        exp = b.build()
        name = pick(rng, ["plain", "nested/dir"])
        with watching(log):
            res = exp.run(run_name=name)
        check_trace(ctx, log, res, algo, fam, sc, cbs, decay, seteps)
        ctx.sample({"algo": algo, "epochs": sc.num_epochs, "events": "".join({"update": "u", "collect": "c"}.get(e["kind"], e["kind"][0]) for e in log.ev)[:120]})
        check_world(ctx, res, cfg, sc, base, name)
        ctx.check(set(os.listdir(tmp)) <= {"base"}, "files-without-persistence", lambda: f"{os.listdir(tmp)}")
        check_watch(ctx, log, res, watch, wn, wr)
        ctx.note("runs")
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def check_watch(ctx, log, res, watch, wn, wr):
    w = res.world
    other = [e for e in log.ev if e["kind"] == "collect" and e["who"] not in (w.train_collector, w.test_collector)]
    if not watch:
        ctx.check(not other and w.envs.watch_env is None, "watched-unasked", lambda: f"{len(other)}")
        ctx.check(not any(x[0] == "render" for x in LOG), "rendered-unasked")
        return
    ctx.check(len(other) >= 1 and all(e["who"].env is w.envs.watch_env for e in other), "watch-environment", lambda: f"{len(other)} collections")
    ctx.check(log.ev[-len(other):] == other or [e for e in log.ev if e["kind"] == "collect"][-1] is other[-1], "watch-last")
    ctx.equal(sum(e["episodes"] for e in other), wn, "watch-episodes")
    ctx.check(all(e["who"].policy is w.policy for e in other), "watch-policy")
    r = sum(e["renders"] for e in other)
    ctx.check((r > 0) == (wr > 0) and r >= (wr > 0) * sum(e["steps"] for e in other), "watch-rendering", lambda: f"render={wr}: {r} frames")
    ctx.note("watched")


def numbers(r):
    return (r.gradient_step, r.best_score, r.best_reward, r.best_reward_std, r.train_step, r.train_episode, r.test_step, r.test_episode)


def case_repeat(ctx, rng):
    """The same configuration gives the same training; other seeds give another one; without training nothing is trained."""
    LOG.clear()
    log = Ev()
    tmp = tempfile.mkdtemp(prefix="verif-h02r-")
    try:
        seed = int(rng.integers(1 << 30))
        runs = []
        for k in range(2):
            algo, fam, sc, cfg, b = build(np.random.default_rng(seed), log, tmp)
            np.random.seed(k)
            torch.manual_seed(k)
            b.with_epoch_train_callback(TrainCb(log))
            exp = b.build()
            log.ev.clear()
            with watching(log):
                res = exp.run()
            runs.append((numbers(res.trainer_result), hl.state_of(res.world.policy), [e["returns"].tolist() for e in log.ev if e["kind"] == "collect"]))
        ctx.trace.append((algo, repr(sc)))
        ctx.equal(runs[0][0], runs[1][0], "repeat-result", algo)
        ctx.equal(runs[0][2], runs[1][2], "repeat-returns", algo)
        ctx.check(hl.same_state(runs[0][1], runs[1][1]), "repeat-weights", f"{algo}: same seeds, other weights after training")
        # the same experiment object again
        log.ev.clear()
        with watching(log):
            res = exp.run(run_name="again")
        ctx.equal(numbers(res.trainer_result), runs[1][0], "rerun-result", algo)
        ctx.check(hl.same_state(hl.state_of(res.world.policy), runs[1][1]), "rerun-weights", algo)
        # another seed
        exp.config.seed += 1
        other = exp.create_experiment_world()
        exp.config.seed -= 1
        same = exp.create_experiment_world()
        a, b2, c = (hl.state_of(x.policy) for x in (other, same, exp.create_experiment_world()))
        ctx.check(hl.same_state(b2, c) and not hl.same_state(a, b2), "seed-unused", f"{algo}: experiment seed has no effect on the initial policy")
        # a world that is trained by hand does what run() does
        if not sc.start_timesteps:
            r = exp.create_experiment_world().trainer.run()
            ctx.equal(numbers(r), runs[1][0], "world-result", algo)
            ctx.note("worlds")
        # no training
        exp.config.train = False
        log.ev.clear()
        with watching(log):
            res = exp.run()
        w = res.world
        ctx.check(res.trainer_result is None and w.trainer is None and w.train_collector is None and w.test_collector is None, "trained-unasked", algo)
        ctx.check(not log.ev and hl.same_state(hl.state_of(w.policy), b2), "trained-unasked", algo)
        ctx.note("untrained")
        ctx.sig("repeat", algo, repr(sc))
        ctx.note("repeats")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def case_threshold(ctx, rng):
    """Reward threshold: given, or the environment's own."""
    own = rng.random() < 0.5
    limit = 1.25 if own else float(pick(rng, [rng.normal(), rng.normal(), 0.0, -0.0, 1e-9, 5]))
    envs = hl.registered().create_envs(1, 1)
    context = TrainingContext(None, envs, None)
    cb = EpochStopCallbackRewardThreshold(None if own else limit)
    fn = cb.get_trainer_fn(context)
    for x in (limit, np.nextafter(limit, -9e9), np.nextafter(limit, 9e9), limit + rng.normal(), -1e30, 1e30):
        want = x >= limit
        ctx.equal(bool(cb.should_stop(x, context)), want, "threshold", f"{x} against {limit}")
        ctx.equal(bool(fn(x)), want, "threshold", f"{x} against {limit}")
        ctx.note("threshold")
    ctx.sig("threshold", own, round(limit, 2))


SCENARIOS = [
    Scenario("run", case_run, 110, 1600, 60),
    Scenario("repeat", case_repeat, 28, 400, 60),
    Scenario("threshold", case_threshold, 60, 200, 60),
]
