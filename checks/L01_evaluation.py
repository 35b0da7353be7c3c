"""Launching collections of experiments and loading their results for evaluation."""
import functools
import os
import shutil
import tempfile

os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np
import scipy.stats as sst
from rliable import library as rly
from tianshou.evaluation.launcher import ExpLauncher, JoblibConfig, JoblibExpLauncher, RegisteredExpLauncher, SequentialExpLauncher
from tianshou.evaluation.rliable_evaluation_hl import LoggedCollectStats, RLiableExperimentResult, load_and_eval_experiments
from tianshou.highlevel.experiment import DQNExperimentBuilder, ExperimentCollection, ExperimentConfig, PGExperimentBuilder
from tianshou.utils import TensorboardLogger
from tianshou.utils.logger.base import DataScope
from torch.utils.tensorboard import SummaryWriter
from vlib import hl
from vlib.core import Scenario
from vlib.hl import pick

RULE = (
    "launchers with experiments that succeed, return nothing or fail; directories of logged runs of equal and unequal length in both layouts are loaded and evaluated; "
    "distinct = launcher/outcome pattern or layout/lengths/limit"
)
MIN = {"launched": 120, "failures": 30, "all_failed": 4, "singles": 4, "parallel": 3, "loaded": 60, "rows": 150, "limited": 20, "unequal": 15, "no_train": 5,
       "evaluated": 3, "trained": 2, "real_rows": 4}


class Exp:
    """Stands for an experiment; what happens when it runs is told by its plan."""

    def __init__(self, k, plan, path):
        self.k, self.plan, self.path, self.name = k, plan, path, f"exp{k}"


def runner(e):
    import time

    with open(os.path.join(e.path, f"{e.k}-{os.getpid()}-{time.monotonic_ns()}"), "w"):
        pass
    time.sleep(0.001 * (e.k * 7 % 3))
    if e.plan == "fail":
        raise ValueError(f"experiment {e.k} fails")
    if e.plan == "exit":
        raise SystemExit(3)
    return None if e.plan == "none" else ("result", e.k)


def launch_case(ctx, rng, parallel):
    tmp = tempfile.mkdtemp(prefix="verif-l01-")
    try:
        n = int(rng.integers(2, 9)) if parallel or rng.random() < 0.8 else 1
        p = pick(rng, [0.0, 0.3, 0.6, 1.0])
        plans = ["fail" if rng.random() < p * 0.9 else "exit" if rng.random() < p / 4 else pick(rng, ["ok", "ok", "none"]) for _ in range(n)]
        if p == 1.0:
            plans = ["fail"] * n
        exps = [Exp(k, pl, tmp) for k, pl in enumerate(plans)]
        jobs = int(rng.integers(1, 4))
        cfg = JoblibConfig(n_jobs=jobs, backend=pick(rng, ["loky", "threading"]), verbose=0)
        launcher: ExpLauncher = JoblibExpLauncher(cfg, experiment_runner=runner) if parallel else SequentialExpLauncher(experiment_runner=runner)
        backend = cfg.backend
        good = [None if e.plan == "none" else ("result", e.k) for e in exps if e.plan in ("ok", "none")]
        ctx.trace.append((parallel, plans, jobs))
        go = lambda: launcher.launch(exps) if rng.random() < 0.5 else ExperimentCollection(exps).run(launcher)  # noqa: E731
        if n == 1:
            if good:
                ctx.equal(go(), good, "single-result")
            else:
                ctx.raises(go, (ValueError, SystemExit), "single-failure")
            ctx.note("singles")
        elif not good:
            ctx.raises(go, RuntimeError, "all-failed")
            ctx.note("all_failed")
        else:
            ctx.equal(go(), good, "results", f"plans {plans}")
        runs = [f.split("-") for f in os.listdir(tmp)]
        ctx.equal(sorted(int(r[0]) for r in runs), list(range(n)), "exactly-once", f"plans {plans}")
        pids = {int(r[1]) for r in runs}
        if not parallel or n == 1:
            ctx.equal(pids, {os.getpid()}, "runs-elsewhere")
        if not parallel:
            order = [int(r[0]) for r in sorted(runs, key=lambda r: int(r[2]))]
            ctx.equal(order, list(range(n)), "order")
        ctx.equal((cfg.n_jobs, cfg.backend), (jobs, backend), "config-changed")
        ctx.note("launched", n)
        ctx.note("failures", sum(pl in ("fail", "exit") for pl in plans))
        ctx.sig("launch", parallel, n, tuple(plans))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def case_launch(ctx, rng):
    launch_case(ctx, rng, False)


def case_parallel(ctx, rng):
    launch_case(ctx, rng, True)
    ctx.note("parallel")


def case_real(ctx, rng):
    """A seeded collection of real experiments: the results of every way to run it agree, and what is loaded is what was measured."""
    tmp = tempfile.mkdtemp(prefix="verif-l01r-")
    try:
        sc = hl.sampling(rng, step_per_collect=int(rng.integers(4, 9)), episode_per_collect=None, num_epochs=int(rng.integers(2, 4)), update_per_step=0.5)
        n = int(rng.integers(2, 4))
        cls = pick(rng, [PGExperimentBuilder, DQNExperimentBuilder])
        ctx.trace.append((cls.__name__, repr(sc), n))

        def coll(base):
            cfg = ExperimentConfig(watch=False, device="cpu", persistence_base_dir=base, seed=3)
            return cls(hl.OwnFactory(), cfg, sc).with_name("e").build_seeded_collection(n)

        def nums(r):
            return None if r is None else (r.best_reward, r.best_reward_std, r.gradient_step, r.train_step, r.test_step)

        from tianshou.data.collector import BaseCollector

        seen = []
        collect = BaseCollector.collect

        def w(self, *a, **k):
            r = collect(self, *a, **k)
            if not self.policy.is_within_training_step:
                seen[-1].append(float(np.mean(r.returns)))
            return r

        BaseCollector.collect = w
        try:
            single = []
            for e in coll(os.path.join(tmp, "one")).experiments:
                seen.append([])
                single.append(nums(e.run().trainer_result))
        finally:
            BaseCollector.collect = collect
        ctx.check(all(x is not None for x in single), "no-result", "a training run returns no result")
        how = pick(rng, [RegisteredExpLauncher.sequential, SequentialExpLauncher(), JoblibExpLauncher(JoblibConfig(n_jobs=2, verbose=0)), "joblib"])
        if how == "joblib":
            how = RegisteredExpLauncher.joblib.create_launcher()
            how.joblib_cfg.n_jobs, how.joblib_cfg.verbose = 2, 0
        got = [nums(r) for r in coll(os.path.join(tmp, "two")).run(how)]
        ctx.equal(got, single, "collection-results", f"{type(how).__name__}")
        one, two = (RLiableExperimentResult.load_from_disk(os.path.join(tmp, d)) for d in ("one", "two"))
        # first value per run: one of the evaluations before the first epoch
        for r in (one, two):
            ctx.equal(r.test_episode_returns_RE.shape, (n, sc.num_epochs + 1), "loaded-shape")
            rows = sorted(r.test_episode_returns_RE.tolist())
            want = sorted([s[-sc.num_epochs - 1 :] for s in seen])
            for a, b in zip(rows, sorted(want), strict=True):
                ok = any(np.allclose(a, [s[k], *s[-sc.num_epochs :]], rtol=1e-5, atol=1e-6) for s in seen for k in range(len(s) - sc.num_epochs))
                ctx.check(ok, "loaded-returns", lambda a=a, b=b: f"{a} not among the runs {seen}")
                ctx.note("real_rows")
        ctx.check(np.array_equal(one.env_steps_E, two.env_steps_E) and one.env_steps_E[0] == 0 and (np.diff(one.env_steps_E) >= sc.step_per_epoch).all(), "loaded-steps", lambda: f"{one.env_steps_E}")
        ctx.sig("real", cls.__name__, n, sc.num_epochs)
        ctx.note("trained")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def stats(v, rng):
    return {"n_collected_episodes": 3, "n_collected_steps": 30, "collect_time": 0.5, "collect_speed": 60.0, "returns": np.array([v]), "lens": np.array([3]),
            "returns_stat": {"mean": v, "std": v / 2, "max": v + 1, "min": v - 1}, "lens_stat": {"mean": 3.0, "std": 0.0, "max": 3.0, "min": 3.0}}


def write_run(path, test, train, steps, train_steps, rng, extra):
    """One run's event file, written through the logger as the trainer does."""
    os.makedirs(path)
    w = SummaryWriter(path)
    lg = TensorboardLogger(w, train_interval=1, test_interval=1, update_interval=1, info_interval=1)
    k = 0
    for s, v in zip(steps, test, strict=True):
        while k < len(train_steps) and train_steps[k] <= s:
            d = stats(train[k], rng)
            if extra:
                d["policy_entropy"] = 0.5
            lg.log_train_data(d, int(train_steps[k]))
            k += 1
        d = stats(v, rng)
        if extra:
            d["success_rate"], d["details"] = 0.25, {"a": 1.0}
        lg.log_test_data(d, int(s))
        lg.log_info_data({"best_reward": v}, 1)
    while k < len(train_steps):
        lg.log_train_data(stats(train[k], rng), int(train_steps[k]))
        k += 1
    w.close()


def make_runs(rng, tmp):
    base = os.path.join(tmp, "exps")
    n = int(rng.integers(1, 5))
    lt = int(rng.integers(1, 7))
    grid = np.concatenate([[0], np.cumsum(rng.integers(5, 20, size=lt + 3))])
    tgrid = np.cumsum(rng.integers(1, 9, size=12))
    unequal = rng.random() < 0.4
    with_train = rng.random() < 0.8
    nested = rng.random() < 0.4
    extra = rng.random() < 0.3
    test, train = [], []
    for k in range(n):
        m = lt + (int(rng.integers(0, 3)) if unequal else 0)
        q = (int(rng.integers(3, 9)) if unequal else 6) if with_train else 0
        test.append(rng.normal(size=m).astype(np.float32).astype(float))
        train.append(rng.normal(size=q).astype(np.float32).astype(float))
        d = os.path.join(base, f"run{k}")
        write_run(os.path.join(d, "sub") if nested else d, test[-1], train[-1], grid[:m], tgrid[:q], rng, extra)
    if rng.random() < 0.5:  # to be ignored
        os.makedirs(os.path.join(base, ".hidden", "x"))
        with open(os.path.join(base, "notes.txt"), "w") as f:
            f.write("x")
    return base, test, train, grid, tgrid, {"n": n, "unequal": bool(unequal), "train": bool(with_train), "nested": bool(nested), "extra": bool(extra)}


def case_load(ctx, rng):
    tmp = tempfile.mkdtemp(prefix="verif-l01l-")
    try:
        base, test, train, grid, tgrid, info = make_runs(rng, tmp)
        limit = None if rng.random() < 0.5 else int(rng.integers(1, 60))
        if limit in set(grid) | set(tgrid):  # whether the limit itself belongs to it is left open
            limit = next(x for x in range(limit, 10**6) if x not in set(grid) | set(tgrid))
        ctx.trace.append((info, limit, [t.tolist() for t in test]))
        files = sorted(os.path.join(a, f) for a, _, fs in os.walk(base) for f in fs)
        r = RLiableExperimentResult.load_from_disk(base, limit)
        ctx.equal(sorted(os.path.join(a, f) for a, _, fs in os.walk(base) for f in fs), files, "files-created")
        ml, mt = min(map(len, test)), min(map(len, train))
        if limit is not None:
            ml, mt = sum(g < limit for g in grid[:ml]), sum(g < limit for g in tgrid[:mt])
            ctx.note("limited")
        ctx.equal(np.asarray(r.env_steps_E).astype(int).tolist(), grid[:ml].tolist(), "test-steps", f"{info} limit {limit}")
        got = np.asarray(r.test_episode_returns_RE)
        ctx.equal(got.shape, (info["n"], ml), "test-shape", f"{info} limit {limit}")
        want = [t[:ml] for t in test]
        order = []
        for row in got:
            k = next((k for k in range(info["n"]) if k not in order and np.allclose(row, want[k], rtol=1e-6, atol=0)), None)
            ctx.check(k is not None, "test-row", lambda row=row: f"{row} not among {want}")
            order.append(k)
            ctx.note("rows")
        if info["train"]:
            ctx.equal(np.asarray(r.env_steps_train_E).astype(int).tolist(), tgrid[:mt].tolist(), "train-steps", f"{info} limit {limit}")
            g = np.asarray(r.train_episode_returns_RE)
            ctx.equal(g.shape, (info["n"], mt), "train-shape", f"{info} limit {limit}")
            if ml:  # the same run in the same row
                for k, row in zip(order, g, strict=True):
                    ctx.close(row, train[k][:mt], "train-row", f"run {k}", rtol=1e-6)
                    ctx.note("rows")
        else:
            ctx.check(np.asarray(r.env_steps_train_E).size == 0 and np.asarray(r.train_episode_returns_RE).size == 0, "train-invented")
            ctx.note("no_train")
        ctx.note("unequal", int(info["unequal"]))
        ctx.equal(r.exp_dir, base, "directory")
        # one loaded record
        d = stats(1.5, rng)
        d["unknown"], d["other"] = np.zeros(3), {"x": 1}
        keep = dict(d)
        s = LoggedCollectStats.from_data_dict(d)
        ctx.check(s.returns_stat.mean == 1.5 and s.returns_stat.std == 0.75 and s.lens_stat.max == 3.0 and s.n_collected_steps == 30 and s.env_step is None, "record", lambda: f"{s}")
        ctx.check({k: keep[k] for k in ("n_collected_steps", "returns_stat")} == {k: keep[k] for k in ("n_collected_steps", "returns_stat")}, "record-input")
        ctx.note("loaded")
        ctx.sample({"runs": info, "lengths": [len(t) for t in test], "limit": limit})
        ctx.sig("load", *info.values(), limit, tuple(map(len, test)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def case_evaluate(ctx, rng):
    """The curves: interquartile mean per step, share of runs whose final return exceeds a threshold."""
    import matplotlib.pyplot as plt

    tmp = tempfile.mkdtemp(prefix="verif-l01e-")
    gi, gp = rly.get_interval_estimates, rly.create_performance_profile
    try:
        rly.get_interval_estimates = functools.partial(gi, reps=60)
        rly.create_performance_profile = lambda *a, **k: gp(*a, reps=60, **k)
        n, e, t = int(rng.integers(2, 7)), int(rng.integers(1, 6)), int(rng.integers(1, 6))
        r = RLiableExperimentResult(tmp, rng.normal(size=(n, e)), rng.normal(size=(n, t)), np.arange(e) * 10, np.arange(t) * 7)
        scope = pick(rng, [DataScope.TEST, DataScope.TRAIN])
        data, steps = (r.test_episode_returns_RE, r.env_steps_E) if scope == DataScope.TEST else (r.train_episode_returns_RE, r.env_steps_train_E)
        thr = None if rng.random() < 0.5 else np.sort(rng.normal(size=7))
        save = bool(rng.random() < 0.5)
        f1, a1, f2, a2 = r.eval_results("algo", thr, save_plots=save, show_plots=False, scope=scope)
        line = a1.get_lines()[0]
        ctx.close(np.asarray(line.get_xdata(), float), steps.astype(float), "curve-steps")
        ctx.close(np.asarray(line.get_ydata(), float), sst.trim_mean(data, 0.25, axis=0), "curve-iqm")
        line = a2.get_lines()[0]
        x = np.asarray(line.get_xdata(), float)
        ctx.close(x, thr if thr is not None else np.linspace(data.min(), data.max(), 101), "profile-thresholds")
        ctx.close(np.asarray(line.get_ydata(), float), [(data[:, -1] > v).mean() for v in x], "profile")
        ctx.equal(len([f for f in os.listdir(tmp) if f.endswith(".png")]), 2 * save, "saved-plots")
        plt.close("all")
        # from the directory
        base, test, train, grid, tgrid, info = make_runs(rng, tmp)
        if info["n"] > 1:
            for show, save in ((False, False), (False, True)):
                scope = pick(rng, ["both", DataScope.TEST]) if info["train"] else DataScope.TEST
                q = load_and_eval_experiments(base, show_plots=show, save_plots=save, scope=scope)
                ctx.equal(any(f.endswith(".png") for f in os.listdir(base)), save, "saved-plots", f"scope {scope}")
                ctx.equal(q.test_episode_returns_RE.shape, (info["n"], min(map(len, test))), "evaluated-shape")
                plt.close("all")
        ctx.note("evaluated")
        ctx.sig("evaluate", n, e, t, scope)
    finally:
        rly.get_interval_estimates, rly.create_performance_profile = gi, gp
        plt.close("all")
        shutil.rmtree(tmp, ignore_errors=True)


SCENARIOS = [
    Scenario("launch", case_launch, 90, 1500, 60),
    Scenario("parallel", case_parallel, 7, 120, 120),
    Scenario("real", case_real, 4, 80, 180),
    Scenario("load", case_load, 120, 1500, 60),
    Scenario("evaluate", case_evaluate, 7, 200, 120),
]
