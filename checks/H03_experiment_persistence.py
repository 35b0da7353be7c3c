"""High-level experiments: what is stored on disk, what is restored, and that configurations are independent of each other."""
import copy
import os
import pickle
import shutil
import tempfile

import numpy as np
import torch
from tianshou.data import Batch
from tianshou.highlevel.experiment import Experiment, ExperimentConfig
from tianshou.highlevel.logger import LoggerFactoryDefault
from tianshou.highlevel.persistence import Persistence, PersistenceGroup, PersistEvent, PolicyPersistence, RestoreEvent
from tianshou.highlevel.trainer import EpochTestCallback
from vlib import hl
from vlib.core import Scenario
from vlib.hl import ALGOS, LOG, pick

RULE = (
    "experiment runs of every algorithm with files enabled: the stored policy is compared with the weights the policy had at its best evaluation, restored worlds with "
    "the stored policy, copies of experiments with their originals, seeded collections with their builder; distinct = algorithm/mode/options"
)
MIN = {"persisted": 40, "restored": 80, "checkpoints": 15, "events": 60, "collisions": 40, "copies": 40, "collections": 30, "fresh_restores": 20, "disabled": 20,
       "best_not_last": 8}
Mode = PolicyPersistence.Mode


class Recorder(Persistence):
    """A user's own persistence handler."""

    calls: list = []  # noqa: RUF012

    def __init__(self, name):
        self.name = name

    def persist(self, event, world):
        Recorder.calls.append((self.name, "persist", event, world))

    def restore(self, event, world):
        Recorder.calls.append((self.name, "restore", event, world))


class Snapshots(EpochTestCallback):
    """Records the policy's weights whenever it is about to be evaluated."""

    log: list = []  # noqa: RUF012

    def callback(self, epoch, env_step, context):
        Snapshots.log.append([epoch, hl.state_of(context.policy), None])


class LoggerWatch(LoggerFactoryDefault):
    """The default logger, remembering when it is written to and finalised."""

    calls: list = []  # noqa: RUF012

    def create_logger(self, *a, **k):
        lg = super().create_logger(*a, **k)
        for name in ("write", "finalize"):
            def f(*a, name=name, orig=getattr(lg, name), **k):
                LoggerWatch.calls.append(name)
                return orig(*a, **k)

            setattr(lg, name, f)
        return lg


def build(rng, base, registered=True, algo=None, persist=(), wrap=False, reuse=None, **cfgkw):
    from tianshou.exploration import GaussianNoise
    from tianshou.highlevel.params.lr_scheduler import LRSchedulerFactoryLinear

    algo = algo or pick(rng, [a for a in ALGOS if a not in ("random",)])
    bcls, setter, pcls, _, kinds, fam = ALGOS[algo]
    kind = pick(rng, kinds)
    kw = {"act": "disc" if kind == "d" else "box", "high": (1.0,) * int(rng.integers(1, 3))}
    sc = hl.sampling(rng, update_per_step=0.5, step_per_epoch=int(rng.integers(5, 16)), num_epochs=int(rng.integers(1, 5)),
                     step_per_collect=int(rng.integers(4, 9)), episode_per_collect=None)
    fac = hl.registered(int(rng.integers(1000)), int(rng.integers(1000, 2000)), **kw) if registered else hl.OwnFactory(persist=persist, **kw)
    cfg = ExperimentConfig(**{"watch": False, "seed": int(rng.integers(1000)), "device": "cpu", "persistence_base_dir": base, **cfgkw})
    b = bcls(fac, cfg, sc).with_name(f"x-{algo}")
    given = {}
    if rng.random() < 0.5:
        f = {x for x in pcls.__dataclass_fields__}
        if "lr_scheduler_factory" in f and algo not in ("npg", "trpo"):
            given["lr_scheduler_factory"] = LRSchedulerFactoryLinear(sc)
        if "exploration_noise" in f:
            given["exploration_noise"] = GaussianNoise(0.0, 0.2)
    getattr(b, setter)(pcls(**given))
    if algo != "iqn":
        (b.with_model_factory_default if algo == "dqn" else b.with_actor_factory_default)((8,))
    if algo in ("a2c", "ppo", "npg", "trpo", "ddpg") and (rng.random() < 0.4 if reuse is None else reuse):
        b.with_critic_factory_use_actor()
    elif algo in ("sac", "dsac", "td3") and (rng.random() < 0.4 if reuse is None else reuse):
        b.with_common_critic_factory_use_actor()
    return algo, fam, sc, cfg, b


def load(path, mode):
    x = torch.load(path)
    return (x.state_dict(), x) if mode == Mode.POLICY else (x, None)


def actions(policy, n_obs=3, seed=0):
    policy.eval()
    torch.manual_seed(seed)
    np.random.seed(seed)
    obs = np.random.default_rng(seed).normal(size=(6, n_obs)).astype(np.float32)
    with torch.no_grad():
        return np.asarray(torch.as_tensor(policy(Batch(obs=obs, info=Batch())).act))


def case_persist(ctx, rng):
    from tianshou.data.collector import BaseCollector

    LOG.clear()
    Snapshots.log, Recorder.calls = [], []
    tmp = tempfile.mkdtemp(prefix="verif-h03-")
    collect = BaseCollector.collect
    try:
        mode = pick(rng, list(Mode))
        own = rng.random() < 0.5
        logf = bool(rng.random() < 0.5)
        persist = [Recorder(str(k)) for k in range(int(rng.integers(3)))] if own else []
        every = int(rng.integers(1, 4))
        algo, fam, sc, cfg, b = build(rng, tmp, registered=not own, algo=pick(rng, [a for a in ALGOS if a not in ("random", "npg", "trpo")]), persist=persist,
                                      policy_persistence_mode=mode, log_file_enabled=logf)
        ctx.trace.append((algo, str(mode), own, logf, every, repr(sc)))
        b.with_epoch_test_callback(Snapshots()).with_logger_factory(LoggerWatch(save_interval=every))
        exp = b.build()

        def w(self, *a, **k):
            r = collect(self, *a, **k)
            k = {**dict(zip(("n_step", "n_episode"), a)), **k}
            if Snapshots.log and Snapshots.log[-1][2] is None and k.get("n_episode") and not self.policy.is_within_training_step:
                Snapshots.log[-1][2] = float(np.mean(r.returns))
            return r

        BaseCollector.collect = w
        fresh = hl.state_of(copy.deepcopy(exp).create_experiment_world("fresh").policy)
        Snapshots.log, Recorder.calls, LoggerWatch.calls = [], [], []
        name = pick(rng, ["run", "a/b", None])
        res = exp.run(run_name=name)
        lc = LoggerWatch.calls
        ctx.check(lc.count("finalize") == 1 and lc[-1] == "finalize" and len(lc) > 1, "logger-finalised", lambda: f"{algo}: calls to the logger end with {lc[-4:]}")
        d = os.path.join(tmp, name or f"x-{algo}")
        ctx.equal(os.path.abspath(res.world.persist_directory), os.path.abspath(d), "directory", algo)
        files = set(os.listdir(d))
        ctx.check({"experiment.pkl", mode.get_filename()} <= files, "files-missing", lambda: f"{files}")
        ctx.equal("log.txt" in files, logf, "log-file", algo)
        ctx.check(any(f.startswith("events.out.tfevents") for f in files), "no-event-file", lambda: f"{files}")
        ctx.check(not {f"{m.value}.pt" for m in Mode if m != mode} & files, "other-mode-file", lambda: f"{files}")
        # the stored policy is the one with the best evaluation
        st, pol = load(os.path.join(d, mode.get_filename()), mode)
        snaps = Snapshots.log
        initial = [k for k, s in enumerate(snaps) if s[0] == 0]
        ctx.check(all(s[2] is not None for s in snaps) and len(initial) >= 1, "evaluations-unseen", lambda: f"{[(s[0], s[2]) for s in snaps]}")
        means = [s[2] for s in snaps]
        best = max(range(initial[-1], len(means)), key=lambda k: (means[k], -k))
        ctx.check(hl.same_state(st, snaps[best][1]), "stored-policy",
                  lambda: f"{algo}: means {means}; stored weights equal those at {[k for k, s in enumerate(snaps) if hl.same_state(st, s[1])]}, best is {best}")
        ctx.note("persisted")
        ctx.sample({"algo": algo, "mode": mode.value, "evaluations": means, "best": best, "files": sorted(files)})
        ctx.note("best_not_last", int(best not in (len(means) - 1,)))
        # checkpoints
        cps = {f for f in files if "_epoch_" in f}
        if fam == "on":
            first = {int(f.split("_epoch_")[1].split(".")[0]) for f in cps}
            if every == 1:
                ctx.equal(first, set(range(1, sc.num_epochs + 1)), "checkpoints", f"{algo} every epoch")
            else:
                gaps = np.diff(sorted(first | {0, sc.num_epochs}))
                ctx.check(all(0 < e <= sc.num_epochs for e in first) and all(np.diff(sorted(first)) == every) and (not len(gaps) or gaps.max() <= every), "checkpoints",
                          lambda: f"{algo}: {sorted(first)} with interval {every} and {sc.num_epochs} epochs")
            for e in sorted(first):
                cst, _ = load(os.path.join(d, f"{mode.value}_epoch_{e}.pt"), mode)
                at = [s for s in snaps if s[0] == e]
                ctx.check(len(at) == 1 and hl.same_state(cst, at[0][1]), "checkpoint-policy", lambda e=e: f"{algo}: checkpoint of epoch {e} is not the policy after that epoch")
                ctx.note("checkpoints")
        if persist:
            c = Recorder.calls
            ctx.check(all(x[1] == "persist" and x[2] == PersistEvent.PERSIST_POLICY for x in c), "persist-events", lambda: f"{c}")
            per = {p.name: [x for x in c if x[0] == p.name] for p in persist}
            n = {k: len(v) for k, v in per.items()}
            ctx.check(len(set(n.values())) == 1 and min(n.values()) >= 1 + len(cps), "persist-events", lambda: f"{n}")
            ctx.check([x[0] for x in c] == [p.name for p in persist] * (len(c) // len(persist)), "persist-order", lambda: f"{[x[0] for x in c]}")
            ctx.check(all(x[3] is res.world for x in c), "persist-world", algo)
            ctx.note("events", len(c))
        if pol is not None:
            q = copy.deepcopy(res.world.policy)
            q.load_state_dict(st)
            ctx.close(actions(pol), actions(q), "loaded-policy-acts", algo)
        check_restore(ctx, rng, d, tmp, st, fresh, algo, mode, own)
        ctx.sig("persist", algo, mode.value, own, logf, every, sc.num_epochs)
        # a second run with the same name
        ctx.raises(lambda: exp.run(run_name=name), FileExistsError, "collision", algo)
        st2, _ = load(os.path.join(d, mode.get_filename()), mode)
        ctx.check(hl.same_state(st, st2) and set(os.listdir(d)) == files, "collision-overwrites", algo)
        ctx.note("collisions")
        exp.create_experiment_world(name, raise_error_on_dirname_collision=False)
    finally:
        BaseCollector.collect = collect
        shutil.rmtree(tmp, ignore_errors=True)


def check_restore(ctx, rng, d, tmp, st, fresh, algo, mode, own):
    e = Experiment.from_directory(d)
    train = bool(rng.random() < 0.6)
    e.config.train = train
    e.config.persistence_enabled = bool(rng.random() < 0.5)
    n = len(Recorder.calls)
    w = e.create_experiment_world("restored-world")
    ctx.check(hl.same_state(hl.state_of(w.policy), st), "restored-policy", f"{algo} {mode}")
    new = Recorder.calls[n:]
    if own and w.envs.persistence:
        ctx.check([(x[0], x[1], x[2]) for x in new] == [(p.name, "restore", RestoreEvent.RESTORE_POLICY) for p in w.envs.persistence], "restore-events", lambda: f"{new}")
        ctx.check(all(x[3] is w for x in new), "restore-world", algo)
        ctx.note("events", len(new))
    e.config.persistence_enabled = False
    e.config.train = False
    r = e.run("again").world.policy
    ctx.check(hl.same_state(hl.state_of(r), st), "restored-policy", f"{algo} {mode}")
    ctx.close(actions(r), actions(w.policy), "restored-acts", algo)
    ctx.check(not os.path.exists(os.path.join(tmp, "again")), "files-without-persistence", algo)
    ctx.note("restored", 2)
    # restored through the configuration of another, equal experiment
    e2 = Experiment.from_directory(d, restore_policy=False)
    e2.config.train = train
    w2 = e2.create_experiment_world("restored-fresh")
    ctx.check(hl.same_state(hl.state_of(w2.policy), fresh), "unrestored-policy", f"{algo}: the stored experiment starts with other weights")
    ctx.note("fresh_restores")
    e2.config.policy_restore_directory = d
    w3 = e2.create_experiment_world("restored-by-config")
    ctx.check(hl.same_state(hl.state_of(w3.policy), st), "restored-policy", f"{algo} {mode}")
    ctx.note("restored")


def case_disabled(ctx, rng):
    """Without persistence nothing is written, but policies can be restored."""
    Recorder.calls = []
    tmp = tempfile.mkdtemp(prefix="verif-h03d-")
    try:
        base = os.path.join(tmp, "b")
        algo, fam, sc, cfg, b = build(rng, base, registered=False, persist=[Recorder("0")], persistence_enabled=False, algo=pick(rng, ["pg", "a2c", "dqn", "ddpg", "sac"]),
                                      policy_persistence_mode=pick(rng, list(Mode)))
        res = b.build().run()
        ctx.check(not os.path.exists(base) and not Recorder.calls, "files-without-persistence", algo)
        b.build().run()  # no collision either
        # persistence objects on their own
        w = res.world
        w.persist_directory = tmp
        w.restore_directory = tmp
        for mode in Mode:
            Recorder.calls = []
            parts = [Recorder(str(k)) for k in range(int(rng.integers(1, 4)))]
            off = bool(rng.random() < 0.5)
            PolicyPersistence(PersistenceGroup(*parts), enabled=False, mode=mode).persist(w.policy, w)
            ctx.check(not Recorder.calls and not os.path.exists(os.path.join(tmp, mode.get_filename())), "persists-although-disabled", algo)
            pp = PolicyPersistence(PersistenceGroup(*parts, enabled=not off), mode=mode)
            pp.get_save_best_fn(w)(w.policy)
            ctx.equal([x[0] for x in Recorder.calls], [] if off else [p.name for p in parts], "group-enabled", algo)
            before = hl.state_of(w.policy)
            for p in w.policy.parameters():
                p.data.add_(1)
            PolicyPersistence(PersistenceGroup(*parts, enabled=False), enabled=False, mode=mode).restore(w.policy, w, "cpu")
            ctx.check(hl.same_state(before, hl.state_of(w.policy)), "restored-policy", f"{algo} {mode}")
            ctx.equal([x[0] for x in Recorder.calls if x[1] == "restore"], [p.name for p in parts], "restores-although-disabled", algo)
            ctx.check(PolicyPersistence(enabled=False, mode=mode).get_save_checkpoint_fn(w) is None, "checkpoints-although-disabled", algo)
            path = pp.get_save_checkpoint_fn(w)(7, 70, 700)
            ctx.check(os.path.dirname(os.path.abspath(path)) == tmp and "7" in os.path.basename(path) and hl.same_state(load(path, mode)[0], hl.state_of(w.policy)), "checkpoint-file", lambda path=path: path)
            ctx.note("events", len(Recorder.calls))
            # one file for every epoch
            fn, es = pp.get_save_checkpoint_fn(w), sorted({int(x) for x in rng.integers(1, 1500, size=6)} | {7, 17})
            paths = [fn(e, 10 * e, 20 * e) for e in es]
            ctx.check(len(set(paths)) == len(es) and all(os.path.exists(x) for x in paths), "checkpoint-overwritten", lambda: f"{es}: {paths}")
        w.restore_directory = None
        ctx.raises(lambda: w.restore_path("x"), ValueError, "no-restore-directory")
        ctx.note("disabled")
        ctx.sig("disabled", algo, repr(sc))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def case_copy(ctx, rng):
    """Copies of experiments (pickled, deep copied, copied builders) give the same world and share nothing."""
    algo, fam, sc, cfg, b = build(rng, "unused", persistence_enabled=False)
    exp = b.build()
    early = rng.random() < 0.5  # copied before or after its first use
    want = None
    if not early:
        want = hl.state_of(exp.create_experiment_world().policy)
    copies = {
        "pickle": pickle.loads(pickle.dumps(exp)),
        "deepcopy": copy.deepcopy(exp),
        "builder": b.copy().build(),
        "rebuilt": b.build(),
    }
    if early:
        want = hl.state_of(exp.create_experiment_world().policy)
    for k, e in copies.items():
        ctx.check(hl.same_state(hl.state_of(e.create_experiment_world().policy), want), "copy-differs", f"{algo}: {k} of the experiment")
        ctx.equal((e.name, e.get_seeding_info_as_str(), repr(e.sampling_config), repr(e.config)), (exp.name, exp.get_seeding_info_as_str(), repr(exp.sampling_config), repr(exp.config)),
                  "copy-config", f"{algo}: {k}")
        ctx.note("copies")
    # a copied builder can be changed without effect on the other
    o = b.copy()
    o.experiment_config.seed += 1
    o.sampling_config.batch_size += 1
    o.with_name("other")
    e, f = b.build(), o.build()
    ctx.check(e.config.seed + 1 == f.config.seed and e.sampling_config.batch_size + 1 == f.sampling_config.batch_size and e.name == exp.name and f.name == "other", "builder-copy-shared", algo)
    ctx.check(f.agent_factory.sampling_config is f.sampling_config, "builder-copy-config", algo)
    if algo not in ("npg", "trpo"):
        r = [x.run().trainer_result for x in (copies["pickle"], copies["deepcopy"])]
        ctx.equal((r[0].best_reward, r[0].gradient_step, r[0].train_step), (r[1].best_reward, r[1].gradient_step, r[1].train_step), "copy-training", algo)
    ctx.sig("copy", algo, early, repr(sc))


def case_collection(ctx, rng):
    """Seeded collections: own names, own seeds, no training seed shared, the builder unchanged."""
    registered = rng.random() < 0.3
    algo, fam, sc, cfg, b = build(rng, "unused", registered=registered, persistence_enabled=False)
    n = int(rng.integers(1, 6))
    seed, ts = cfg.seed, sc.train_seed
    before = repr(b.experiment_config) + repr(b.sampling_config)
    exps = b.build_seeded_collection(n).experiments
    ctx.equal(len(exps), n, "collection-size", algo)
    ctx.equal(repr(b.experiment_config) + repr(b.sampling_config), before, "builder-changed", algo)
    ctx.equal(len({e.name for e in exps}), n, "names-equal", lambda: f"{[e.name for e in exps]}")
    base = b.build().name
    ranges = []
    for i, e in enumerate(exps):
        ctx.equal(e.config.seed, seed + i, "collection-seed", algo)
        ctx.check(e.name.startswith(base) and e.get_seeding_info_as_str() in e.name, "collection-name", lambda e=e: f"{e.name}")
        ctx.check(e.agent_factory.sampling_config is e.sampling_config, "collection-config", algo)
        ranges.append(set(range(e.sampling_config.train_seed, e.sampling_config.train_seed + sc.num_train_envs)))
        ctx.check(e.sampling_config.test_seed not in ranges[-1], "test-seed-overlaps", algo)
        for x in ("batch_size", "num_epochs", "step_per_collect", "buffer_size", "num_train_envs", "num_test_envs"):
            ctx.equal(getattr(e.sampling_config, x), getattr(sc, x), "collection-config", x)
    ctx.equal(min(ranges[0]), ts, "collection-train-seed", algo)
    ctx.check(len(set().union(*ranges)) == n * sc.num_train_envs, "train-seeds-overlap", lambda: f"{ranges}")
    if n > 1:
        a, c = (hl.state_of(e.create_experiment_world().policy) for e in exps[:2])
        ctx.check(not hl.same_state(a, c), "collection-same-policy", algo)
        single = b.copy()
        single.experiment_config.seed += 1
        single.sampling_config.train_seed += sc.num_train_envs
        ctx.check(hl.same_state(c, hl.state_of(single.build().create_experiment_world().policy)), "collection-policy", algo)
    ctx.note("collections")
    ctx.sig("collection", algo, n, sc.num_train_envs)


SCENARIOS = [
    Scenario("persist", case_persist, 70, 900, 60),
    Scenario("disabled", case_disabled, 28, 300, 60),
    Scenario("copy", case_copy, 42, 500, 60),
    Scenario("collection", case_collection, 42, 500, 60),
]
