"""Training is a function of seeds and configuration: loggers, progress bars, callbacks, worker kinds and pickling are inert."""
import contextlib
import io
import os
import pickle
import random
import shutil
import tempfile
import warnings

import gymnasium as gym
import numpy as np
import torch
from torch.utils.tensorboard import SummaryWriter
from vlib import envs as E
from vlib import zoo
from vlib.core import Scenario
from vlib.pol import DIM

from tianshou.data import Collector, PrioritizedVectorReplayBuffer, VectorReplayBuffer
from tianshou.env import DummyVectorEnv, ShmemVectorEnv, SubprocVectorEnv
from tianshou.trainer import OfflineTrainer, OffpolicyTrainer, OnpolicyTrainer
from tianshou.utils import TensorboardLogger

RULE = (
    "lock-step training runs of every algorithm from equal seeds, differing only in logger, verbosity, progress bar, callbacks, "
    "worker kind, interruption and pickling; parameters, targets, buffers, losses and returns compared bit for bit; distinct = "
    "(algorithm, environments, schedule, what differed)"
)
MIN = {"twins": 60, "tensors_compared": 1500, "epochs_compared": 100, "algorithms": 60, "worker_twins": 6, "pickled": 20, "changed_by_training": 60, "seed_matters": 20}

ON = [n for n in zoo.ONPOL] + ["gail", "icm_ppo"]
OFF = zoo.VALUE + zoo.AC + ["icm_dqn"]
OFFLINE = [n for n in zoo.OFFLINE if n != "gail"]


class DynEnv(gym.Env):
    """Random dynamics driven by the environment's own generator and by the actions received."""

    def __init__(self, space, max_len=8):
        self.action_space, self.max_len = space, max_len
        self.observation_space = gym.spaces.Box(-10, 10, (DIM,), np.float64)

    def reset(self, *, seed=None, options=None):
        super().reset(seed=seed)
        self.t, self.acc = 0, 0
        self.n = int(self.np_random.integers(1, self.max_len + 1))
        return self.np_random.normal(size=DIM), {}

    def step(self, a):
        self.t += 1
        self.acc = (self.acc * 31 + E.act_code(a)) % 1009
        obs = self.np_random.normal(size=DIM) + 0.1 * np.sin(self.acc)
        r = float(np.round(np.cos(self.acc) * 0.3, 6))
        end = self.t >= self.n
        tr = bool(self.np_random.random() < 0.4)
        return obs, r, end and not tr, end and tr, {}


def seed_all(s):
    random.seed(s)
    np.random.seed(s % 2**32)
    torch.manual_seed(s)


class Run:
    """Everything needed for one training run, from one configuration and one seed."""

    def __init__(self, cfg, seed, var):
        self.cfg, self.var = cfg, var
        seed_all(seed)
        rng = np.random.default_rng(cfg["build"])
        it = self.it = zoo.build(cfg["name"], rng, adam=cfg["adam"], masked=False, det=cfg["det"], n_act=cfg["n_act"])
        self.policy = it.policy
        sp = it.spec.space() if it.spec.kind != "branch" else gym.spaces.MultiDiscrete([it.spec.n] * it.spec.branches)
        V = {"dummy": DummyVectorEnv, "subproc": SubprocVectorEnv, "shmem": ShmemVectorEnv}[var.get("venv", "dummy")]
        mk = lambda n: V([lambda: DynEnv(sp, cfg["max_len"]) for _ in range(n)])
        self.tmp = None
        n = cfg["n_env"]
        self.venvs = [mk(n), mk(2)]
        for k, v in enumerate(self.venvs):
            v.seed([seed % 10000 + 100 * k + j for j in range(len(v))])
        buf = (PrioritizedVectorReplayBuffer(60 * n, n, alpha=0.6, beta=0.4) if cfg["prio"] else VectorReplayBuffer(60 * n, n))
        self.train = Collector(self.policy, self.venvs[0], buf, exploration_noise=cfg["noise"])
        self.test = Collector(self.policy, self.venvs[1])
        kw = dict(policy=self.policy, max_epoch=cfg["max_epoch"], batch_size=cfg["bs"], step_per_epoch=cfg["spe"], episode_per_test=3, test_collector=self.test,
                  verbose=var.get("verbose", False), show_progress=var.get("progress", False))
        if var.get("logger"):
            self.tmp = tempfile.mkdtemp(prefix="verif-t04-")
            kw["logger"] = TensorboardLogger(SummaryWriter(self.tmp), train_interval=1, update_interval=1)
        if var.get("fns"):
            kw.update(test_fn=lambda e, s: None, save_best_fn=lambda p: None, save_checkpoint_fn=lambda a, b, c: "")
            if cfg["kind"] != "offline":
                kw.update(train_fn=lambda e, s: None)
        if cfg["kind"] == "offline":
            self.train.reset()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.train.collect(n_step=40, random=True)
            kw["buffer"] = self.buffer = self.train.buffer
            T = OfflineTrainer
        else:
            kw.update(train_collector=self.train)
            kw["step_per_collect" if cfg["by_step"] else "episode_per_collect"] = cfg["spc"] if cfg["by_step"] else n
            if cfg["kind"] == "on":
                kw["repeat_per_collect"] = 2
                T = OnpolicyTrainer
            else:
                kw["update_per_step"] = 0.5 if cfg["by_step"] else 1.0
                T = OffpolicyTrainer
        self.T, self.kw = T, kw

    def go(self):
        out = []
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for st in self.T(**self.kw):
                t = st.train_collect_stat
                losses = {} if st.training_stat is None else {k: v for k, v in st.training_stat.get_loss_stats_dict().items()}
                out.append({
                    "epoch": st.epoch, "train": None if self.cfg["kind"] == "offline" else (np.array(t.returns), np.array(t.lens), t.n_collected_steps),
                    "test": (np.array(st.test_collect_stat.returns), np.array(st.test_collect_stat.lens)), "losses": losses,
                    "smooth": dict(st.training_stat.smoothed_loss) if st.training_stat else {}, "best": (st.info_stat.best_reward, st.info_stat.best_score, st.info_stat.gradient_step),
                })
        return out

    def state(self):
        b = self.train.buffer
        d = {"tensors": {k: v.numpy() for k, v in zoo.tensors(self.policy).items()}, "len": len(b), "rng": (np.random.get_state()[1].copy(), torch.get_rng_state().numpy())}
        if len(b):
            x = b[b.sample_indices(0)]
            d["buf"] = {k: np.asarray(x[k]) for k in ("obs", "act", "rew", "terminated", "truncated", "obs_next")}
        if self.cfg["prio"]:
            d["prio"] = np.array([b.weight[i] for i in range(len(b))])
        return d

    def close(self):
        for v in self.venvs:
            v.close()
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)


def config(rng, kind=None):
    kind = kind or ["on", "off", "offline"][int(rng.choice(3, p=[0.35, 0.45, 0.2]))]
    name = str(rng.choice({"on": ON, "off": OFF, "offline": OFFLINE}[kind]))
    return dict(
        kind=kind, name=name, build=int(rng.integers(2**31)), adam=bool(rng.random() < 0.7), det=bool(rng.random() < 0.5), n_act=int(rng.integers(2, 4)), n_env=int(rng.integers(1, 4)),
        max_len=int(rng.integers(3, 9)), bs=int(rng.integers(4, 12)), spe=int(rng.integers(8, 25)) if kind != "offline" else int(rng.integers(2, 6)), max_epoch=int(rng.integers(1, 4)),
        by_step=bool(rng.random() < 0.6) or kind == "on", spc=int(rng.integers(6, 12)), noise=bool(rng.random() < 0.7) and kind == "off",
        prio=kind == "off" and name not in ("bdq",) and bool(rng.random() < 0.3), eps=0.3,
    )


def set_eps(run):
    q = getattr(run.policy, "policy", run.policy)
    if hasattr(q, "set_eps"):
        q.set_eps(0.3)


def compare(ctx, a, b, oa, ob, what):
    ctx.equal(len(oa), len(ob), "epochs", what)
    for x, y in zip(oa, ob):
        ctx.equal(y, x, "epoch-statistics", f"{what}, epoch {x['epoch']}")
        ctx.note("epochs_compared")
    sa, sb = dict(a.state()), dict(b.state())
    for k in sa["tensors"]:
        ctx.equal(sb["tensors"][k], sa["tensors"][k], "parameters", f"{what}: {k}")
        ctx.note("tensors_compared")
    sa.pop("tensors"), sb.pop("tensors")
    ctx.equal(sb, sa, "buffer-or-generators", what)


def twin(ctx, rng, cfg, var):
    seed = int(rng.integers(2**31))
    a = Run(cfg, seed, {})
    set_eps(a)
    before = {k: v.numpy().copy() for k, v in zoo.tensors(a.policy).items()}
    oa = a.go()
    sa_rng = np.random.get_state()[1].copy(), torch.get_rng_state().numpy()
    b = Run(cfg, seed, var)
    set_eps(b)
    what = f"{cfg['name']} ({cfg['kind']}), differing in {var}"
    try:
        ob = b.go()
        sb = b.state()
        keep = a.state
        a.state = lambda: {**keep(), "rng": sa_rng}
        b.state = lambda: sb
        compare(ctx, a, b, oa, ob, what)
        ctx.note("changed_by_training", any(not np.array_equal(before[k], v) for k, v in sb["tensors"].items()))
    finally:
        a.close()
        b.close()
    ctx.note("twins")
    ctx.note("algorithms")
    ctx.sig(cfg["name"], cfg["kind"], cfg["prio"], cfg["n_env"], sorted(var.items()), len(oa))
    ctx.sample({"algorithm": cfg["name"], "trainer": cfg["kind"], "differs_in": var, "epochs": len(oa), "last": {k: str(v) for k, v in oa[-1].items()}})
    return oa, seed


def s_twin(ctx, rng):
    cfg = config(rng)
    var = {}
    for k in ("logger", "verbose", "progress", "fns"):
        if rng.random() < 0.5:
            var[k] = True
    oa, seed = twin(ctx, rng, cfg, var)
    if rng.random() < 0.4:
        c = Run(cfg, seed + 1, {})
        set_eps(c)
        oc = c.go()
        c.close()
        from vlib.core import diff

        ctx.note("seed_matters", diff([o["train"] or o["losses"] for o in oa], [o["train"] or o["losses"] for o in oc]) is not None)


def s_workers(ctx, rng):
    twin(ctx, rng, {**config(rng, "off" if rng.random() < 0.5 else "on"), "max_epoch": 1}, {"venv": ["subproc", "shmem"][int(rng.integers(2))]})
    ctx.note("worker_twins")


def s_pickle(ctx, rng):
    """A policy and buffer pickled between two offline trainings continue as if nothing happened."""
    cfg = config(rng, "offline")
    if rng.random() < 0.5:  # any off-policy algorithm can be trained offline
        cfg["name"] = str(rng.choice(OFF))
    cfg["max_epoch"] = 1
    seed = int(rng.integers(2**31))
    runs = []
    for mode in (0, 1):
        a = Run(cfg, seed, {})
        if mode:
            if rng.random() < 0.5:
                a.policy, a.buffer = pickle.loads(pickle.dumps((a.policy, a.buffer)))
            else:
                f = io.BytesIO()
                torch.save(a.policy, f)
                f.seek(0)
                a.policy = torch.load(f)
                a.buffer = pickle.loads(pickle.dumps(a.buffer))
        o1 = go_updates(a, 3)
        if mode:
            st = np.random.get_state(), torch.get_rng_state()
            a.policy, a.buffer = pickle.loads(pickle.dumps((a.policy, a.buffer)))
            np.random.set_state(st[0])
            torch.set_rng_state(st[1])
        o2 = go_updates(a, 4)
        runs.append((a, o1 + o2, {k: v.numpy().copy() for k, v in zoo.tensors(a.policy).items()}))
        a.close()
    ctx.equal(runs[1][1], runs[0][1], "losses-after-pickling", cfg["name"])
    for k, v in runs[0][2].items():
        ctx.equal(runs[1][2][k], v, "parameters-after-pickling", f"{cfg['name']}: {k}")
        ctx.note("tensors_compared")
    ctx.note("pickled")
    ctx.sig(cfg["name"], cfg["adam"], cfg["bs"])


def go_updates(a, n):
    from tianshou.utils.torch_utils import policy_within_training_step

    out = []
    with policy_within_training_step(a.policy), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(n):
            st = a.policy.update(a.cfg["bs"], a.buffer, **a.it.kw)
            out.append(dict(st.get_loss_stats_dict()))
    return out


SCENARIOS = [
    Scenario("twin", s_twin, 70, 1500),
    Scenario("workers", s_workers, 10, 120),
    Scenario("pickle", s_pickle, 40, 1200),
]
