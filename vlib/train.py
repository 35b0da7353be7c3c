"""Scripted training runs, their event record, and the reference automaton of the trainers.

Every component a trainer talks to (environments, policy, collectors, buffer, logger, user callbacks) is real or a
recording stand-in; nothing is mocked in the trainer itself.  The walker reads the event record from left to right and
accepts exactly the sequences the trainer's documentation describes.
"""
from __future__ import annotations

from dataclasses import dataclass
from typing import Any

import gymnasium as gym
import numpy as np
import torch
from torch import nn
from tianshou.data import Batch, Collector, VectorReplayBuffer
from tianshou.env import DummyVectorEnv
from tianshou.policy import BasePolicy
from tianshou.policy.base import TrainingStats
from tianshou.trainer import OfflineTrainer, OffpolicyTrainer, OnpolicyTrainer
from tianshou.utils.logger.base import LazyLogger

TRAINERS = {"on": OnpolicyTrainer, "off": OffpolicyTrainer, "offline": OfflineTrainer}


class ScriptEnv(gym.Env):
    """Episodes of random length; the return of episode k is drawn around a script level."""

    def __init__(self, eid=0, seed=0, max_len=6, rew_dim=0, level=0.0, slope=0.0, noise=2.0, nan_at=None):
        self.eid, self.sd, self.max_len, self.rd = eid, seed, max_len, rew_dim
        self.level, self.slope, self.noise, self.nan_at = level, slope, noise, nan_at
        self.observation_space = gym.spaces.Box(-1e9, 1e9, (3,), np.float64)
        self.action_space = gym.spaces.Discrete(3)
        self.ep, self.t, self.total, self.midway = -1, 0, 0, 0
        self.finished: list[tuple] = []
        self.done = True

    def reset(self, *, seed=None, options=None):
        self.midway += not self.done and self.t > 0
        self.ep += 1
        r = np.random.default_rng([self.sd, self.eid, self.ep])
        self.n = int(r.integers(1, self.max_len + 1))
        self.ret = np.round((self.level + self.slope * self.ep + self.noise * r.normal()) * 8) / 8
        self.trunc = bool(r.random() < 0.4)
        self.t, self.done = 0, False
        return np.array([self.eid, self.ep, 0.0]), {}

    def step(self, a):
        assert not self.done, "step after done"
        self.t += 1
        self.total += 1
        end = self.t >= self.n
        self.done = end
        r = self.ret - (self.n - 1) if end else 1.0
        if end:
            self.finished.append((self.n, self.ret))
        if self.rd:
            r = np.array([r * (k + 1) + 0.25 * k for k in range(self.rd)])
        obs = np.array([self.eid, self.ep, float(self.t)])
        if self.nan_at is not None and self.total >= self.nan_at:
            obs[0] = np.nan
        return obs, r, end and not self.trunc, end and self.trunc, {}


@dataclass(kw_only=True)
class StubStats(TrainingStats):
    loss: float = 0.0
    other: float | None = None
    aux_arr: Any = None


class StubPolicy(BasePolicy):
    """Random actions; learning moves a counter parameter; every call is reported."""

    def __init__(self, ev, seed=0):
        super().__init__(action_space=gym.spaces.Discrete(3))
        self.ev = ev
        self.p = nn.Parameter(torch.zeros(1))
        self.r = np.random.default_rng(seed)
        self.lr = np.random.default_rng(seed + 1)
        self.n_learn = 0

    def forward(self, batch, state=None, **kw):
        self.ev.fwd.append((self.is_within_training_step, self.training))
        return Batch(act=self.r.integers(0, 3, len(batch.obs)))

    def learn(self, batch, *a, **kw):
        self.n_learn += 1
        loss = float(np.round(self.lr.normal() * 4, 3))
        u = self.lr.random()
        if u < 0.04:
            loss = float("nan")
        elif u < 0.08:
            loss = float("inf")
        with torch.no_grad():
            self.p += 1
        return StubStats(loss=loss, other=None if self.n_learn % 3 else loss * 2)

    def update(self, sample_size, buffer, **kw):
        e = {"k": "update", "size": sample_size, "buf": buffer, "len": len(buffer), "kw": kw, "wts": self.is_within_training_step}
        self.ev.add(e)
        st = super().update(sample_size, buffer, **kw)
        e["loss"], e["other"], e["stats"] = st.loss, st.other, st
        return st


class Events(list):
    def __init__(self):
        super().__init__()
        self.fwd: list = []

    def add(self, e):
        self.append(e)
        return e


class RecLogger(LazyLogger):
    def __init__(self, ev, policy, resume=(0, 0, 0)):
        super().__init__()
        self.ev, self.policy, self.resume = ev, policy, resume

    def log_train_data(self, d, step):
        self.ev.add({"k": "log_train", "step": step, "d": d})

    def log_test_data(self, d, step):
        self.ev.add({"k": "log_test", "step": step, "d": d})

    def log_update_data(self, d, step):
        self.ev.add({"k": "log_update", "step": step, "d": d})

    def log_info_data(self, d, step):
        self.ev.add({"k": "log_info", "step": step, "d": d})

    def save_data(self, epoch, env_step, gradient_step, save_checkpoint_fn=None):
        self.ev.add({"k": "save", "epoch": epoch, "env": env_step, "grad": gradient_step, "fn": save_checkpoint_fn, "p": float(self.policy.p)})
        if save_checkpoint_fn is not None:
            save_checkpoint_fn(epoch, env_step, gradient_step)

    def restore_data(self):
        self.ev.add({"k": "restore"})
        return self.resume


def spy_collector(ev, col, who):
    orig, orig_reset, orig_rb = col.collect, col.reset, col.reset_buffer

    def collect(*a, **kw):
        envs = col.env.workers
        arg = {**dict(zip(("n_step", "n_episode"), a)), **kw}
        e = {"k": "collect", "who": who, "n": (arg.get("n_step"), arg.get("n_episode")), "fresh": all(w.env.t == 0 and not w.env.done for w in envs), "blen": len(col.buffer),
             "mid0": [w.env.midway for w in envs],
             "grad_ctx": torch.is_grad_enabled()}
        ev.add(e)
        n0 = len(ev.fwd)
        f0 = [len(w.env.finished) for w in envs]
        st = orig(*a, **kw)
        e["ended"] = sorted(x for w, k in zip(envs, f0) for x in w.env.finished[k:])
        e["ctime"] = st.collect_time
        e["modes"] = set(ev.fwd[n0:])
        e["steps"], e["eps"] = st.n_collected_steps, st.n_collected_episodes
        e["rets"], e["lens"] = np.array(st.returns, copy=True), np.array(st.lens, copy=True)
        e["stats"] = st
        e["blen2"] = len(col.buffer)
        return st

    def reset(*a, **kw):
        ev.add({"k": "creset", "who": who})
        return orig_reset(*a, **kw)

    def reset_buffer(*a, **kw):
        if who == "train":
            ev.add({"k": "breset", "who": who})
        return orig_rb(*a, **kw)

    col.collect, col.reset, col.reset_buffer = collect, reset, reset_buffer
    return col


class Session:
    """One random training configuration."""

    def __init__(self, rng, kind=None, **force):
        self.rng = rng
        r = lambda a, b: int(rng.integers(a, b))
        p = lambda x: bool(rng.random() < x)
        self.ev = Events()
        self.kind = kind or ["on", "off", "offline"][r(0, 3)]
        self.seed = r(0, 2**31)
        c = self.c = {}
        c["max_epoch"] = r(1, 5)
        c["spe"] = r(1, 30) if self.kind != "offline" else r(1, 8)
        c["n_train"], c["n_test"] = r(1, 4), r(1, 4)
        c["by_step"] = p(0.5)
        c["spc"] = r(1, 16)
        c["epc"] = c["n_train"] + r(0, 3)
        c["ups"] = float(rng.choice([0.1, 0.25, 0.3, 0.5, 1.0, 1.5, 2.0]))
        c["bs"] = None if p(0.2) else r(1, 12)
        c["repeat"] = r(1, 4)
        c["test"] = p(0.85)
        c["ept"] = r(1, 5)
        c["stop"] = p(0.6)
        c["level"] = float(rng.choice([-1.0, 0.0, 1.0]))
        c["thr"] = c["level"] + float(rng.choice([0.5, 1.5, 3.0]))
        c["score"] = ["none", "none", "max", "neg", "const"][r(0, 5)]
        c["rew_dim"] = r(2, 4) if p(0.3) else 0
        c["metric"] = c["rew_dim"] > 0 or p(0.15)
        c["tit"] = p(0.7)
        c["other_policy"] = p(0.1) and self.kind != "offline"
        c["resume"] = None
        c["fns"] = {k: p(0.8) for k in ("train", "test", "best", "ckpt")}
        c["logger"] = "rec"
        c["prefill"] = r(0, 10) if p(0.3) else 0
        c["max_len"] = r(1, 8)
        c.update(force)
        self.build()

    def build(self):
        c, ev = self.c, self.ev
        self.policy = StubPolicy(ev, self.seed % 1000)
        self.other = StubPolicy(ev, 7) if c["other_policy"] else self.policy
        mk = lambda n, off, **kw: DummyVectorEnv([lambda i=i: ScriptEnv(i, self.seed + off, c["max_len"], c["rew_dim"], c["level"], **kw) for i in range(n)])
        self.train = self.test = self.buffer = None
        if self.kind != "offline":
            self.train = Collector(self.other, mk(c["n_train"], 0, slope=0.05, nan_at=c.get("nan_at")), VectorReplayBuffer(400 * c["n_train"], c["n_train"]))
            self.train.reset()
            if c["prefill"]:
                self.train.collect(n_step=c["prefill"])
            spy_collector(ev, self.train, "train")
        else:
            col = Collector(self.policy, mk(2, 5), VectorReplayBuffer(200, 2))
            col.reset()
            col.collect(n_step=int(self.rng.integers(2, 40)))
            self.buffer = col.buffer
            self.blen = len(self.buffer)
        if c["test"]:
            self.test = Collector(self.policy, mk(c["n_test"], 1, slope=0.1))
            spy_collector(ev, self.test, "test")
        ev.clear()
        ev.fwd.clear()
        self.policy.n_learn = 0
        add = ev.add
        self.train_fn = (lambda e, s: add({"k": "train_fn", "epoch": e, "env": s})) if c["fns"]["train"] else None
        self.test_fn = (lambda e, s: add({"k": "test_fn", "epoch": e, "env": s})) if c["fns"]["test"] else None
        self.best_fn = (lambda p: add({"k": "best", "policy": p, "p": float(self.policy.p)})) if c["fns"]["best"] else None
        self.ckpt_fn = (lambda e, s, g: add({"k": "ckpt", "epoch": e, "env": s, "grad": g}) and "x") if c["fns"]["ckpt"] else None
        thr = c["thr"]

        def stop(x):
            add({"k": "stop", "x": float(x), "ans": bool(x >= thr)})
            return x >= thr

        self.stop_fn = stop if c["stop"] else None
        self.metric = (lambda a: np.asarray(a)[:, 0] - 0.5 * np.asarray(a)[:, 1] if np.ndim(a) > 1 else np.asarray(a) * 0.5 + 1) if c["metric"] else None
        self.score = {
            "none": None, "max": lambda st: st.returns_stat.max, "neg": lambda st: -st.returns_stat.mean, "const": lambda st: 1.0,
        }[c["score"]]
        if c["logger"] == "rec":
            self.logger = RecLogger(ev, self.policy, c["resume"] or (0, 0, 0))
        else:
            self.logger = c["logger"]

    def ref_score(self, rets):
        return {"none": np.mean, "max": np.max, "neg": lambda x: -np.mean(x), "const": lambda x: 1.0}[self.c["score"]](rets)

    def kwargs(self):
        c = self.c
        kw = dict(policy=self.policy, max_epoch=c["max_epoch"], batch_size=c["bs"], step_per_epoch=c["spe"], episode_per_test=c["ept"] if c["test"] else None,
                  test_collector=self.test, test_fn=self.test_fn, stop_fn=self.stop_fn, compute_score_fn=self.score, save_best_fn=self.best_fn,
                  save_checkpoint_fn=self.ckpt_fn, reward_metric=self.metric, logger=self.logger, verbose=False, show_progress=False,
                  resume_from_log=c["resume"] is not None)
        if self.kind == "offline":
            kw["buffer"] = self.buffer
        else:
            kw.update(train_collector=self.train, train_fn=self.train_fn, test_in_train=c["tit"])
            kw["step_per_collect" if c["by_step"] else "episode_per_collect"] = c["spc"] if c["by_step"] else c["epc"]
            if self.kind == "on":
                kw["repeat_per_collect"] = c["repeat"]
            else:
                kw["update_per_step"] = c["ups"]
        return kw

    def trainer(self, **kw):
        return TRAINERS[self.kind](**{**self.kwargs(), **kw})


class Foreign(Exception):
    """A deviation that belongs to another property's check."""


QUEUED = {"log_train": "T03", "log_test": "T03", "log_update": "T03", "log_info": "T03", "save": "T03", "ckpt": "T03", "best": "T02"}


class Walker:
    """Accepts the event record of one run of a trainer."""

    def __init__(self, ctx, ses, aspect):
        self.ctx, self.s, self.aspect = ctx, ses, aspect
        self.ev, self.i = ses.ev, 0
        c = ses.c
        self.env, self.grad, self.epoch0 = 0, 0, 0
        if c["resume"]:
            self.epoch0, self.env, self.grad = c["resume"]
        self.hist: dict[str, list] = {}
        self.tsteps = self.teps = self.trsteps = self.treps = 0
        self.ttime = self.ctime = self.utime = 0.0
        self.tit = c["tit"] and c["test"] and not c["other_policy"] and ses.kind != "offline"

    # -- verdict helpers -----------------------------------------------------
    def ck(self, aspect, cond, kind, msg=""):
        if self.aspect in (aspect if isinstance(aspect, tuple) else (aspect,)):
            self.ctx.check(cond, kind, lambda: f"{msg} | {self.where()}")
        elif not cond:
            if kind in ("sequence", "missing-call"):
                raise Foreign(kind)  # the rest of the record cannot be followed
            self.ctx.note("foreign:" + kind)  # another property's check reports it

    def eq(self, aspect, got, want, kind, msg="", tol=0.0):
        from vlib.core import diff

        if self.aspect in (aspect if isinstance(aspect, tuple) else (aspect,)):
            if tol:
                self.ctx.close(got, want, kind, lambda: f"{msg} | {self.where()}", rtol=tol, atol=tol)
            else:
                self.ctx.equal(got, want, kind, lambda: f"{msg} | {self.where()}")
        elif diff(got, want, tol, tol) is not None:
            self.ctx.note("foreign:" + kind)

    def where(self):
        return f"event {self.i}: " + " ".join(str(e["k"]) + (":" + e["who"] if "who" in e else "") for e in self.ev[max(0, self.i - 8):self.i + 3])

    def load(self):
        """The calls that drive training are ordered among each other; notifications only among their own kind."""
        self.i = -1
        self.main = [(i, e) for i, e in enumerate(self.ev) if e["k"] in ("train_fn", "test_fn", "collect", "update", "stop")]
        self.q = {k: [(i, e) for i, e in enumerate(self.ev) if e["k"] == k] for k in QUEUED}
        first = next((i for i, e in self.main if e["k"] in ("train_fn", "update") or e.get("who") == "train"), len(self.ev))
        for e in self.ev[first:]:
            self.ck("T01", not (e["k"] == "creset" and e["who"] == "train"), "train-collector-reset", "the train collector is not reset during training")
        self.first = first

    def peek(self):
        return self.main[0][1] if self.main else {"k": "end"}

    def take(self, k, aspect="T01", who=None):
        if k in QUEUED:
            self.ck(aspect, self.q[k], "missing-call", f"expected a call of {k}")
            return self.q[k].pop(0)[1]
        e = self.peek()
        self.ck(aspect, e["k"] == k and (who is None or e.get("who") == who), "sequence", f"expected {k} {who or ''}, got {e['k']} {e.get('who', '')}")
        self.i = self.main.pop(0)[0]
        return e

    # -- pieces --------------------------------------------------------------
    def metric(self, rets):
        return self.s.metric(rets) if self.s.metric else rets

    def test(self, epoch):
        """One evaluation; returns the metric returns."""
        if self.s.test_fn:
            e = self.take("test_fn")
            self.eq("T01", (e["epoch"], e["env"]), (epoch, self.env), "test-fn-args")
        e = self.take("collect", who="test")
        self.eq("T01", e["n"], (None, self.s.c["ept"]), "test-collect-args")
        self.ck("T01", e["fresh"], "test-starts-fresh", "evaluation starts from reset environments")
        self.eq("T01", e["blen"], 0, "test-starts-fresh", "transitions in the test collector's buffer when an evaluation starts")
        self.truth(e)
        self.ttime += e["ctime"]
        self.ck("T01", e["modes"] == {(False, False)}, "test-mode", f"(within training step, training mode) = {e['modes']}")
        self.eq("T01", e["eps"], self.s.c["ept"], "test-episodes")
        self.tsteps += e["steps"]
        self.teps += e["eps"]
        rets = self.metric(e["rets"])
        self.eq("T01", e["stats"].returns, rets, "test-metric")
        self.eq("T01", e["stats"].returns_stat.mean, float(np.mean(rets)), "test-metric-stat", tol=1e-9)
        self.eq("T01", e["stats"].returns_stat.std, float(np.std(rets)), "test-metric-stat", tol=1e-9)
        lg = self.take("log_test", "T03")
        self.eq("T03", lg["step"], self.env, "log-test-step")
        self.eq("T03", lg["d"]["returns"], rets, "log-test-data")
        self.eq("T03", (lg["d"]["n_collected_steps"], lg["d"]["n_collected_episodes"]), (e["steps"], e["eps"]), "log-test-data")
        self.ctx.note("evaluations")
        self.last_test = e
        return rets

    def truth(self, e):
        """Episodes as the environments lived them (episodes cut by a reset in their middle are another matter, see C02)."""
        if not any(e["mid0"]):
            self.eq("T01", sorted(int(x) for x in e["lens"]), [n for n, _ in e["ended"]], "episode-lengths", "reported by the collection")
            if not self.s.c["rew_dim"]:
                self.eq("T01", sorted(zip([int(x) for x in e["lens"]], [float(x) for x in e["rets"]])), [(n, float(r)) for n, r in e["ended"]], "episode-returns", "reported by the collection", tol=1e-9)
            self.ctx.note("true_episodes", len(e["ended"]))

    def new_best(self, rets, epoch):
        self.best_score, self.best_epoch = self.s.ref_score(rets), epoch
        self.best, self.best_std = float(np.mean(rets)), float(np.std(rets))
        self.save_best()

    def save_best(self):
        if self.s.best_fn:
            b = self.take("best", "T02")
            self.ck("T02", b["policy"] is self.s.policy, "best-policy")
            self.eq("T02", b["p"], float(self.s_updates), "best-parameters", "policy at the moment it was evaluated")
            self.ctx.note("best_saved")

    def stop(self, x, what):
        e = self.take("stop", "T02")
        self.eq("T02", e["x"], float(x), "stop-argument", what, tol=1e-9)
        self.ctx.note("stop_calls")
        return e["ans"]

    def start(self):
        """Beginning of a run: one or more evaluations of the untouched policy."""
        s, c = self.s, self.s.c
        self.s_updates = getattr(self, "s_updates", 0)
        self.best_score = self.best = self.best_std = 0.0
        self.best_epoch = self.epoch0
        self.load()
        groups = 0
        if c["test"]:
            while self.peek()["k"] == "test_fn" or self.peek().get("who") == "test":
                groups += 1
                self.tsteps = self.teps = 0
                self.ttime = 0.0
                self.new_best(self.test(self.epoch0), self.epoch0)
            self.ck("T01", groups >= 1, "initial-evaluation")
        elif s.best_fn:
            until = next((i for i, e in enumerate(self.ev) if e["k"] in ("train_fn", "update", "log_info") or e.get("who") == "train" and e["k"] == "collect"), len(self.ev))
            while self.q["best"] and self.q["best"][0][0] < until:
                groups += 1
                self.save_best()
            self.ck("T02", groups >= 1, "initial-best")

    def train_collect(self, epoch):
        s, c = self.s, self.s.c
        if s.train_fn:
            e = self.take("train_fn")
            self.eq("T01", (e["epoch"], e["env"]), (epoch, self.env), "train-fn-args")
        e = self.take("collect", who="train")
        self.eq("T01", e["n"], (c["spc"], None) if c["by_step"] else (None, c["epc"]), "train-collect-args")
        if s.other is s.policy:
            self.ck("T01", e["modes"] == {(True, False)}, "collect-mode", f"(within training step, training mode) = {e['modes']}")
        if s.kind == "on" and self.updated:
            self.eq("T01", e["blen"], 0, "on-policy-fresh-buffer", "transitions in the buffer when collection starts")
        self.env += e["steps"]
        self.trsteps += e["steps"]
        self.ctime += e["ctime"]
        self.truth(e)
        self.treps += e["eps"]
        self.ctx.note("train_collects")
        self.ctx.note("env_steps", e["steps"])
        rets = e["rets"]
        if e["eps"]:
            rets = self.metric(rets)
            self.eq("T01", e["stats"].returns, rets, "train-metric")
            self.eq("T01", e["stats"].returns_stat.mean, float(np.mean(rets)), "train-metric-stat", tol=1e-9)
            lg = self.take("log_train", "T03")
            self.eq("T03", lg["step"], self.env, "log-train-step")
            self.eq("T03", (lg["d"]["returns"], lg["d"]["n_collected_steps"], lg["d"]["n_collected_episodes"]), (rets, e["steps"], e["eps"]), "log-train-data")
        return e, rets

    def loss(self, u, st):
        """Smoothed losses and their log entry."""
        for k in ("loss", "other"):
            if u[k] is not None:
                h = self.hist.setdefault(k, [])
                if np.isfinite(u[k]):
                    h.append(u[k])
        want = {k: float(np.mean(h[-100:])) if h else 0.0 for k, h in self.hist.items() if u[k] is not None}
        lg = self.take("log_update", "T03")
        self.eq("T03", dict(lg["d"]["smoothed_loss"]), want, "smoothed-loss", tol=1e-9)
        self.eq("T03", lg["d"]["loss"], u["loss"], "log-update-data")
        return lg

    def one_update(self, size, buf):
        e = self.take("update")
        self.ck("T01", e["wts"], "update-outside-training-step")
        self.eq("T01", e["size"], size, "update-sample-size")
        self.ck("T01", e["buf"] is buf, "update-buffer")
        self.s_updates += 1
        self.utime += e["stats"].train_time
        self.ctx.note("updates")
        self.last_update = e
        return e

    def updates(self, col):
        s, c = self.s, self.s.c
        self.updated = True
        if s.kind == "off":
            n = round(c["ups"] * col["steps"])
            self.ck("T01", n > 0, "zero-updates", "an update count of zero must be refused")
            for _ in range(n):
                e = self.one_update(c["bs"], s.train.buffer)
                self.grad += 1
                lg = self.loss(e, None)
                self.eq("T03", lg["step"], self.grad, "log-update-step")
        elif s.kind == "on":
            e = self.one_update(0, s.train.buffer)
            self.eq("T01", (e["kw"].get("batch_size"), e["kw"].get("repeat")), (c["bs"], c["repeat"]), "on-policy-update-args")
            self.eq("T01", e["len"], col["blen2"], "on-policy-update-len")
            lg = self.loss(e, None)
            g = lg["step"] - self.grad
            if self.aspect == "T01":
                self.ctx.check(g >= 1 if c["bs"] is not None else g == 1, "on-policy-gradient-steps", f"{g} for {e['len']} rows, batch size {c['bs']}")
                if c["bs"] is not None:
                    self.ctx.check(e["len"] // c["bs"] <= max(g, 1) and g <= -(-e["len"] // c["bs"]) + 1, "on-policy-gradient-steps", f"{g} for {e['len']} rows, batch size {c['bs']}")
            self.grad = lg["step"]
        else:
            e = self.one_update(c["bs"], s.buffer)
            self.grad += 1
            lg = self.loss(e, None)
            self.eq("T03", lg["step"], self.grad, "log-update-step")

    def epoch(self, ep):
        """One epoch; returns True when training stops."""
        s, c = self.s, self.s.c
        done = 0
        stopped = False
        self.last_update = None
        self.ep_collect = None
        while done < c["spe"] and not stopped:
            if s.kind == "offline":
                self.updates(None)
                done += 1
                continue
            col, rets = self.train_collect(ep)
            self.ep_collect = col
            done += col["steps"]
            if col["eps"] and self.tit and s.stop_fn and self.stop(np.mean(rets), "mean training return"):
                t = self.test(ep)
                self.ctx.note("tests_in_train")
                if self.stop(np.mean(t), "mean test return"):
                    self.new_best(t, ep)
                    stopped = True
                    self.last_update = None
                    self.ctx.note("stopped_in_train")
            if not stopped:
                self.updates(col)
        if s.kind == "offline":
            self.env = self.grad * (c["bs"] or s.blen)
        self.ep_test = None
        if not stopped:
            e = self.take("save", "T03")
            self.eq("T03", (e["epoch"], e["env"], e["grad"], e["p"]), (ep, self.env, self.grad, float(self.s_updates)), "save-data-args")
            self.ck("T03", e["fn"] is s.ckpt_fn, "save-data-fn")
            if s.ckpt_fn:
                k = self.take("ckpt", "T03")
                self.eq("T03", (k["epoch"], k["env"], k["grad"]), (ep, self.env, self.grad), "checkpoint-args")
            if c["test"]:
                t = self.test(ep)
                self.ep_test = self.last_test
                if self.s.ref_score(t) > self.best_score:
                    self.new_best(t, ep)
                if s.stop_fn and self.stop(self.best, "best reward"):
                    stopped = True
                    self.ctx.note("stopped_in_test")
        lg = self.take("log_info", "T03")
        self.eq("T03", lg["step"], ep, "log-info-step")
        self.info(lg["d"], "T03")
        self.ctx.note("epochs")
        return stopped

    def info(self, d, aspect="T01"):
        s = self.s
        also = ("T01", aspect)
        g = lambda k: d[k] if isinstance(d, dict) else getattr(d, k)
        self.eq(also, g("gradient_step"), self.grad, "info-gradient-step")
        self.eq(also, (g("train_step"), g("train_episode")), (self.trsteps, self.treps) if s.train is not None else (0, 0), "info-train-counts")
        self.eq(also, (g("test_step"), g("test_episode")), (self.tsteps, self.teps) if s.test is not None else (0, 0), "info-test-counts")
        tm = g("timing")
        tm = lambda k, tm=tm: tm[k] if isinstance(tm, dict) else getattr(tm, k)
        self.eq(also, (tm("train_time_update"), tm("train_time_collect"), tm("test_time")), (self.utime, self.ctime, self.ttime), "info-times", "updates, training collections, evaluations", tol=1e-6)
        self.eq(also, tm("total_time"), tm("train_time") + tm("test_time"), "info-times", "total", tol=1e-6)
        self.eq(("T02", aspect.replace("T01", "T02")), (g("best_reward"), g("best_reward_std"), g("best_score")), (self.best, self.best_std, self.best_score), "info-best", tol=1e-9)

    def epoch_stats(self, st, ep):
        s = self.s
        self.eq("T01", st.epoch, ep, "epoch-number")
        if s.kind != "offline":
            self.ck("T01", st.train_collect_stat is self.ep_collect["stats"], "epoch-train-stat", "the last collection of the epoch")
        if self.ep_test is None:
            self.ck("T01", st.test_collect_stat is None, "epoch-test-stat")
        else:
            self.ck("T01", st.test_collect_stat is self.ep_test["stats"], "epoch-test-stat")
        if self.last_update is None:
            self.ck("T01", st.training_stat is None, "epoch-training-stat", "no update after an early stop")
        else:
            self.ck("T01", st.training_stat is self.last_update["stats"], "epoch-training-stat")
        self.info(st.info_stat)

    def end(self):
        self.ck("T01", self.peek()["k"] == "end", "sequence", f"{self.peek()['k']} after the end of training")
        for k, asp in QUEUED.items():
            self.ck(asp, not self.q[k], "unexpected-call", f"{len(self.q[k])} more calls of {k} than expected")
