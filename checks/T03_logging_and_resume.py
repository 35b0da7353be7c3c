"""Loggers and resuming: what is written when, that it can be read back, and that training continues where it was saved."""
import os
import shutil
import tempfile
import time
import warnings

import numpy as np
from checks.T01_trainer_protocol import drive
from matplotlib.figure import Figure
from tensorboard.backend.event_processing import event_accumulator
from tensorboard.summary.writer import event_file_writer as efw
from torch.utils.tensorboard import SummaryWriter
from vlib import train as T
from vlib.core import Scenario

from tianshou.utils import BaseLogger, MovAvg, TensorboardLogger

RULE = (
    "random training runs, logging call sequences and restarts; every logging call and every value written is compared with the "
    "call history (interval rule, flattening, counters, smoothing) and read back from disk; distinct = (trainer/options, "
    "intervals, restart points)"
)
MIN = {"runs": 120, "log_calls": 6000, "written": 1500, "suppressed": 1500, "read_back": 800, "restarts": 40, "resumed_epochs": 40, "finished_restarts": 8, "checkpoints": 80, "long": 2, "wandb_lives": 40, "histograms": 40}


class Mem(BaseLogger):
    def __init__(self, **kw):
        super().__init__(**kw)
        self.out = []

    def prepare_dict_for_logging(self, d):
        return dict(d)

    def write(self, kind, step, data):
        self.out.append((kind, step, dict(data)))

    def finalize(self):
        pass

    def save_data(self, *a):
        pass

    def restore_data(self):
        return 0, 0, 0

    @staticmethod
    def restore_logged_data(p):
        return {}


KINDS = {"train": "train/env_step", "test": "test/env_step", "update": "update/gradient_step", "info": "info/epoch"}


def s_protocol(ctx, rng):
    ses = T.Session(rng)
    drive(ctx, rng, "T03", ses)
    ctx.sig(ses.kind, ses.c["spe"], ses.c["bs"], ses.c["test"], len(ses.ev))


def rand_data(rng, depth=0):
    d = {}
    for k in range(int(rng.integers(1, 4))):
        u = rng.random()
        key = ["a", "b", "loss", "n_x", 3][int(rng.integers(5))]
        if u < 0.35:
            d[key] = float(np.float32(rng.normal()))
        elif u < 0.5:
            d[key] = int(rng.integers(-5, 1000))
        elif u < 0.6:
            d[key] = np.float32(rng.normal())
        elif u < 0.7:
            d[key] = rng.normal(size=3)
        elif u < 0.78:
            d[key] = ["text", None][int(rng.integers(2))]
        elif depth < 3:
            d[key] = rand_data(rng, depth + 1)
    return d


def flat(d, pre=""):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out.update(flat(v, f"{pre}{k}/"))
        elif isinstance(v, (int, float, np.number)) and not isinstance(v, bool):
            out[f"{pre}{k}"] = v
    return out


def s_interval(ctx, rng):
    """Interval rule of each scope, independent of the others."""
    iv = {f"{k}_interval": int(rng.integers(1, 12)) for k in KINDS}
    lg = Mem(**iv)
    last = {k: -1 for k in KINDS}
    step = {k: 0 for k in KINDS}
    want = []
    for _ in range(int(rng.integers(10, 80))):
        k = list(KINDS)[int(rng.integers(4))]
        step[k] += int(rng.integers(0, 7))
        d = rand_data(rng)
        getattr(lg, f"log_{k}_data")(d, step[k])
        ctx.note("log_calls")
        if step[k] - last[k] >= iv[f"{k}_interval"]:
            want.append((KINDS[k], step[k], d))
            last[k] = step[k]
            ctx.note("written")
        else:
            ctx.note("suppressed")
        ctx.equal([w[:2] for w in lg.out], [w[:2] for w in want], "interval-rule", f"{iv} after {k} {step[k]}")
    ctx.equal([w[2] for w in lg.out], [w[2] for w in want], "logged-content", "")
    ctx.sig(sorted(iv.items()), len(want))


def nested(d):
    out = {}
    for k, v in d.items():
        cur = out
        *path, leaf = k.split("/")
        for p in path:
            cur = cur.setdefault(p, {})
        cur[leaf] = v
    return out


def s_board(ctx, rng):
    """What is logged to disk can be read back, in order and with its steps."""
    tmp = tempfile.mkdtemp(prefix="verif-t03-")
    try:
        iv = {f"{k}_interval": int(rng.integers(1, 6)) for k in KINDS}
        w = SummaryWriter(tmp)
        lg = TensorboardLogger(w, **iv, write_flush=bool(rng.random() < 0.7))
        last = {k: -1 for k in KINDS}
        step = {k: 0 for k in KINDS}
        want: dict[str, list] = {}
        keys = {k: rand_data(rng) for k in KINDS}
        for _ in range(int(rng.integers(3, 30))):
            k = list(KINDS)[int(rng.integers(4))]
            step[k] += int(rng.integers(1, 6))
            d = rand_data(rng) if rng.random() < 0.3 else keys[k]
            keep = repr(d)
            getattr(lg, f"log_{k}_data")(d, step[k])
            ctx.equal(repr(d), keep, "log-data-changed", "the logger modified what it was given")
            ctx.note("log_calls")
            if step[k] - last[k] >= iv[f"{k}_interval"]:
                last[k] = step[k]
                want.setdefault(KINDS[k], []).append(step[k])
                for kk, v in flat(d).items():
                    want.setdefault(f"{k}/{kk}", []).append(float(v))
                ctx.note("written")
            else:
                ctx.note("suppressed")
        hists, figs = {}, {}
        for _ in range(int(rng.integers(0, 5))):
            k = list(KINDS)[int(rng.integers(4))]
            step[k] += 1
            v = float(np.float32(rng.normal()))
            h = rng.normal(size=int(rng.integers(2, 30))) * 4
            d = {"zz_dist": h, "zz_pair": v}
            if rng.random() < 0.4:
                d["zz_pic"] = Figure(figsize=(1, 1))
                figs.setdefault(f"{k}/zz_pic", []).append(step[k])
            lg.write(KINDS[k], step[k], d)
            want.setdefault(KINDS[k], []).append(step[k])
            want.setdefault(f"{k}/zz_pair", []).append(v)
            hists.setdefault(f"{k}/zz_dist", []).append((step[k], h))
            ctx.note("histograms")
        lg.finalize()
        ea = event_accumulator.EventAccumulator(tmp, size_guidance={"histograms": 0, "images": 0, "scalars": 0})
        ea.Reload()
        ctx.equal(sorted(ea.Tags()["histograms"]), sorted(hists), "histograms", "")
        ctx.equal(sorted(ea.Tags()["images"]), sorted(figs), "figures", "")
        for t, w in hists.items():
            got = ea.Histograms(t)
            ctx.equal([e.step for e in got], [x for x, _ in w], "histograms", t)
            for e, (_, h) in zip(got, w):
                q = e.histogram_value
                ctx.close([q.min, q.max, q.num, q.sum], [h.min(), h.max(), len(h), h.sum()], "histograms", t, rtol=1e-5, atol=1e-5)
        for t, w in figs.items():
            ctx.equal([e.step for e in ea.Images(t)], w, "figures", t)
        # a key cannot be both a value and a namespace; such histories have no nested form
        ks = set(want)
        if any(a != b and b.startswith(a + "/") for a in ks for b in ks):
            ctx.note("ambiguous_keys")
            return
        got = TensorboardLogger.restore_logged_data(tmp)
        exp = nested({k: np.array(v, dtype=np.float64) for k, v in want.items()})
        ctx.close(got, exp, "read-back", str(iv), rtol=1e-6, atol=1e-6)
        ctx.note("read_back", sum(len(v) for v in want.values()))
        ctx.sig(sorted(iv.items()), sorted(ks))
        ctx.sample({"intervals": iv, "keys": sorted(ks)[:12]})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def s_long(ctx, rng):
    """Long histories are read back completely."""
    tmp = tempfile.mkdtemp(prefix="verif-t03l-")
    try:
        n = int(rng.integers(10050, 12500))
        w = SummaryWriter(tmp, max_queue=1000)
        lg = TensorboardLogger(w, write_flush=False, train_interval=1, test_interval=1)
        v = rng.normal(size=n).astype(np.float32)
        for k in range(n):
            lg.log_test_data({"x": float(v[k])}, k + 1)
            if k % 1000 == 0:
                lg.save_data(k // 1000, k, 2 * k, lambda *a: "")
        lg.finalize()
        w.close()
        got = TensorboardLogger.restore_logged_data(tmp)["test"]
        ctx.close(got["x"], v.astype(float), "read-back-long", f"{n} values", rtol=1e-6)
        ctx.equal([int(x) for x in got["env_step"]], list(range(1, n + 1)), "read-back-long", f"{n} steps")
        last = (n - 1) // 1000
        ctx.equal(tuple(TensorboardLogger(SummaryWriter(tmp)).restore_data()), (last, last * 1000, last * 2000), "restore-long", f"{n} values")
        ctx.note("read_back", n)
        ctx.note("long")
        ctx.sig("long", n)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Later:
    """Each restart happens in a later second, as event files of one run are told apart by their second."""

    def __init__(self, off):
        self.off = off

    def __getattr__(self, k):
        return getattr(time, k)

    def time(self):
        return time.time() + self.off


def writer(tmp, life):
    keep = efw.time
    efw.time = Later(10 * life)
    try:
        return SummaryWriter(tmp)
    finally:
        efw.time = keep


class Crash(Exception):
    pass


def s_restart(ctx, rng):
    """Stop training somewhere, restart with a new trainer on the same log: it continues from the last checkpoint."""
    tmp = tempfile.mkdtemp(prefix="verif-t03r-")
    try:
        si = int(rng.integers(1, 4))
        me = int(rng.integers(2, 7))
        kind = ["on", "off", "offline"][int(rng.integers(3))]
        seed = int(rng.integers(2**31))
        force = dict(max_epoch=me, stop=False, ups=1.0, prefill=0, metric=False, rew_dim=0, other_policy=False)
        saved = []  # (epoch, env_step, gradient_step) of each checkpoint

        crash_at = int(rng.integers(1, me + 1))  # epoch in which the first process dies
        n_restarts = int(rng.integers(1, 4))
        expect = (0, 0, 0)
        for life in range(n_restarts + 1):
            w = writer(tmp, life)
            lg = TensorboardLogger(w, save_interval=si, train_interval=5, update_interval=7)
            ses = T.Session(np.random.default_rng(seed + life), kind=kind, **force, logger=lg)
            ses.c["resume"] = (0, 0, 0)
            die = crash_at if life < n_restarts else None
            upd: list = []

            def ckpt(e, s, g):
                saved.append((e, s, g))
                ctx.note("checkpoints")
                return "x"

            ses.ckpt_fn = ckpt
            tr = ses.trainer()
            epochs, counters = [], []
            try:
                it = iter(tr)
                ctx.equal((tr.start_epoch, tr.env_step, getattr(tr, "_gradient_step", expect[2])), expect, "restored-counters", f"life {life}, saved {saved}")
                for st in it:
                    epochs.append(st.epoch)
                    counters.append((tr.env_step, st.info_stat.gradient_step))
                    if die is not None and st.epoch >= die:
                        raise Crash
            except Crash:
                pass
            if life:
                ctx.note("restarts")
            want_epochs = list(range(expect[0] + 1, (min(die, me) if die else me) + 1))
            if die is not None and expect[0] + 1 > die:
                want_epochs = want_epochs or ([expect[0] + 1] if expect[0] < me else [])
            ctx.equal(epochs, want_epochs, "epochs-after-restart", f"life {life}, from {expect}, until {die or me}")
            ctx.note("resumed_epochs", len(epochs) if life else 0)
            ctx.note("finished_restarts", not epochs)
            # counters grow from the restored values: one entry per update, one step per collected step
            n_upd = sum(1 for e in ses.ev if e["k"] == "update")
            n_env = sum(e["steps"] for e in ses.ev if e["k"] == "collect" and e["who"] == "train")
            if epochs:
                if kind != "on":
                    ctx.equal(counters[-1][1], expect[2] + n_upd, "gradient-step-continues", f"life {life} from {expect}")
                if kind != "offline":
                    ctx.equal(counters[-1][0], expect[1] + n_env, "env-step-continues", f"life {life} from {expect}")
            # checkpoints: every save_interval epochs, counted from the last one saved
            lastsave = expect[0] if life and saved_before else -1
            want_saved = []
            for e, cnt in zip(epochs, counters):
                if e - lastsave >= si:
                    want_saved.append((e, cnt[0], cnt[1]))
                    lastsave = e
            new = saved[n_before:] if life else saved
            ctx.equal(new, want_saved, "checkpoint-schedule", f"life {life}, interval {si}, epochs {epochs}")
            lg.finalize()
            expect = saved[-1] if saved else (0, 0, 0)
            saved_before, n_before = bool(saved), len(saved)
            crash_at = int(rng.integers(expect[0] + 1, me + 1)) if expect[0] < me else me
        ctx.sig(kind, si, me, n_restarts, tuple(saved))
        ctx.sample({"trainer": kind, "save_interval": si, "max_epoch": me, "lives": n_restarts + 1, "checkpoints": saved[:12]})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class FakeWandb:
    """Stands in for the wandb package (which is not installed): records what the logger sends to the service and serves it again."""

    def __init__(self):
        self.run = None
        self.inits: list[dict] = []
        self.store: dict[str, list] = {}
        outer = self

        class Artifact:
            def __init__(self, name, type, metadata=None):  # noqa: A002
                self.name, self.type, self.metadata, self.files = name, type, dict(metadata or {}), {}

            def add_file(self, path):
                with open(path, "rb") as f:
                    self.files[os.path.basename(path)] = f.read()

            def download(self, root=None):
                os.makedirs(root, exist_ok=True)
                for n, c in self.files.items():
                    with open(os.path.join(root, n), "wb") as f:
                        f.write(c)
                return root

        class Run:
            def __init__(self, kw):
                self.id, self.done = kw.get("id") or "r1", False

            def _label(self, **kw):
                pass

            def log_artifact(self, a):
                outer.store.setdefault(a.name, []).append(a)
                return a

            def use_artifact(self, name):
                base, _, tag = name.partition(":")
                return outer.store[base][-1 if tag in ("", "latest") else int(tag[1:])]

            def finish(self, *a, **k):
                self.done = True

        self.Artifact, self.Run = Artifact, Run

    def Settings(self, **kw):  # noqa: N802
        return kw

    def init(self, **kw):
        self.inits.append(kw)
        return self.Run(kw)


def s_wandb(ctx, rng):
    """The W&B logger with the service replaced by a recorder: options, logged values, checkpoints and restoring."""
    import tianshou.utils.logger.wandb as wm
    from tianshou.highlevel.logger import LoggerFactoryDefault

    tmp = tempfile.mkdtemp(prefix="verif-t03w-")
    keep = getattr(wm, "wandb", None)
    wm.wandb = fake = FakeWandb()
    try:
        iv = {f"{k}_interval": int(rng.integers(1, 6)) for k in KINDS}
        si, flush = int(rng.integers(1, 4)), bool(rng.random() < 0.5)
        rid = ["abc", "x1"][int(rng.integers(2))]
        saved: list = []
        last = -1
        epoch = env = grad = 0
        for life in range(int(rng.integers(1, 4))):
            ld = os.path.join(tmp, f"l{life}")
            os.makedirs(ld)
            if rng.random() < 0.3:
                iv_, flush_ = dict(train_interval=1000, test_interval=1, update_interval=1000, info_interval=1), True
                o = dict(wand_entity=["e", None][int(rng.integers(2))], wandb_project=["p", "q"][int(rng.integers(2))], group=["g", None][int(rng.integers(2))], job_type=["j", None][int(rng.integers(2))])
                lf = LoggerFactoryDefault(logger_type="wandb", save_interval=si, **o)
                ctx.check(lf.get_logger_class() is wm.WandbLogger, "wandb-options", "logger class")
                lg = lf.create_logger(ld, "a/b", rid, {"k": life})
                sent = fake.inits[-1]
                want = dict(name="a__b", id=rid, config={"k": life}, entity=o["wand_entity"], project=o["wandb_project"], group=o["group"], job_type=o["job_type"], dir=ld)
                ctx.equal({k: sent.get(k) for k in want}, want, "wandb-options", f"{o}")
                w = lg.writer
            else:
                iv_, flush_ = iv, flush
                lg = wm.WandbLogger(**iv, save_interval=si, write_flush=flush, run_id=rid, project="q", log_dir=ld)
                ctx.equal(fake.inits[-1].get("project"), "q", "wandb-options", "project")
                ctx.raises(lambda: lg.log_test_data({"a": 1.0}, 10_000), Exception, "wandb-needs-writer", "logging before load()")
                w = SummaryWriter(ld)
                lg.load(w)
                lg.last_log_test_step = -1
            if life:
                if saved:
                    os.remove(saved[-1][3])
                    ctx.equal(tuple(lg.restore_data()), saved[-1][:3], "wandb-restore", f"life {life}: {saved}")
                    with open(saved[-1][3]) as f:
                        ctx.equal(f.read(), str(saved[-1][:3]), "wandb-restore", "the checkpoint file is brought back")
                    ctx.note("restarts")
                    epoch, env, grad = saved[-1][:3]
                    last = epoch
            flushed: list = []
            wf = w.flush
            w.flush = lambda *a, **k: (flushed.append(1), wf(*a, **k))[1]
            lastlog = {k: {"train": lg.last_log_train_step, "test": lg.last_log_test_step, "update": lg.last_log_update_step, "info": lg.last_log_info_step}[k] for k in KINDS}
            want_v: dict[str, list] = {}
            for _ in range(int(rng.integers(1, 6))):
                epoch += 1
                env += int(rng.integers(1, 9))
                grad += int(rng.integers(0, 5))
                for k, step in (("train", env), ("update", grad), ("test", env), ("info", epoch)):
                    v = float(np.float32(rng.normal()))
                    n0 = len(flushed)
                    getattr(lg, f"log_{k}_data")({"v": v, "arr": np.zeros(3), "sub": {"u": epoch}}, step)
                    ctx.note("log_calls")
                    due = step - lastlog[k] >= iv_[f"{k}_interval"]
                    ctx.note("written" if due else "suppressed")
                    if due:
                        lastlog[k] = step
                        want_v.setdefault(k, []).append((step, v, epoch))
                        ctx.equal(len(flushed) > n0, flush_, "wandb-flush", f"write_flush={flush_}")

                def ckpt(e, s, g):
                    p = os.path.join(tmp, f"ck_{e}_{len(saved)}.pth")
                    with open(p, "w") as f:
                        f.write(str((e, s, g)))
                    saved.append((e, s, g, p))
                    ctx.note("checkpoints")
                    return p

                n0 = len(saved)
                lg.save_data(epoch, env, grad, ckpt)
                due = epoch - last >= si
                ctx.equal(len(saved) - n0, int(due), "wandb-checkpoint", f"epoch {epoch}, last {last}, interval {si}")
                if due:
                    last = epoch
                    ctx.equal(saved[-1][:3], (epoch, env, grad), "wandb-checkpoint", "arguments")
            lg.finalize()
            ctx.check(lg.wandb_run.done, "wandb-finalize", "the run is finished")
            got = wm.WandbLogger.restore_logged_data(ld)
            for k in KINDS:
                rows = want_v.get(k, [])
                if not rows:
                    continue
                g = got[k]
                ctx.close([g["v"], g["sub"]["u"]], [np.array([r[1] for r in rows]), np.array([float(r[2]) for r in rows])], "wandb-read-back", f"{k} {iv_}", rtol=1e-6)
                ctx.equal([int(x) for x in g[KINDS[k].split("/")[1]]], [r[0] for r in rows], "wandb-read-back", f"{k} steps")
                ctx.note("read_back", len(rows))
        ctx.note("wandb_lives", life + 1)
        ctx.sig("wandb", tuple(iv.values()), si, flush, len(saved))
    finally:
        if keep is None:
            del wm.wandb
        else:
            wm.wandb = keep
        shutil.rmtree(tmp, ignore_errors=True)


def s_movavg(ctx, rng):
    size = int(rng.choice([0, 1, 2, 5, 100]))
    m = MovAvg(size)
    ref = []
    import torch

    for _ in range(int(rng.integers(1, 150))):
        k = int(rng.integers(4))
        v = rng.normal(size=int(rng.integers(1, 5)))
        v[rng.random(len(v)) < 0.15] = [np.nan, np.inf, -np.inf][int(rng.integers(3))]
        if k == 0:
            v = v[:1]
            got = m.add(float(v[0]))
        elif k == 1:
            got = m.add(list(v))
        elif k == 2:
            got = m.add(v)
        else:
            got = m.add(torch.as_tensor(v))
        ref += [x for x in v if np.isfinite(x)]
        cur = ref[-size:] if size > 0 else ref
        ctx.close(got, float(np.mean(cur)) if cur else 0.0, "moving-average", f"size {size}", rtol=1e-9, atol=1e-12)
        ctx.close((m.get(), m.mean(), m.std()), (got, got, float(np.std(cur)) if cur else 0.0), "moving-average", f"size {size}", rtol=1e-9, atol=1e-12)
    ctx.note("moving_averages", len(ref))
    ctx.sig(size, len(ref))


SCENARIOS = [
    Scenario("protocol", s_protocol, 150, 4000),
    Scenario("interval", s_interval, 150, 4000),
    Scenario("board", s_board, 110, 1500),
    Scenario("restart", s_restart, 60, 1200),
    Scenario("long", s_long, 2, 20, 120),
    Scenario("wandb", s_wandb, 40, 800),
    Scenario("movavg", s_movavg, 40, 1000),
]
