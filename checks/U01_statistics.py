"""Running statistics and observation normalisation agree with the data seen so far."""
import copy

import numpy as np
import torch
from tianshou.data.stats import SequenceSummaryStats
from tianshou.env import DummyVectorEnv, VectorEnvNormObs
from tianshou.utils import MovAvg, RunningMeanStd
from vlib import envs as E
from vlib.core import Scenario

RULE = (
    "random streams of batches (any shapes, sizes, offsets, non-finite values) fed to the running statistics, and random "
    "reset/step sequences on normalising vector envs; every reported mean, deviation and normalised value is recomputed "
    "from the recorded raw data; distinct = (stream layout, op sequence)"
)
MIN = {"rms_updates": 1500, "norms": 800, "movavg_adds": 3000, "nonfinite": 500, "norm_env_steps": 1000, "frozen_steps": 200, "shared_stats": 40, "summaries": 300, "long_streams": 20}


def s_rms(ctx, rng):
    shape = tuple(int(x) for x in rng.integers(1, 4, size=int(rng.integers(0, 3))))
    clip = [10.0, None, 0.5, 2.0][int(rng.integers(4))]
    m0, s0 = (0.0, 1.0) if rng.random() < 0.6 else (float(rng.normal()), float(rng.uniform(0.5, 3)))
    kw = {} if rng.random() < 0.3 else {"mean": m0, "std": s0, "clip_max": clip}
    if not kw:
        m0, s0, clip = 0.0, 1.0, 10.0
    rms = RunningMeanStd(**kw)
    off, sc = float(rng.choice([0, 5, -300])), float(rng.choice([0.01, 1, 50]))
    data = []
    mean, std = np.full(shape, m0), np.full(shape, s0)
    for _ in range(int(rng.integers(1, 9))):
        if rng.random() < 0.7:
            b = rng.normal(off, sc, size=(int(rng.integers(1, 7)), *shape))
            if rng.random() < 0.2:
                b = np.round(b)
            keep = b.copy()
            rms.update(b)
            ctx.equal(b, keep, "input-modified", "")
            data.append(keep)
            al = np.concatenate(data)
            mean, std = al.mean(0), al.std(0)
            ctx.close(np.asarray(rms.mean), mean, "running-mean", "", rtol=1e-9, atol=1e-9)
            ctx.close(np.asarray(rms.var), std**2, "running-var", "", rtol=1e-7, atol=1e-9)
            ctx.equal(int(rms.count), len(al), "running-count", "")
            ctx.note("rms_updates")
        if rng.random() < 0.6:
            x = rng.normal(off, sc * 3, size=(int(rng.integers(1, 5)), *shape))
            keep = x.copy()
            got = rms.norm(x)
            want = (x - mean) / np.sqrt(std**2 + np.finfo(np.float32).eps)
            if clip:
                want = np.clip(want, -clip, clip)
            ctx.close(np.asarray(got), want, "normalised", "", rtol=1e-6, atol=1e-7)
            ctx.equal(x, keep, "input-modified", "norm")
            ctx.note("norms")
    ctx.sig(shape, clip, off, sc, len(data), round(float(np.sum(mean)), 6))


def s_rms_long(ctx, rng):
    """Long streams of blocks of all sizes whose level drifts: every value keeps the same weight."""
    rms = RunningMeanStd()
    data = []
    for k in range(int(rng.integers(8, 30))):
        b = rng.normal(k * rng.normal(), 1 + k, size=(int(rng.choice([1, 3, 200, 1000, 5000])), 2))
        rms.update(b)
        data.append(b)
        al = np.concatenate(data)
        ctx.close(np.asarray(rms.mean), al.mean(0), "running-mean", f"{len(al)} values", rtol=1e-8, atol=1e-8)
        ctx.close(np.asarray(rms.var), al.var(0), "running-var", f"{len(al)} values", rtol=1e-7, atol=1e-8)
        ctx.equal(int(rms.count), len(al), "running-count", "")
        ctx.note("rms_updates")
    ctx.note("long_streams", len(al) > 10_000)
    ctx.sig("long", len(al))


def s_movavg(ctx, rng):
    size = int(rng.choice([1, 2, 3, 5, 20, 100, 0, -1]))
    m = MovAvg(size)
    ref = []
    ctx.equal([m.get(), m.mean(), m.std()], [0.0, 0.0, 0.0], "empty", "")
    for _ in range(int(rng.integers(1, 15))):
        vals = []
        for _ in range(int(rng.integers(0 if rng.random() < 0.2 else 1, 6))):
            u = rng.random()
            v = float("nan") if u < 0.08 else float("inf") if u < 0.12 else -np.inf if u < 0.16 else float(np.round(rng.normal() * 8, 3))
            vals.append(v)
            ctx.note("nonfinite", not np.isfinite(v))
        form = ["list", "array", "tensor", "scalar", "f32"][int(rng.integers(5))]
        if form == "scalar":
            vals = vals[:1] or [1.0]
            arg = [vals[0], np.float64(vals[0]), torch.tensor(vals[0], dtype=torch.float64)][int(rng.integers(3))]
        elif form == "list":
            arg = list(vals)
        elif form == "array":
            arg = np.array(vals, float)
        elif form == "f32":
            arg = np.array(vals, np.float32)
            vals = [float(x) for x in arg]
        else:
            arg = torch.tensor(vals, dtype=torch.float64).reshape(-1, 1)
        out = m.add(arg)
        ref += [v for v in vals if np.isfinite(v)]
        if size > 0:
            ref = ref[-size:]
        want = float(np.mean(ref)) if ref else 0.0
        ctx.close(float(out), want, "moving-average", f"size={size} values={ref[-6:]}", rtol=1e-5, atol=1e-4)
        ctx.close([float(m.get()), float(m.mean())], [want, want], "moving-average", "", rtol=1e-5, atol=1e-4)
        ctx.close(float(m.std()), float(np.std(ref)) if ref else 0.0, "moving-std", "", rtol=1e-4, atol=1e-4)
        ctx.note("movavg_adds", len(vals))
    ctx.sig(size, len(ref), round(sum(ref), 3))


def s_norm_env(ctx, rng):
    n = int(rng.integers(1, 5))
    a = [int(rng.integers(2**31)), ["vec", "vec64", "int"][int(rng.integers(3))], "disc", int(rng.integers(1, 9)), 0.4, "plain", 0]
    fns = [lambda i=i: E.TagEnv(i, *a) for i in range(n)]
    twin = DummyVectorEnv(fns)
    upd = bool(rng.random() < 0.75)
    env = VectorEnvNormObs(DummyVectorEnv(fns), update_obs_rms=upd) if not upd or rng.random() < 0.5 else VectorEnvNormObs(DummyVectorEnv(fns))
    ctx.equal(env.update_obs_rms, upd, "update-flag", "")
    seen = []
    if not upd:
        rms = RunningMeanStd()
        d = rng.normal(2, 3, size=(5, 4))
        rms.update(d)
        env.set_obs_rms(rms)
        seen.append(d)
        ctx.check(env.get_obs_rms() is rms, "shared-stats", "")
        ctx.note("shared_stats")
    held, ops = [], []
    live = [False] * n

    def look(got, raw, what):
        if upd:
            seen.append(np.asarray(raw, float))
        al = np.concatenate(seen)
        want = np.clip((raw - al.mean(0)) / np.sqrt(al.var(0) + np.finfo(np.float32).eps), -10, 10)
        ctx.close(np.asarray(got, float), want.astype(float), "normalised-observation", what, rtol=1e-4, atol=1e-4)
        ctx.equal(int(env.get_obs_rms().count), len(al), "statistics-count", what)
        ctx.close(np.asarray(env.get_obs_rms().mean, float), al.mean(0), "statistics-mean", what, rtol=1e-5, atol=1e-5)
        held.append((got, copy.deepcopy(got)))

    for _ in range(int(rng.integers(4, 20))):
        ids = rng.permutation(n)[: int(rng.integers(1, n + 1))]
        arg = None if len(ids) == n and (list(ids) == sorted(ids)) else ids
        if rng.random() < 0.2 or not all(live[i] for i in ids):
            kw = {"seed": 3} if rng.random() < 0.3 else {}
            (o, i), (ro, ri) = env.reset(arg, **kw), twin.reset(arg, **kw)
            ops.append(("reset", tuple(ids)))
            look(o, ro, "reset")
            ctx.equal(list(i), list(ri), "reset-info", "")
            for j in ids:
                live[j] = True
        else:
            act = np.array([twin.workers[j].action_space.sample() for j in ids])
            got, raw = env.step(act, arg), twin.step(act, arg)
            ops.append(("step", tuple(ids)))
            look(got[0], raw[0], "step")
            for k in (1, 2, 3):
                ctx.equal(got[k], raw[k], "passed-through", f"result {k}")
            ctx.equal(list(got[4]), list(raw[4]), "passed-through", "info")
            for k, j in enumerate(ids):
                live[j] = not (raw[2][k] or raw[3][k])
            ctx.note("norm_env_steps")
            ctx.note("frozen_steps", not upd)
        ctx.trace.append(ops[-1])
    if upd and rng.random() < 0.5:  # a second environment uses the statistics without changing them
        ev = VectorEnvNormObs(DummyVectorEnv(fns), update_obs_rms=False)
        ev.set_obs_rms(env.get_obs_rms())
        before = copy.deepcopy(env.get_obs_rms().__dict__)
        o, _ = ev.reset()
        al = np.concatenate(seen)
        t2 = DummyVectorEnv(fns)
        ro, _ = t2.reset()
        ctx.close(np.asarray(o, float), np.clip((ro - al.mean(0)) / np.sqrt(al.var(0) + np.finfo(np.float32).eps), -10, 10).astype(float), "shared-stats", "", rtol=1e-4, atol=1e-4)
        ctx.equal(env.get_obs_rms().__dict__, before, "frozen-stats-changed", "")
        ctx.note("shared_stats")
    for g, w in held:
        ctx.equal(g, w, "earlier-result-changed", "")
    ctx.equal(len(env), n, "length", "")
    env.close()
    ctx.sig(n, upd, a[1:], tuple(ops))


def s_summary(ctx, rng):
    x = rng.normal(size=int(rng.integers(1, 30))) * 10
    form = [x, list(x), x.astype(np.float32)][int(rng.integers(3))]
    s = SequenceSummaryStats.from_sequence(form)
    ctx.close([s.mean, s.std, s.max, s.min], [np.mean(x), np.std(x), np.max(x), np.min(x)], "summary", "", rtol=1e-5, atol=1e-5)
    ctx.note("summaries")
    ctx.sig(len(x), round(float(x[0]), 6))


SCENARIOS = [Scenario("rms", s_rms, 600, 12000), Scenario("rms_long", s_rms_long, 40, 600), Scenario("movavg", s_movavg, 300, 8000), Scenario("norm_env", s_norm_env, 200, 6000), Scenario("summary", s_summary, 320, 4000)]
