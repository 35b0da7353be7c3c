"""Random sampling returns only stored transitions, the right number, uniformly, with the matching data."""
import numpy as np
from vlib.bufmodel import Driver, Spec
from vlib.core import Scenario

RULE = (
    "sampling requests of every kind (positive, zero, negative, unspecified, larger than the buffer) after random "
    "histories; every returned index is checked against the reference contents and the returned data against the "
    "indices; frequencies are chi-square tested; distinct = (class, fill state, request)"
)
MIN = {"samples": 500, "drawn": 10000, "uniform_tests": 20, "avail_checks": 150}


def hist(ctx, rng, d, n, p_reset=0.03):
    for _ in range(n):
        if rng.random() < p_reset:
            d.reset()
        else:
            d.add()
    if not len(d.model):
        d.add()


def s_valid(ctx, rng):
    d = Driver(ctx, rng)
    hist(ctx, rng, d, int(rng.integers(1, 40)))
    for _ in range(6):
        if rng.random() < 0.5:
            d.add()
        slots = d.model.slots()
        k = int(rng.choice([1, 2, 5, 17, 64]))
        b, idx = d.buf.sample(k)
        idx = np.asarray(idx).astype(int)
        ctx.equal(idx.shape, (k,), "sample-size", f"sample({k})")
        bad = set(idx.tolist()) - set(slots)
        ctx.check(not bad, "invalid-index", lambda: f"sampled {bad}, stored {slots}")
        d.compare(b, idx.tolist(), f"sample({k})")
        ctx.note("samples")
        ctx.note("drawn", k)
        b, idx = d.buf.sample(0)
        ctx.equal(np.asarray(idx).astype(int), np.array(slots), "all-chronological", "sample(0)")
        d.compare(b, slots, "sample(0)")
        idx = np.asarray(d.buf.sample_indices(None)).astype(int)
        ctx.equal(len(idx), len(d.model), "none-count", "sample_indices(None)")
        ctx.check(set(idx.tolist()) <= set(slots), "invalid-index", "sample_indices(None)")
        ctx.equal(len(d.buf.sample_indices(-1)), 0, "negative", "sample_indices(-1)")
        ctx.sig(d.kind, tuple((len(r.items), r.ptr) for r in d.model.rings), k)


def chi2_ok(counts, probs, z=7.5):
    """Very conservative goodness-of-fit: Wilson-Hilferty z-score bound."""
    n = counts.sum()
    e = n * probs
    x = float(((counts - e) ** 2 / e).sum())
    k = len(counts) - 1
    if k == 0:
        return True, 0.0
    zz = ((x / k) ** (1 / 3) - (1 - 2 / (9 * k))) / np.sqrt(2 / (9 * k))
    return zz < z, zz


def s_uniform(ctx, rng):
    d = Driver(ctx, rng, kind=["single", "vector", "manager"][int(rng.integers(3))], spec=Spec(rng, obs="vec", rew_dim=0))
    hist(ctx, rng, d, int(rng.integers(1, 40)))
    slots = d.model.slots()
    n = 200 * len(slots)
    idx = np.concatenate([np.asarray(d.buf.sample_indices(m)).astype(int) for m in (n // 2, n - n // 2) if m > 0])
    pos = {s: i for i, s in enumerate(slots)}
    ctx.check(set(idx.tolist()) <= set(slots), "invalid-index", "")
    c = np.bincount([pos[i] for i in idx.tolist()], minlength=len(slots))
    ok, z = chi2_ok(c, np.full(len(slots), 1 / len(slots)))
    ctx.check(ok, "not-uniform", lambda: f"{d.kind} counts {dict(zip(slots, c.tolist()))} z={z:.1f}")
    ctx.note("uniform_tests")
    ctx.note("drawn", n)


def s_avail(ctx, rng):
    """With stacking and 'available only', every sampled index has a complete stack within its episode."""
    k = int(rng.integers(2, 6))
    kind = ["single", "vector", "manager"][int(rng.integers(3))]
    d = Driver(ctx, rng, kind=kind, spec=Spec(rng, obs="vec", rew_dim=0, info=True), stack_num=k, sample_avail=True, ignore_obs_next=bool(rng.random() < 0.5), max_ep=int(rng.integers(1, 12)))
    for _ in range(int(rng.integers(3, 50))):
        d.add()
        pm = d.model.prev_map()

        def depth(i):
            n = 0
            while pm[i] != i and n < 50:
                i, n = pm[i], n + 1
            return n

        want = [s for s in d.model.slots() if depth(s) >= k - 1]
        got = np.asarray(d.buf.sample_indices(0)).astype(int)
        ctx.equal(got, np.array(want, int), "available", f"stack {k}")
        ctx.note("avail_checks")
        if want:
            m = int(rng.integers(1, 20))
            idx = np.asarray(d.buf.sample_indices(m)).astype(int)
            ctx.equal(len(idx), m, "sample-size", "")
            ctx.check(set(idx.tolist()) <= set(want), "incomplete-stack", lambda: f"{idx} not in {want}")
        ctx.equal(len(d.buf.sample_indices(-1)), 0, "negative", "")
        ctx.sig(kind, k, len(want), len(d.model))


SCENARIOS = [
    Scenario("valid", s_valid, 180, 2500),
    Scenario("uniform", s_uniform, 40, 500),
    Scenario("avail", s_avail, 40, 500),
]
