"""Prioritized replay: sum tree, priorities, sampling distribution and importance weights."""
import numpy as np
import torch
from tianshou.data import PrioritizedReplayBuffer, PrioritizedVectorReplayBuffer, ReplayBuffer, SegmentTree
from vlib.bufmodel import Driver, Spec, single_of
from vlib.core import Scenario

RULE = (
    "operation sequences on the sum tree against a plain array (exact dyadic values), and histories of add/update/"
    "sample/reset on prioritized buffers against an explicit priority table; sampling frequencies are chi-square "
    "tested; distinct = (tree size, operation, position) and (buffer kind, alpha, beta, fill state)"
)
MIN = {"tree_ops": 2000, "prefix_queries": 2000, "weight_reads": 500, "priority_updates": 300, "freq_tests": 20, "imports": 30}


def s_tree(ctx, rng):
    n = int(rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 33, 64, 100]))
    t, a = SegmentTree(n), np.zeros(n)
    ctx.equal(len(t), n, "tree-len", "")
    for _ in range(int(rng.integers(5, 40))):
        u = rng.random()
        if u < 0.45:
            k = int(rng.integers(1, n + 4))
            idx = rng.integers(0, n, k)
            val = rng.integers(0, 64, k) / 8.0
            if rng.random() < 0.3:
                val[rng.random(k) < 0.5] = 0
            t[idx.copy()] = val.copy() if rng.random() < 0.7 else val.astype(np.float32)
            a[idx] = val
            ctx.trace.append(("set", idx.tolist(), val.tolist()))
        elif u < 0.55:
            i, v = int(rng.integers(0, n)), float(rng.integers(0, 64)) / 8
            t[i] = v
            a[i] = v
            ctx.trace.append(("set1", i, v))
        ctx.note("tree_ops")
        ctx.equal(np.asarray(t[np.arange(n)]), a, "tree-read", "")
        ctx.equal(float(t.reduce()), float(a.sum()), "tree-total", "")
        s, e = sorted(int(x) for x in rng.integers(0, n + 1, 2))
        ctx.equal(float(t.reduce(s, e)), float(a[s:e].sum()), "tree-range", f"reduce({s},{e})")
        if n > 1:
            ne = -int(rng.integers(1, n))
            ctx.equal(float(t.reduce(0, ne)), float(a[:ne].sum()), "tree-range", f"reduce(0,{ne})")
            ctx.equal(float(t.reduce(s)), float(a[s:].sum()), "tree-range", f"reduce({s})")
        tot = float(a.sum())
        if tot > 0:
            q = rng.integers(0, int(tot * 16), int(rng.integers(1, 8))) / 16.0
            cum = np.cumsum(a)
            want = np.array([int(np.argmax(v <= cum)) for v in q])
            ctx.equal(np.asarray(t.get_prefix_sum_idx(q.copy())), want, "prefix-search", lambda: f"{q} in {a}")
            ctx.equal(t.get_prefix_sum_idx(float(q[0])), int(want[0]), "prefix-search", "scalar")
            ctx.note("prefix_queries", len(q))
        ctx.sig(n, s, e)
    for bad in (-1, n):
        ctx.raises(lambda: t.__setitem__(np.array([bad]), np.array([1.0])), AssertionError, "tree-out-of-range", str(bad))


def ratio_ok(w, p, beta):
    """w proportional to p**-beta."""
    w, p = np.asarray(w, float), np.asarray(p, float)
    r = w * p**beta
    return np.allclose(r, r[0], rtol=2e-4)


def s_prio(ctx, rng):
    kind = ["prio", "priovec"][int(rng.integers(2))]
    alpha, beta = float(rng.uniform(0.2, 1.2)), float(rng.choice([0.0, 0.4, 1.0]))
    norm = bool(rng.random() < 0.6)
    d = Driver(ctx, rng, kind=kind, spec=Spec(rng, obs="vec", rew_dim=0))
    sizes = [r.size for r in d.model.rings]
    if kind == "prio":
        d.buf = PrioritizedReplayBuffer(sizes[0], alpha=alpha, beta=beta, weight_norm=norm)
    else:
        d.buf = PrioritizedVectorReplayBuffer(sum(sizes), len(sizes), alpha=alpha, beta=beta, weight_norm=norm)
    table: dict[int, float] = {}
    mx = 1.0
    eps = float(np.finfo(np.float32).eps)
    ctx.trace.append((kind, alpha, beta, norm))
    for _ in range(int(rng.integers(5, 50))):
        u = rng.random()
        if u < 0.55 or not table:
            for w in d.add():
                table[w[0]] = mx
        elif u < 0.80:
            slots = d.model.slots()
            k = int(rng.integers(1, 8))
            idx = np.array([slots[int(i)] for i in rng.integers(0, len(slots), k)])
            new = rng.normal(size=k) * float(rng.choice([0.01, 1, 10]))
            if rng.random() < 0.15:
                new[0] = 0.0
            d.buf.update_weight(idx, torch.as_tensor(new) if rng.random() < 0.4 else new)
            for i, v in zip(idx.tolist(), new.tolist()):
                table[i] = abs(v) + eps
                mx = max(mx, abs(v) + eps)
            ctx.note("priority_updates")
            ctx.trace.append(("update", idx.tolist(), new.tolist()))
        elif u < 0.84:
            beta = float(rng.choice([0.0, 0.3, 0.7, 1.0]))
            d.buf.set_beta(beta)
            ctx.trace.append(("beta", beta))
        elif u < 0.88:
            d.reset(False)
            table, mx = {}, 1.0
        elif u < 0.93 and kind == "prio" and d.model.rings[0].items[-1][1]["done"]:
            ln = int(rng.integers(1, sizes[0] + 1))  # transitions taken over from another buffer are new ones too
            recs = [d.spec.rec(9000 + t, 9000, t, 0.5, t == ln - 1, False) for t in range(ln)]
            src = ReplayBuffer(ln)
            for r in recs:
                src.add(single_of(r))
            d.buf.update(src)
            for r in recs:
                table[d.model.rings[0].put(r)] = mx
            ctx.note("imports")
            ctx.trace.append(("import", ln))
        if not table:
            continue
        slots = d.model.slots()
        ctx.equal(sorted(table), sorted(slots), "model-mismatch", "")
        pick = np.array([slots[int(i)] for i in rng.integers(0, len(slots), int(rng.integers(1, 9)))])
        p = np.array([table[int(i)] for i in pick]) ** alpha
        w = np.asarray(d.buf.get_weight(pick), float)
        ctx.check(ratio_ok(w, p, beta), "importance-weights", lambda: f"get_weight {w} priorities {p} beta {beta}")
        bw = np.asarray(d.buf[pick].weight, float)
        if norm:
            ctx.close(bw, (p / p.min()) ** -beta, "batch-weight", f"normalised, beta {beta}", rtol=2e-4)
        else:
            ctx.check(ratio_ok(bw, p, beta), "batch-weight", lambda: f"{bw} {p} beta {beta}")
            ctx.close(bw, w, "batch-weight", "without normalisation", rtol=1e-6)
        ctx.close(float(np.asarray(d.buf.get_weight(int(pick[0])))), w[0], "importance-weights", "scalar index", rtol=1e-6)
        k = int(rng.integers(1, 20))
        b, idx = d.buf.sample(k)
        ctx.equal(np.asarray(idx).shape, (k,), "sample-size", "")
        ctx.check(set(np.asarray(idx).tolist()) <= set(slots), "invalid-index", lambda: f"{idx} {slots}")
        d.compare(b, np.asarray(idx).tolist(), "sample")
        sp = np.array([table[int(i)] for i in idx]) ** alpha
        if norm:
            ctx.close(np.asarray(b.weight, float), (sp / sp.min()) ** -beta, "batch-weight", "sampled", rtol=2e-4)
        ctx.note("weight_reads")
        ctx.sig(kind, len(slots), round(beta, 1), norm, tuple(r.ptr for r in d.model.rings))
    # sampling frequencies follow the priorities
    if table and rng.random() < 0.6:
        slots = d.model.slots()
        p = np.array([table[s] for s in slots]) ** alpha
        p = p / p.sum()
        big = p * 6000 >= 8
        if big.sum() >= 2:
            idx = np.asarray(d.buf.sample_indices(6000))
            c = np.array([(idx == s).sum() for s in slots])
            z = (c - 6000 * p) / np.sqrt(6000 * p * (1 - p) + 1e-9)
            ctx.check(np.all(np.abs(z[big]) < 7.5), "sampling-distribution", lambda: f"counts {c} expected {6000 * p}")
            ctx.note("freq_tests")


SCENARIOS = [
    Scenario("tree", s_tree, 200, 3000),
    Scenario("prio", s_prio, 160, 2000),
]
