"""Leaf-wise selection / assignment of Batch against an independent tree model."""
import numpy as np
import torch
from torch.distributions import Independent
from tianshou.data import Batch
from vlib.core import Scenario
from vlib.trees import (copy_tree, leaves, map2, map_tree, of_batch, rand_index, rand_tree, structure, tree_diff)

RULE = (
    "random nested trees (numpy of 6 dtypes, torch, object arrays, nested/empty sub-batches, length 1..9) "
    "driven through random sequences of selections and assignments next to a leaf-wise reference tree; "
    "distinct = (operation, index kind, tree structure)"
)
MIN = {"getitem": 300, "setitem": 200, "split": 100, "iter": 50, "empty_": 50, "nulls": 100}


def mk(ctx, rng, n=None, **kw):
    n = n or int(rng.integers(1, 10))
    t = rand_tree(rng, n, **kw)
    return n, t, Batch(copy_tree(t))


def same(ctx, b, t, kind, msg, dtypes=True):
    d = tree_diff(of_batch(b), t, dtypes=dtypes)
    ctx.check(d is None, kind, lambda: f"{msg}: {d}")


def s_getitem(ctx, rng):
    n, t, b = mk(ctx, rng)
    for _ in range(8):
        name, idx = rand_index(rng, n)
        ctx.trace.append(("getitem", name, str(idx)))
        got = b[idx]
        want = map_tree(t, lambda v: v[idx])
        same(ctx, got, want, "getitem", f"b[{name} {idx}]")
        ctx.note("getitem")
        ctx.sig("get", name, structure(t))
        # chained selection composes
        if name not in ("int", "negint", "npint") and len(got) > 0:
            name2, idx2 = rand_index(rng, len(got))
            same(ctx, got[idx2], map_tree(want, lambda v: v[idx2]), "getitem-chain", f"b[{idx}][{idx2}]")
            ctx.check(
                len(got) == len(next(leaves(want))[1]), "len", f"len(b[{idx}]) = {len(got)}",
            )
    same(ctx, b, t, "getitem-mutates", "source changed by selection")
    # selections along several axes
    dims = min((v.ndim for _, v in leaves(t)), default=0)
    if dims >= 2:
        m = min(v.shape[1] for _, v in leaves(t))
        i, j = int(rng.integers(n)), int(rng.integers(m))
        for ix in [(i, j), (slice(None), j), (Ellipsis, 0)]:
            same(ctx, b[ix], map_tree(t, lambda v: v[ix]), "getitem-multi", f"b[{ix}]")
            ctx.note("getitem")
    # key access returns the stored value; shape is the common prefix
    for k in t:
        got = b[k]
        same(ctx, Batch({k: got}) if not isinstance(got, Batch) else Batch({k: got}), {k: t[k]}, "getkey", k)
        ctx.check(k in b and getattr(b, k) is b[k], "getattr", k)
    ctx.check(len(b) == n, "len", f"len {len(b)} != {n}")
    ctx.check("nokey" not in b and b.get("nokey", 5) == 5, "get-default", "")
    ctx.check(set(b.get_keys()) == set(t), "keys", "")
    if not any(isinstance(v, dict) and not v for v in t.values()):
        flat = [v.shape for _, v in leaves(t)]
        if all(not isinstance(v, dict) for v in t.values()):
            want_shape = [min(c) for c in zip(*flat)]
            ctx.equal(list(b.shape), want_shape, "shape", "shape")


def s_setitem(ctx, rng):
    n, t, b = mk(ctx, rng)
    for _ in range(6):
        name, idx = rand_index(rng, n)
        if name in ("intarr",):  # unique targets, else order of writes matters
            idx = np.unique(np.asarray(idx) % n)
        if name == "list":
            idx = sorted(set(idx))
        sel = np.arange(n)[idx]
        m = 1 if np.isscalar(sel) or sel.ndim == 0 else len(sel)
        if m == 0:
            continue
        # a value tree with the same structure, fresh values
        def fresh(v):
            shp = v.shape[1:] if np.ndim(sel) == 0 else (m, *v.shape[1:])
            if isinstance(v, torch.Tensor):
                return torch.as_tensor(rng.integers(0, 90, size=shp)).to(v.dtype)
            if v.dtype == object:
                if np.ndim(sel) == 0:
                    return f"new{int(rng.integers(99))}"
                a = np.empty(m, dtype=object)
                a[:] = [f"new{int(rng.integers(99))}" for _ in range(m)]
                return a
            return rng.integers(0, 90, size=shp).astype(v.dtype)

        val = map_tree(t, fresh)
        # leaves missing from the value are reset to 0/None
        drop = [k for k in val if rng.random() < 0.25]
        if len(drop) == len(val):
            drop = drop[1:]
        part = {k: v for k, v in val.items() if k not in drop}
        ctx.trace.append(("setitem", name, str(idx), drop))

        def put(dst, src):
            dst[idx] = src
            return dst

        def zero(v):
            if isinstance(v, torch.Tensor) or v.dtype != object:
                v[idx] = 0
            else:
                v[idx] = None
            return v

        for k in list(t):
            if k in part:
                if isinstance(t[k], dict):
                    map2(t[k], part[k], put)
                else:
                    put(t[k], part[k])
            elif isinstance(t[k], dict):
                map_tree(t[k], zero)
            else:
                zero(t[k])
        vb = Batch(copy_tree(part)) if rng.random() < 0.5 else copy_tree(part)
        before = Batch(copy_tree(part))
        b[idx] = vb
        same(ctx, b, t, "setitem", f"b[{name} {idx}] = ... (missing {drop})")
        same(ctx, Batch(vb) if isinstance(vb, dict) else vb, of_batch(before), "setitem-mutates-value", "")
        ctx.note("setitem")
        ctx.sig("set", name, bool(drop), structure(t))
    # item assignment never creates keys and rejects raw arrays
    ctx.raises(lambda: b.__setitem__(0, {"brandnewkey": np.zeros(1)}), ValueError, "setitem-newkey")
    ctx.raises(lambda: b.__setitem__(0, np.zeros(1)), ValueError, "setitem-raw")
    same(ctx, b, t, "setitem-failed-mutates", "rejected assignment left a trace")
    # key assignment replaces the whole value
    k = sorted(t)[0]
    arr = rng.normal(size=(n, 2))
    if rng.random() < 0.5:
        b[k] = arr.copy()
    else:
        setattr(b, k, arr.copy())
    t[k] = arr
    same(ctx, b, t, "setkey", k)


def s_split(ctx, rng):
    n, t, b = mk(ctx, rng, n=int(rng.integers(1, 24)))
    ids = np.arange(n)
    t["uid"] = ids
    b.uid = ids.copy()
    size = int(rng.choice([-1, 1, 2, 3, 5, 7, n, n + 3]))
    shuffle, merge = bool(rng.integers(2)), bool(rng.integers(2))
    parts = list(b.split(size, shuffle=shuffle, merge_last=merge))
    order = np.concatenate([p.uid for p in parts])
    ctx.trace.append(("split", n, size, shuffle, merge, [len(p) for p in parts]))
    ctx.equal(np.sort(order), ids, "split-partition", f"every row exactly once (n={n} size={size} {shuffle=} {merge=})")
    if not shuffle:
        ctx.equal(order, ids, "split-order", "unshuffled split keeps the order")
    for p in parts:
        u = p.uid
        same(ctx, p, map_tree(t, lambda v: v[u]), "split-rows", "row integrity")
    eff = n if size == -1 else size
    lens = [len(p) for p in parts]
    full, rest = divmod(n, eff)
    if rest == 0:
        want = [eff] * full
    elif merge and full >= 1:
        want = [eff] * (full - 1) + [eff + rest]
    else:
        want = [eff] * full + [rest]
    ctx.equal(lens, want, "split-sizes", f"n={n} size={size} merge={merge}")
    same(ctx, b, t, "split-mutates", "")
    ctx.note("split")
    ctx.sig("split", n, size, shuffle, merge)
    if shuffle and n >= 8:
        ctx.note("shuffled")
        if not np.array_equal(order, ids):
            ctx.note("shuffled-moved")


def s_iter(ctx, rng):
    n, t, b = mk(ctx, rng)
    rows = list(b)
    ctx.check(len(rows) == n, "iter-count", f"{len(rows)} rows of {n}")
    for i, r in enumerate(rows):
        same(ctx, r, map_tree(t, lambda v: v[i]), "iter-row", f"row {i}")
    # every row twice is the same; to_list_of_dicts is the same sequence
    for i, d in enumerate(b.to_list_of_dicts()):
        dd = tree_diff(d, map_tree(t, lambda v: v[i]))
        ctx.check(dd is None, "to_list_of_dicts", lambda: f"row {i}: {dd}")
    d = b.to_dict()
    dd = tree_diff(d, t)
    ctx.check(dd is None, "to_dict", lambda: str(dd))
    ctx.note("iter")
    ctx.sig("iter", structure(t), n)


def s_empty(ctx, rng):
    n, t, b = mk(ctx, rng)
    snapshot = copy_tree(t)
    name, idx = rand_index(rng, n)
    whole = rng.random() < 0.3

    def zero(v):
        v = v.clone() if isinstance(v, torch.Tensor) else v.copy()
        i = slice(None) if whole else idx
        if isinstance(v, torch.Tensor) or v.dtype != object:
            v[i] = 0
        else:
            v[i] = None
        return v

    want = map_tree(t, zero)
    out = Batch.empty(b) if whole else Batch.empty(b, idx)
    same(ctx, out, want, "empty", f"Batch.empty {name} {idx} whole={whole}")
    same(ctx, b, snapshot, "empty-mutates", "Batch.empty must not touch its argument")
    if whole:
        b.empty_()
    else:
        b.empty_(idx)
    same(ctx, b, want, "empty_", f"empty_ {name} {idx}")
    ctx.note("empty_")
    ctx.sig("empty", name, whole, structure(t))


def s_history(ctx, rng):
    """A long mixed history of reads and writes on one batch."""
    n, t, b = mk(ctx, rng, n=int(rng.integers(2, 8)))
    for step in range(12):
        op = int(rng.integers(5))
        if op == 0:
            name, idx = rand_index(rng, n)
            same(ctx, b[idx], map_tree(t, lambda v: v[idx]), "hist-get", f"step {step}")
            ctx.note("getitem")
        elif op == 1:  # move rows within the batch
            i, j = (int(x) for x in rng.integers(0, n, size=2))
            ctx.trace.append(("copyrow", i, j))
            row = map_tree(copy_tree(t), lambda v: v[j])
            b[i] = b[j]

            def put(dst, src):
                dst[i] = src
                return dst

            map2(t, row, put)
            same(ctx, b, t, "hist-copyrow", f"b[{i}]=b[{j}]")
            ctx.note("setitem")
        elif op == 2:
            perm = rng.permutation(n)
            b = b[perm]
            t = map_tree(t, lambda v: v[perm])
        elif op == 3:
            k = f"k{step}"
            arr = rng.normal(size=(n, 2))
            if rng.random() < 0.5:
                b.update({k: arr.copy()})
            else:
                b.update(**{k: arr.copy()})
            t[k] = arr
        elif op == 4 and len(t) > 2:
            k = sorted(t)[int(rng.integers(len(t)))]
            if sum(1 for _ in leaves({q: v for q, v in t.items() if q != k})) == 0:
                continue
            got = b.pop(k)
            want = t.pop(k)
            dd = tree_diff(of_batch(got) if isinstance(got, Batch) else got, want)
            ctx.check(dd is None, "pop", lambda: f"pop {k}: {dd}")
            ctx.check(k not in b, "pop-left", k)
            ctx.check(b.pop("zzz", 17) == 17, "pop-default", "")
        same(ctx, b, t, "hist-state", f"after step {step} op {op}")
        ctx.note("hist-steps")
    ctx.sample({"n": n, "structure": structure(t)})
    ctx.sig("hist", structure(t))


def _dist(rng, n):
    from torch.distributions import Categorical, Independent, Normal

    k = int(rng.integers(5))
    if k == 4:  # a matrix of normals as one event
        loc = torch.as_tensor(rng.normal(size=(n, 2, 3)))
        sc = torch.as_tensor(rng.random(size=(n, 2, 3)) + 0.1)
        return (
            Independent(Normal(loc, sc), int(rng.integers(1, 3))),
            lambda d: torch.stack([d.base_dist.loc, d.base_dist.scale], -1),
            torch.stack([loc, sc], -1),
        )
    if k == 0:
        p = torch.softmax(torch.as_tensor(rng.normal(size=(n, 3))), -1)
        return Categorical(probs=p), lambda d: d.probs, p
    loc = torch.as_tensor(rng.normal(size=(n, 2)))
    sc = torch.as_tensor(rng.random(size=(n, 2)) + 0.1)
    both = torch.stack([loc, sc], -1)
    if k == 1:
        return Normal(loc, sc), lambda d: torch.stack([d.loc, d.scale], -1), both
    if k == 2:
        return Independent(Normal(loc, sc), 1), lambda d: torch.stack([d.base_dist.loc, d.base_dist.scale], -1), both
    p = torch.softmax(torch.as_tensor(rng.normal(size=(n, 4))), -1)
    return Categorical(logits=p.log()), lambda d: d.probs, p


def s_dist(ctx, rng):
    """Distributions stored in a batch are selected together with the rows."""
    n = int(rng.integers(1, 9))
    d, params, ref = _dist(rng, n)
    act = d.sample()
    b = Batch(act=act, dist=d, uid=np.arange(n))
    ctx.check(len(b) == n, "dist-len", f"{len(b)} != {n}")
    for _ in range(5):
        name, idx = rand_index(rng, n)
        got = b[idx]
        want = ref[idx]
        ctx.close(params(got.dist).reshape(want.shape), want, "dist-select", f"{type(d).__name__} [{name} {idx}]", rtol=1e-9)
        ctx.equal(got.uid, np.arange(n)[idx], "dist-uid", "")
        if isinstance(d, Independent):
            ctx.equal(got.dist.reinterpreted_batch_ndims, d.reinterpreted_batch_ndims, "dist-event", "event dimensions")
        lp = d.log_prob(act)[idx]
        if lp.numel() == 0:
            continue
        ctx.close(got.dist.log_prob(got.act), lp, "dist-logprob", f"{type(d).__name__} {name}", rtol=1e-9)
        ctx.sig("dist", type(d).__name__, name)
    # a single row made 2-D again is the row as a batch of one; a batch stays as it is
    i = int(rng.integers(n))
    row = b[i]
    if len(row.dist.batch_shape) == 0:
        two = Batch(dist=row.dist, uid=row.uid).to_at_least_2d()
        ctx.check(tuple(two.dist.batch_shape) == (1,), "dist-2d-shape", f"{two.dist}")
        ctx.check(type(two.dist) is type(d) and two.dist.event_shape == d.event_shape, "dist-2d-type", f"{two.dist}")
        ctx.close(params(two.dist).reshape(ref[i : i + 1].shape), ref[i : i + 1], "dist-2d", "", rtol=1e-9)
        ctx.close(two.dist.log_prob(act[i : i + 1]), d.log_prob(act)[i : i + 1], "dist-2d-logprob", "", rtol=1e-9)
        ctx.check(len(Batch(dist=two.dist)) == 1, "dist-2d-len", "")
        ctx.raises(lambda: len(Batch(dist=row.dist)), TypeError, "dist-scalar-len", "a single row has no length")
    ctx.close(params(Batch(dist=d).to_at_least_2d().dist), ref, "dist-2d-keep", "", rtol=1e-9)
    for p in b.split(max(1, n // 2), shuffle=True, merge_last=True):
        ctx.close(params(p.dist), ref[p.uid], "dist-split", "", rtol=1e-9)
    ctx.note("dist")


def s_nulls(ctx, rng):
    """None leaves and empty sub-batches travel through selection and iteration; length = shortest leaf."""
    n = int(rng.integers(1, 8))
    ks = [f"k{i}" for i in range(int(rng.integers(2, 6)))]
    t, lens = {}, []
    for k in ks:
        r = rng.random()
        if r < 0.25:
            t[k] = None
        elif r < 0.4:
            t[k] = {}
        elif r < 0.55:
            t[k] = {"in": None, "x": rng.normal(size=n)}
            lens.append(n)
        else:
            m = n + int(rng.integers(0, 4))
            t[k] = rng.normal(size=(m, 2)) if rng.random() < 0.7 else torch.as_tensor(rng.normal(size=m))
            lens.append(m)
    b = Batch(copy_tree(t))
    want = min(lens, default=0)
    ctx.check(len(b) == want, "len-uneven", f"len {len(b)} != {want} for leaf lengths {lens}")
    sel = lambda idx: map_tree(t, lambda v: None if v is None else v[idx])  # noqa: E731
    for i in range(want):
        same(ctx, b[i], sel(i), "null-row", f"row {i}")
    rows = list(b)
    ctx.check(len(rows) == want, "null-iter", f"{len(rows)} != {want}")
    for i, r in enumerate(rows):
        same(ctx, r, sel(i), "null-iter-row", f"row {i}")
    if want:
        size = int(rng.integers(1, want + 1))
        parts = list(b.split(size, shuffle=False))
        for j, p in enumerate(parts):
            same(ctx, p, sel(np.arange(j * size, min(want, (j + 1) * size))), "null-split", f"part {j}")
        ctx.check(sum(len(p) for p in parts) == want, "null-split-count", "")
    ctx.check(len(Batch()) == 0 and list(Batch()) == [], "empty-len", "")
    ctx.raises(lambda: Batch()[0], IndexError, "empty-index", "")
    ctx.raises(lambda: len(Batch(a=np.zeros(2), s=3)), TypeError, "scalar-len", "a scalar entry has no length")
    ctx.note("nulls")
    ctx.sig("nulls", tuple(lens), structure(t))


SCENARIOS = [
    Scenario("nulls", s_nulls, 150, 3000),
    Scenario("dist", s_dist, 80, 1500),
    Scenario("getitem", s_getitem, 120, 3000),
    Scenario("setitem", s_setitem, 120, 3000),
    Scenario("split", s_split, 200, 4000),
    Scenario("iter", s_iter, 80, 2000),
    Scenario("empty", s_empty, 80, 2000),
    Scenario("history", s_history, 120, 3000),
]
