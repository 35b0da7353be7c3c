"""Concatenation / stacking / construction of Batch against the leaf-wise model."""
import warnings

import numpy as np
import torch
from tianshou.data import Batch
from vlib.core import Scenario
from vlib.trees import copy_leaf, copy_tree, leaves, map_tree, of_batch, rand_array, rand_tree, structure, tree_diff

RULE = (
    "random lists of 1..5 trees with a common structure (and, for stacking, with missing keys), composed with "
    "cat/stack/constructor and compared leaf by leaf; distinct = (operation, list shape, tree structure)"
)
MIN = {"cat": 150, "stack": 100, "pad": 50, "roundtrip": 100, "construct": 60, "reserved": 100, "update": 70, "ragged": 50}


def same(ctx, b, t, kind, msg, dtypes=True):
    d = tree_diff(of_batch(b), t, dtypes=dtypes)
    ctx.check(d is None, kind, lambda: f"{msg}: {d}")


def like(rng, t, n):
    """A tree of the same structure/dtypes with n rows and fresh values."""

    def f(v):
        shp = (n, *v.shape[1:])
        if isinstance(v, torch.Tensor):
            return torch.as_tensor(rng.integers(0, 90, size=shp)).to(v.dtype)
        if v.dtype == object:
            a = np.empty(n, dtype=object)
            a[:] = [f"v{int(rng.integers(999))}" for _ in range(n)]
            return a
        return rng.integers(0, 90, size=shp).astype(v.dtype)

    return map_tree(t, f)


def join(ts, fn_np, fn_t):
    t0 = ts[0]
    out = {}
    for k in t0:
        if isinstance(t0[k], dict):
            out[k] = join([t[k] for t in ts], fn_np, fn_t)
        elif isinstance(t0[k], torch.Tensor):
            out[k] = fn_t([t[k] for t in ts])
        else:
            out[k] = fn_np([t[k] for t in ts])
    return out


def shuffled_keys(rng, t):
    ks = list(t)
    return {ks[i]: (shuffled_keys(rng, t[ks[i]]) if isinstance(t[ks[i]], dict) else t[ks[i]]) for i in rng.permutation(len(ks))}


def s_cat(ctx, rng):
    base = rand_tree(rng, 2)
    lens = [int(x) for x in rng.integers(1, 6, size=int(rng.integers(1, 5)))]
    ts = [like(rng, base, n) for n in lens]
    want = join(ts, np.concatenate, torch.cat)
    bs = [Batch(copy_tree(shuffled_keys(rng, t))) if rng.random() < 0.7 else copy_tree(shuffled_keys(rng, t)) for t in ts]
    ctx.trace.append(("cat", lens))
    extra = [Batch()] if rng.random() < 0.3 else []
    pos = int(rng.integers(0, len(bs) + 1))
    out = Batch.cat(bs[:pos] + extra + bs[pos:])
    same(ctx, out, want, "cat", f"cat lens={lens} empties={bool(extra)}")
    ctx.check(len(out) == sum(lens), "cat-len", f"{len(out)}")
    for b, t in zip(bs, ts):
        same(ctx, b if isinstance(b, Batch) else Batch(b), t, "cat-mutates", "inputs unchanged")
    # results do not alias the inputs (unless a single input)
    if len(bs) > 1:
        out.empty_()
        for b, t in zip(bs, ts):
            same(ctx, b if isinstance(b, Batch) else Batch(b), t, "cat-alias", "writing the result changed an input")
    # in-place version, starting from a non-empty and an empty receiver
    acc = Batch()
    for t in ts:
        acc.cat_(Batch(copy_tree(t)))
    same(ctx, acc, want, "cat_", "accumulated cat_")
    if len(ts) > 2:
        acc = Batch(copy_tree(ts[0]))
        acc.cat_([Batch(copy_tree(t)) for t in ts[1:]])
        same(ctx, acc, want, "cat_-list", "cat_ with a list")
    # associativity
    k = int(rng.integers(0, len(ts)))
    if 0 < k < len(ts):
        a, c = Batch.cat([Batch(copy_tree(t)) for t in ts[:k]]), Batch.cat([Batch(copy_tree(t)) for t in ts[k:]])
        same(ctx, Batch.cat([a, c]), want, "cat-assoc", "")
    # a different structure is rejected
    bad = copy_tree(ts[0])
    bad["zz_other"] = np.zeros(lens[0])
    ctx.raises(lambda: Batch.cat([Batch(copy_tree(ts[0])), Batch(bad)]), ValueError, "cat-structure", "extra key")
    ctx.note("cat")
    ctx.sig("cat", tuple(lens), structure(base))


def s_stack(ctx, rng):
    n = int(rng.integers(1, 5))
    base = rand_tree(rng, n)
    m = int(rng.integers(1, 6))
    ts = [like(rng, base, n) for _ in range(m)]
    axis = 0
    if all(not isinstance(v, dict) or v for v in base.values()) and rng.random() < 0.4:
        axis = 1
    want = join(ts, lambda xs: np.stack(xs, axis), lambda xs: torch.stack(xs, axis))
    bs = [Batch(copy_tree(shuffled_keys(rng, t))) if rng.random() < 0.7 else copy_tree(shuffled_keys(rng, t)) for t in ts]
    out = Batch.stack(bs, axis)
    same(ctx, out, want, "stack", f"stack {m} axis={axis}")
    for b, t in zip(bs, ts):
        same(ctx, b if isinstance(b, Batch) else Batch(b), t, "stack-mutates", "")
    if axis == 0:
        # construction from a sequence is stacking
        same(ctx, Batch(bs), want, "construct-list", "Batch([..])")
        same(ctx, Batch(tuple(bs)), want, "construct-tuple", "Batch((..))")
        arr = np.empty(m, dtype=object)
        arr[:] = [Batch(copy_tree(t)) for t in ts]
        same(ctx, Batch(arr), want, "construct-array", "Batch(object array)")
        # nested list of dicts as a value
        same(ctx, Batch(x=[copy_tree(t) for t in ts]), {"x": want}, "construct-nested", "")
        for i in range(m):
            same(ctx, out[i], ts[i], "stack-row", f"row {i}")
        ctx.check(len(out) == m, "stack-len", f"{len(out)}")
        acc = Batch()
        acc.stack_([Batch(copy_tree(t)) for t in ts])
        same(ctx, acc, want, "stack_", "")
    ctx.note("stack")
    ctx.sig("stack", m, axis, structure(base))


def s_pad(ctx, rng):
    """Stacking with keys present only in some inputs pads with 0/None."""
    base = rand_tree(rng, 3, depth=1, kinds="nnt", empty=False, minkeys=3)
    m = int(rng.integers(2, 6))
    full = [like(rng, base, 3) for _ in range(m)]
    keys = sorted(base)
    owners = {k: (rng.random(m) < 0.6) for k in keys}
    shared = keys[int(rng.integers(len(keys)))]
    owners[shared] = np.ones(m, bool)
    for k in keys:
        if not owners[k].any():
            owners[k][int(rng.integers(m))] = True
    ts = [{k: t[k] for k in keys if owners[k][i]} for i, t in enumerate(full)]
    present = {k: owners[k] for k in keys}

    def pad(vals, own, proto):
        if isinstance(proto, dict):
            return {kk: pad([None if v is None else v[kk] for v in vals], own, proto[kk]) for kk in proto}
        z = [copy_leaf(v) if o else (torch.zeros_like(proto) if isinstance(proto, torch.Tensor) else np.zeros_like(proto)) for v, o in zip(vals, own)]
        return torch.stack(z) if isinstance(proto, torch.Tensor) else np.stack(z)

    want = {k: pad([t.get(k) for t in ts], present[k], base[k]) for k in keys}
    ctx.trace.append({k: v.tolist() for k, v in owners.items()})
    out = Batch.stack([Batch(copy_tree(t)) for t in ts])
    same(ctx, out, want, "stack-pad", f"owners {ctx.trace[-1]}")
    if any(not o.all() for o in owners.values()):
        ctx.raises(lambda: Batch.stack([Batch(copy_tree(t)) for t in ts], axis=1), ValueError, "stack-axis", "partial keys with axis=1")
        ctx.note("pad")
        ctx.sig("pad", tuple((k, tuple(v.tolist())) for k, v in owners.items()))


def s_roundtrip(ctx, rng):
    n = int(rng.integers(1, 12))
    t = rand_tree(rng, n)
    b = Batch(copy_tree(t))
    size = int(rng.integers(1, n + 2))
    merge = bool(rng.integers(2))
    again = Batch.cat(list(b.split(size, shuffle=False, merge_last=merge)))
    same(ctx, again, t, "cat-split", f"cat(split({size})) n={n}")
    same(ctx, Batch.stack(list(b)), t, "stack-iter", "stack(rows)", dtypes=True)
    k = int(rng.integers(0, n + 1))
    if 0 < k < n:
        same(ctx, Batch.cat([b[:k], b[k:]]), t, "cat-slices", f"k={k} n={n}")
    # shuffled split then inverse permutation restores
    b2 = Batch(copy_tree(t))
    b2.uid = np.arange(n)
    sh = Batch.cat(list(b2.split(size, shuffle=True, merge_last=merge)))
    back = sh[np.argsort(sh.uid)]
    same(ctx, back, {**t, "uid": np.arange(n)}, "shuffle-inverse", "")
    ctx.note("roundtrip")
    ctx.sig("rt", n, size, merge, structure(t))
    ctx.sample({"n": n, "size": size, "structure": structure(t)})


def s_construct(ctx, rng):
    n = int(rng.integers(1, 6))
    t = rand_tree(rng, n)
    same(ctx, Batch(**copy_tree(t)), t, "kwargs", "Batch(**tree)")
    same(ctx, Batch(Batch(copy_tree(t))), t, "batch", "Batch(Batch)")
    ks = sorted(t)
    h = len(ks) // 2
    same(ctx, Batch({k: copy_tree({k: t[k]})[k] for k in ks[:h]}, **{k: copy_tree({k: t[k]})[k] for k in ks[h:]}), t, "mixed", "dict + kwargs")
    # copy=True isolates the source, the plain constructor shares the arrays
    src = copy_tree(t)
    b = Batch(src, copy=True)
    b.empty_()
    d = tree_diff(src, t)
    ctx.check(d is None, "copy-isolates", lambda: str(d))
    # scalars and lists become arrays; python values keep their value
    lst = [float(x) for x in rng.normal(size=n)]
    sc = int(rng.integers(100))
    b = Batch(l=lst, s=sc, st="abc", none=None, nested={"l": [1, 2, 3]})
    ctx.equal(np.asarray(b.l), np.asarray(lst), "construct-values", "list")
    ctx.check(b.s == sc and b.st == "abc" and b.none is None, "construct-scalars", f"{b}")
    ctx.equal(b.nested.l, np.array([1, 2, 3]), "construct-nested-list", "")
    # list of tensors of equal shape stacks
    ts = [torch.as_tensor(rng.normal(size=(3,))) for _ in range(n)]
    ctx.equal(Batch(x=ts).x, torch.stack(ts), "construct-tensors", "")
    # ragged sequences become object arrays that keep every element
    rag = [np.arange(int(k)) for k in rng.permutation(np.arange(1, n + 2))]
    r = Batch(x=rag).x
    ctx.check(len(r) == len(rag) and all(np.array_equal(a, c) for a, c in zip(r, rag)), "construct-ragged", f"{r!r}")
    ctx.note("construct")
    ctx.sig("construct", n, structure(t))


def s_reserved(ctx, rng):
    """Keys reserved by an empty sub-batch: concatenation fills the rows of the batches that reserve them."""
    base = rand_tree(rng, 2, depth=0, kinds="nnfto", empty=False, minkeys=2)
    m = int(rng.integers(2, 5))
    lens = [int(x) for x in rng.integers(1, 5, size=m)]
    full = [like(rng, base, k) for k in lens]
    keys = sorted(base)
    anchor = keys[int(rng.integers(len(keys)))]  # every batch has a length
    own = {k: np.ones(m, bool) if k == anchor else rng.random(m) < 0.6 for k in keys}
    ts = [{k: (t[k] if own[k][i] else {}) for k in keys} for i, t in enumerate(full)]

    def zeros(v):
        z = torch.zeros_like(v) if isinstance(v, torch.Tensor) else np.zeros_like(v)
        if isinstance(z, np.ndarray) and z.dtype == object:
            z[...] = None
        return z

    def pad(k):
        if not own[k].any():
            return {}
        vals = [{"x": t[k] if o else map_tree({"x": t[k]}, zeros)["x"]} for t, o in zip(full, own[k])]
        return join(vals, np.concatenate, torch.cat)["x"]

    want = {k: pad(k) for k in keys}
    if rng.random() < 0.4:  # the same below another key
        ts = [{"top": t, "z": np.full(k, j)} for j, (t, k) in enumerate(zip(ts, lens))]
        want = {"top": want, "z": np.repeat(np.arange(m), lens)}
    ctx.trace.append((lens, {k: v.tolist() for k, v in own.items()}))
    bs = [Batch(copy_tree(t)) for t in ts]
    same(ctx, Batch.cat(bs), want, "cat-reserved", f"{ctx.trace[-1]}")
    acc = Batch(copy_tree(ts[0]))
    acc.cat_([Batch(copy_tree(t)) for t in ts[1:]])
    same(ctx, acc, want, "cat_-reserved", f"in place {ctx.trace[-1]}")
    acc = Batch()
    for t in ts:
        acc.cat_(Batch(copy_tree(t)))
    same(ctx, acc, want, "cat_-reserved-fold", f"one at a time {ctx.trace[-1]}")
    for b, t in zip(bs, ts):
        same(ctx, b, t, "cat-reserved-mutates", "")
    # in-place stacking onto a receiver that reserves keys or holds keys the others lack
    if not any(v.dtype == object for v in base.values()):
        st = [{k: t[k][:1] for k in keys} for t in full]
        acc = Batch(copy_tree({k: st[0][k] if own[k][0] else {} for k in keys}))
        rest = [Batch(copy_tree({k: s[k] for k in keys if own[k][i + 1] or k == anchor})) for i, s in enumerate(st[1:])]
        acc.stack_(rest)
        ws = {}
        for k in keys:
            if not own[k].any():
                ws[k] = {}
                continue
            vals = [{"x": s[k] if own[k][i] else map_tree({"x": s[k]}, zeros)["x"]} for i, s in enumerate(st)]
            ws[k] = join(vals, np.stack, torch.stack)["x"]
        same(ctx, acc, ws, "stack_-reserved", f"{ctx.trace[-1]}")
    # a receiver that only reserves keys takes the values over
    acc = Batch(**{k: Batch() for k in keys})
    acc.cat_(Batch(copy_tree(full[0])))
    same(ctx, acc, full[0], "cat_-all-reserved", "")
    # stacking with reserved keys
    n = lens[0]
    eq = [like(rng, base, n) for _ in range(m)]
    es = [{k: (t[k] if own[k][i] else {}) for k in keys} for i, t in enumerate(eq)]
    if all(isinstance(v, dict) or getattr(v, "dtype", None) != object for v in base.values()) and not any(
        v.dtype == object for _, v in leaves(base)
    ):

        def spad(k):
            if not own[k].any():
                return {}
            vals = [{"x": t[k] if o else map_tree({"x": t[k]}, zeros)["x"]} for t, o in zip(eq, own[k])]
            return join(vals, np.stack, torch.stack)["x"]

        same(ctx, Batch.stack([Batch(copy_tree(t)) for t in es]), {k: spad(k) for k in keys}, "stack-reserved", f"{ctx.trace[-1]}")
    ctx.note("reserved")
    ctx.sig("reserved", tuple(lens), tuple((k, tuple(v.tolist())) for k, v in own.items()))


def s_update(ctx, rng):
    """update(): later values win, other keys stay, values are parsed as in construction."""
    n = int(rng.integers(1, 6))
    t, u, w = (rand_tree(rng, n) for _ in range(3))
    b = Batch(copy_tree(t))
    form = int(rng.integers(5))
    arg = [copy_tree(u), Batch(copy_tree(u)), {}, Batch(), None][form]
    given = u if form < 2 else {}
    kw = copy_tree(w) if rng.random() < 0.7 else {}
    b.update(arg, **kw) if form < 4 or kw or rng.random() < 0.5 else b.update()
    want = {**t, **given, **(w if kw else {})}
    same(ctx, b, want, "update", f"form {form} kwargs={sorted(kw)}")
    # construction from mapping and keywords agrees with update, with and without copying
    for cp in (False, True):
        src, ksrc = copy_tree(t), copy_tree(w)
        c = Batch(src, copy=cp, **ksrc)
        want = {**t, **w}
        same(ctx, c, want, "init-mixed", f"copy={cp}")
        if cp:
            c.empty_()
            for name, got, ref in (("mapping", src, t), ("keywords", ksrc, w)):
                d = tree_diff(got, ref)
                ctx.check(d is None, "init-copy-alias", lambda: f"writing a Batch built with copy=True changed the {name}: {d}")
    ctx.note("update")
    ctx.sig("update", form, bool(kw), structure(t))


def s_ragged(ctx, rng):
    """Leaves whose shapes differ are kept one by one, in order, each unchanged."""
    m = int(rng.integers(2, 6))
    lead = tuple(int(x) for x in rng.integers(1, 4, size=int(rng.integers(0, 3))))
    arrs = [rng.normal(size=(*lead, *(int(x) for x in rng.integers(1, 4, size=int(rng.integers(0, 3)))))) for _ in range(m)]
    if len({a.shape for a in arrs}) == 1:
        arrs[0] = rng.normal(size=(*arrs[0].shape, 2))
    nested = bool(rng.random() < 0.4)
    ts = [{"r": {"x": a}, "n": np.array(k)} if nested else {"r": a, "n": np.array(k)} for k, a in enumerate(arrs)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        way = int(rng.integers(3))
        b = [lambda: Batch.stack([Batch(t) for t in ts]), lambda: Batch(ts), lambda: Batch.stack(ts)][way]()
    got = b.r.x if nested else b.r
    what = f"shapes {[a.shape for a in arrs]}"
    ctx.check(isinstance(got, np.ndarray) and got.dtype == object and got.shape == (m,), "ragged-stack", lambda: f"{what}: {got!r}")
    for k, a in enumerate(arrs):
        ctx.check(np.shape(got[k]) == a.shape and np.array_equal(np.asarray(got[k], float), a), "ragged-element", lambda k=k: f"{what}: element {k} is {got[k]!r}")
        row = b[k].r.x if nested else b[k].r
        ctx.check(np.array_equal(np.asarray(row, float), a), "ragged-row", f"{what}: row {k}")
    ctx.equal(np.asarray(b.n), np.arange(m), "ragged-others", what)
    ctx.note("ragged")
    ctx.sig("ragged", tuple(a.shape for a in arrs), nested, way)


SCENARIOS = [
    Scenario("ragged", s_ragged, 60, 1000),
    Scenario("reserved", s_reserved, 150, 3000),
    Scenario("update", s_update, 100, 2000),
    Scenario("cat", s_cat, 180, 4000),
    Scenario("stack", s_stack, 180, 4000),
    Scenario("pad", s_pad, 100, 2500),
    Scenario("roundtrip", s_roundtrip, 150, 4000),
    Scenario("construct", s_construct, 80, 1500),
]
