"""Copies, conversions, serialisation, equality and arithmetic of Batch."""
import copy
import pickle

import numpy as np
import torch
from tianshou.data import Batch, to_numpy, to_torch, to_torch_as
from vlib.core import Scenario
from vlib.trees import copy_tree, leaves, map2, map_tree, of_batch, rand_array, rand_tree, structure, tree_diff

RULE = (
    "random nested trees pushed through copy/convert/pickle/arithmetic/null handling and compared leaf by leaf "
    "(value, dtype, container) with numpy/torch semantics; distinct = (operation, dtype/option, tree structure)"
)
MIN = {"convert": 100, "copy": 60, "eq": 60, "arith": 100, "null": 60, "setarr": 40, "structure": 80}


def same(ctx, b, t, kind, msg, dtypes=True):
    d = tree_diff(of_batch(b), t, dtypes=dtypes)
    ctx.check(d is None, kind, lambda: f"{msg}: {d}")


def structure_only(t):
    return {k: structure_only(v) if isinstance(v, dict) else 0 for k, v in t.items()}


def s_convert(ctx, rng):
    n = int(rng.integers(1, 7))
    t = rand_tree(rng, n, kinds="nnft")
    b = Batch(copy_tree(t))
    dtype = [None, torch.float32, torch.float64, torch.int64, torch.int32][int(rng.integers(5))]
    want_np = map_tree(t, lambda v: v.numpy().copy() if isinstance(v, torch.Tensor) else v)
    want_t = map_tree(
        t, lambda v: (torch.as_tensor(np.array(v)) if isinstance(v, np.ndarray) else v.clone()).to(dtype or (v.dtype if isinstance(v, torch.Tensor) else torch.as_tensor(np.array(v)).dtype)),
    )
    ctx.trace.append(str(dtype))

    def conv(got, kind, msg):
        # the requested dtype is only promised for leaves that already are tensors
        # (the project's own test suite pins numpy leaves to keep their dtype)
        g = of_batch(got)
        d = tree_diff(structure_only(g), structure_only(t))
        ctx.check(d is None, kind, lambda: f"{msg}: {d}")
        for p, v in leaves(t):
            q, w = g, want_t
            for k in p:
                q, w = q[k], w[k]
            ok = tree_diff({"x": q}, {"x": w})
            if ok is not None and isinstance(v, np.ndarray):
                ok = tree_diff({"x": q}, {"x": torch.as_tensor(np.array(v))})
            ctx.check(ok is None, kind, lambda: f"{msg}: {p} {ok}")

    out = b.to_torch(dtype=dtype)
    conv(out, "to_torch", f"to_torch({dtype})")
    same(ctx, b, t, "to_torch-mutates", "")
    same(ctx, b.to_numpy(), want_np, "to_numpy", "")
    same(ctx, b.to_torch().to_numpy(), want_np, "roundtrip", "to_torch().to_numpy()")
    same(ctx, b, t, "to_numpy-mutates", "")
    # conversion results are independent of the source
    o2 = b.to_numpy()
    o2.empty_()
    same(ctx, b, t, "to_numpy-alias", "")
    o3 = b.to_torch()
    o3.empty_()
    same(ctx, b, t, "to_torch-alias", "")
    # in place
    c = Batch(copy_tree(t))
    c.to_torch_(dtype=dtype)
    conv(c, "to_torch_", f"{dtype}")
    c = Batch(copy_tree(t))
    c.to_numpy_()
    same(ctx, c, want_np, "to_numpy_", "")
    # free functions on batches, dicts and lists
    conv(to_torch(Batch(copy_tree(t)), dtype), "fn-to_torch", f"{dtype}")
    same(ctx, to_numpy(Batch(copy_tree(t))), want_np, "fn-to_numpy", "")
    for fn, f in (("to_torch", to_torch), ("to_numpy", to_numpy)):
        src = Batch(copy_tree(t))
        res = f(src)
        same(ctx, src, t, f"fn-{fn}-mutates", "")
        res.empty_()
        same(ctx, src, t, f"fn-{fn}-alias", "changing the converted batch changed its source")
    ref = torch.zeros(1, dtype=dtype or torch.float32)
    if dtype is not None:
        conv(to_torch_as(Batch(copy_tree(t)), ref), "fn-to_torch_as", f"{dtype}")
    a = rand_array(rng, (n, 2), "nf")
    ctx.equal(to_numpy(to_torch(a)), a, "fn-array-roundtrip", "")
    ctx.equal(to_torch(a, torch.float64), a.astype(np.float64), "fn-array-dtype", "")
    ctx.check(to_torch(a, torch.float64).dtype == torch.float64, "fn-array-dtype", "")
    ctx.check(to_torch_as(a, torch.zeros(1, dtype=torch.float64)).dtype == torch.float64, "fn-torch_as", "")
    x = [float(v) for v in rng.normal(size=n)]
    ctx.equal(to_torch(x), np.asarray(x), "fn-list", "")
    ctx.equal(to_numpy([torch.as_tensor(a), torch.as_tensor(a)]), np.stack([a, a]), "fn-tensorlist", "")
    # gradients are dropped, values stay
    g = torch.randn(n, 2, requires_grad=True)
    ctx.equal(to_numpy(g * 2), (g * 2).detach(), "fn-grad", "")
    ctx.note("convert")
    ctx.sig("convert", str(dtype), structure(t))


def s_copy(ctx, rng):
    n = int(rng.integers(1, 7))
    t = rand_tree(rng, n)
    b = Batch(copy_tree(t))
    for name, c in (("deepcopy", copy.deepcopy(b)), ("pickle", pickle.loads(pickle.dumps(b))), ("copy=True", Batch(b, copy=True))):
        same(ctx, c, t, f"{name}-value", name)
        ctx.check(type(c) is Batch, f"{name}-type", "")
        c.empty_()
        same(ctx, b, t, f"{name}-alias", f"writing the {name} changed the original")
        ctx.sig("copy", name, structure(t))
    # transforms out of place leave the source alone
    def double(v):
        return v * 2 if (isinstance(v, torch.Tensor) or v.dtype not in (np.dtype(object), np.dtype(bool))) else v

    same(ctx, b.apply_values_transform(double), map_tree(t, double), "apply", "")
    same(ctx, b, t, "apply-mutates", "")
    b.apply_values_transform(double, inplace=True)
    same(ctx, b, map_tree(t, double), "apply-inplace", "")
    ctx.note("copy")


def s_eq(ctx, rng):
    n = int(rng.integers(1, 6))
    t = rand_tree(rng, n, kinds="nnnft")
    a, b = Batch(copy_tree(t)), Batch(copy_tree(t))
    ctx.check(a == b, "eq-same", "equal content compares unequal")
    ctx.check(not (a != b), "neq-same", "")
    ctx.check(a == a.to_torch() and a.to_numpy() == a, "eq-convert", "numpy/torch representation does not matter")
    # change exactly one element of one leaf
    ls = [(p, v) for p, v in leaves(t)]
    p, v = ls[int(rng.integers(len(ls)))]
    u = copy_tree(t)
    d = u
    for k in p[:-1]:
        d = d[k]
    leaf = d[p[-1]]
    pos = tuple(int(rng.integers(s)) for s in leaf.shape)
    if isinstance(leaf, np.ndarray) and leaf.dtype == bool:
        leaf[pos] = not leaf[pos]
    else:
        leaf[pos] = leaf[pos] + 1
    ctx.check(not (a == Batch(u)), "eq-value", f"one element at {p}{pos} differs but batches compare equal")
    w = copy_tree(t)
    w["zz"] = np.zeros(n)
    ctx.check(not (a == Batch(w)) and not (Batch(w) == a), "eq-key", "extra key")
    ctx.check(not (a == t), "eq-type", "batch == dict")
    ctx.note("eq")
    ctx.sig("eq", structure(t), p)


def shuffled(rng, t):
    ks = list(t)
    return {ks[i]: (shuffled(rng, t[ks[i]]) if isinstance(t[ks[i]], dict) else t[ks[i]]) for i in rng.permutation(len(ks))}


def s_arith(ctx, rng):
    n = int(rng.integers(1, 6))
    t = rand_tree(rng, n, kinds="ft", empty=True)
    t = map_tree(t, lambda v: v.double() if isinstance(v, torch.Tensor) else v.astype(np.float64))
    u = map_tree(t, lambda v: torch.as_tensor(rng.normal(size=v.shape)) if isinstance(v, torch.Tensor) else rng.normal(size=v.shape))
    k = float(rng.normal()) or 1.0
    a, b = Batch(copy_tree(t)), Batch(copy_tree(shuffled(rng, u)))
    add = map2(t, u, lambda x, y: x + y)
    same(ctx, a + b, add, "add", "leaf-wise sum (key order must not matter)")
    same(ctx, a, t, "add-mutates", "")
    same(ctx, b, u, "add-mutates", "")
    same(ctx, a + k, map_tree(t, lambda x: x + k), "add-scalar", "")
    same(ctx, a * k, map_tree(t, lambda x: x * k), "mul", "")
    same(ctx, a / k, map_tree(t, lambda x: x / k), "div", "")
    same(ctx, a, t, "arith-mutates", "")
    op = int(rng.integers(4))
    if op == 0:
        a += b
        want = add
    elif op == 1:
        a += k
        want = map_tree(t, lambda x: x + k)
    elif op == 2:
        a *= k
        want = map_tree(t, lambda x: x * k)
    else:
        a /= k
        want = map_tree(t, lambda x: x / k)
    same(ctx, a, want, "inplace", f"op {op}")
    same(ctx, b, u, "inplace-mutates", "")
    ctx.raises(lambda: a + "x", TypeError, "arith-type")
    ctx.note("arith")
    ctx.sig("arith", op, structure(t))


def s_null(ctx, rng):
    import pandas as pd

    n = int(rng.integers(1, 8))
    t = rand_tree(rng, n, kinds="fno", empty=False)
    bad = np.zeros(n, bool)
    for p, v in leaves(t):
        if v.dtype.kind == "f":
            m = rng.random(v.shape) < 0.08
            v[m] = np.nan
            bad |= m.reshape(n, -1).any(1)
        elif v.dtype == object:
            m = rng.random(n) < 0.12
            v[m] = None
            bad |= m
    b = Batch(copy_tree(t))
    ctx.check(b.hasnull() == bool(bad.any()), "hasnull", f"{b.hasnull()} vs {bad}")
    isn = of_batch(b.isnull())
    d = tree_diff(isn, map_tree(t, lambda v: pd.isnull(v)), dtypes=False)
    ctx.check(d is None, "isnull", lambda: str(d))
    keep = ~bad
    out = b.dropnull()
    if keep.any():
        # rows come back in order; scalar rows keep one value per row
        want = map_tree(t, lambda v: v[keep])
        got = of_batch(out)
        for (p, w) in leaves(want):
            g = got
            for k in p:
                g = g[k]
            ctx.check(np.array_equal(np.asarray(g).reshape(-1), w.reshape(-1)), "dropnull", f"{p}: {g!r} vs {w!r}")
        if bad.any():
            ctx.note("dropped")
    else:
        ctx.check(len(out) == 0, "dropnull-all", f"{out}")
    same(ctx, b, t, "null-mutates", "")
    ctx.note("null")
    ctx.sig("null", int(bad.sum()), structure(t))


def s_setarr(ctx, rng):
    n = int(rng.integers(2, 9))
    t = rand_tree(rng, n, kinds="nf", depth=1, empty=False)
    b = Batch(copy_tree(t))
    arr = rng.normal(size=n)
    b.set_array_at_key(arr.copy(), "fresh")
    t["fresh"] = arr
    same(ctx, b, t, "set_array", "")
    idx = rng.permutation(n)[: int(rng.integers(1, n + 1))]
    sub = rng.normal(size=len(idx))
    b.set_array_at_key(sub.copy(), "fresh", index=idx)
    t["fresh"] = arr.copy()
    t["fresh"][idx] = sub
    same(ctx, b, t, "set_array-index", "only the given rows")
    dv = float(rng.integers(5))
    b.set_array_at_key(sub.copy(), "part", index=idx, default_value=dv)
    w = np.full(n, dv)
    w[idx] = sub
    t["part"] = w
    same(ctx, b, t, "set_array-default", f"default {dv}")
    ctx.raises(lambda: b.set_array_at_key(np.zeros(n + 1), "fresh"), ValueError, "set_array-len")
    same(ctx, b, t, "set_array-rejected", "")
    two = Batch(copy_tree(t)).to_at_least_2d()
    same(ctx, two, map_tree(t, np.atleast_2d), "atleast2d", "")
    ctx.note("setarr")
    ctx.sig("setarr", n, structure(t))
    ctx.sample(structure(t))


def with_nulls(rng, n, depth=2):
    """A tree with None leaves, empty sub-batches, zero-length arrays and ordinary leaves at every level."""
    out = {}
    for i in range(int(rng.integers(1, 5))):
        r = rng.random()
        k = f"{'abcdefgh'[i]}{depth}"
        if r < 0.2:
            out[k] = None
        elif r < 0.35:
            out[k] = {}
        elif r < 0.45:
            out[k] = np.zeros((0, 2))
        elif r < 0.7 and depth:
            out[k] = with_nulls(rng, n, depth - 1)
        else:
            out[k] = rand_array(rng, (n, 2), "nft")
    return out


def s_structure(ctx, rng):
    """Trees with None leaves / empty sub-batches: copying, pickling and the structure skeleton."""
    n = int(rng.integers(1, 5))
    t = with_nulls(rng, n)
    b = Batch(copy_tree(t))
    same(ctx, b, t, "nulls-construct", "")
    for name, c in (("deepcopy", copy.deepcopy(b)), ("pickle", pickle.loads(pickle.dumps(b))), ("copy=True", Batch(b, copy=True)), ("of-dict", Batch(b.to_dict()))):
        same(ctx, c, t, f"nulls-{name}", name)
    for rec in (True, False):
        d = b.to_dict(recursive=rec)
        ctx.check(type(d) is dict and set(d) == set(t), "todict-keys", f"{d}")
        nested = [k for k, v in t.items() if isinstance(v, dict)]
        ctx.check(all(type(d[k]) is (dict if rec else Batch) for k in nested), "todict-nesting", f"recursive={rec}: {d}")
        if not rec:
            ctx.check(all(d[k] is b[k] for k in d), "todict-same", "shallow to_dict keeps the values")

    def skel(x):
        return {k: (None if v == {} else skel(v)) if isinstance(v, dict) else v for k, v in x.items()}

    b.replace_empty_batches_by_none()
    same(ctx, b, skel(t), "empties-to-none", "")
    # with a transform to None this is the structure of the batch
    c = Batch(copy_tree(t)).apply_values_transform(lambda x: None)
    same(ctx, c, map_tree(t, lambda v: None), "apply-none", "")
    ctx.note("structure")
    ctx.sig("structure", structure(t))


def s_eqfine(ctx, rng):
    """Equality is exact: tiny differences, order, shape and type of content all matter."""
    n = int(rng.integers(1, 6))
    x = rng.normal(size=(n, 3)) * 10.0 ** rng.integers(-3, 4)
    tree = lambda v: {"a": {"b": v}, "c": np.arange(n)}  # noqa: E731
    a = Batch(copy_tree(tree(x)))
    ctx.check(a == Batch(copy_tree(tree(x))), "eqfine-same", "")
    y = x.copy()
    i = (int(rng.integers(n)), int(rng.integers(3)))
    rel = 10.0 ** -int(rng.integers(3, 13))
    y[i] *= 1 + rel
    if y[i] != x[i]:
        mk = (lambda v: torch.as_tensor(v)) if rng.random() < 0.4 else (lambda v: v)
        ctx.check(not (Batch(tree(mk(x.copy()))) == Batch(tree(mk(y)))), "eqfine-value", f"relative change {rel} is not seen")
        ctx.check(Batch(tree(mk(x.copy()))) != Batch(tree(mk(y))), "neqfine-value", f"relative change {rel} is not seen")
    if n > 1:
        z = x[::-1].copy()
        ctx.check(not (a == Batch(tree(z))), "eqfine-order", "reversed rows compare equal")
        ctx.check(not (a == a[: n - 1]), "eqfine-prefix", "a prefix compares equal")
        ctx.check(not (a == a[np.r_[np.arange(n), n - 1]]), "eqfine-longer", "")
    ctx.check(not (a == Batch(tree(None))), "eqfine-none", "")
    ctx.note("eq")
    ctx.sig("eqfine", n, round(float(np.log10(rel))))


def s_setarr_missing(ctx, rng):
    """Partial assignment to a missing key without a default: null-like rows or a refusal, never invented values."""
    n = int(rng.integers(2, 8))
    b = Batch(u=np.arange(n))
    idx = np.sort(rng.permutation(n)[: int(rng.integers(1, n))])
    rest = np.setdiff1d(np.arange(n), idx)
    kind = int(rng.integers(3))
    if kind == 0:
        arr = rng.normal(size=len(idx)).astype([np.float32, np.float64][int(rng.integers(2))])
        b.set_array_at_key(arr, "k", index=idx)
        ctx.equal(b.k[idx], arr, "setmiss-value", "")
        ctx.check(b.k.dtype == arr.dtype and np.isnan(b.k[rest]).all(), "setmiss-nan", f"{b.k}")
    elif kind == 1:
        arr = np.array([f"o{i}" for i in idx], dtype=object)
        b.set_array_at_key(arr, "k", index=idx)
        ctx.check(list(b.k[idx]) == list(arr) and all(v is None for v in b.k[rest]), "setmiss-object", f"{b.k}")
    else:
        arr = rng.integers(0, 9, size=len(idx))
        ctx.raises(lambda: b.set_array_at_key(arr, "k", index=idx), TypeError, "setmiss-int", "integers have no null value")
        ctx.check("k" not in b, "setmiss-int-left", f"{b}")
        b.set_array_at_key(arr, "k", index=idx, default_value=-3)
        ctx.check(np.array_equal(b.k[idx], arr) and (b.k[rest] == -3).all() and b.k.dtype == arr.dtype, "setmiss-default", f"{b.k}")
    b.sub = Batch(x=np.arange(n))
    ctx.raises(lambda: b.set_array_at_key(np.zeros(len(idx)), "sub", index=idx), ValueError, "setmiss-nested", "")
    ctx.equal(b.sub.x, np.arange(n), "setmiss-nested-kept", "")
    ctx.note("setarr")
    ctx.sig("setmiss", kind, n, len(idx))


SCENARIOS = [
    Scenario("structure", s_structure, 120, 2500),
    Scenario("eqfine", s_eqfine, 60, 1000),
    Scenario("setmiss", s_setarr_missing, 60, 1000),
    Scenario("convert", s_convert, 150, 3000),
    Scenario("copy", s_copy, 80, 2000),
    Scenario("eq", s_eq, 80, 1500),
    Scenario("arith", s_arith, 150, 3000),
    Scenario("null", s_null, 80, 1500),
    Scenario("setarr", s_setarr, 60, 1000),
]
