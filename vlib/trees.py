"""Random nested array trees plus the leaf-wise reference semantics used as oracle."""
from __future__ import annotations

from typing import Any

import numpy as np
import torch
from tianshou.data import Batch

NP_DTYPES = [np.float32, np.float64, np.int64, np.int32, np.uint8, np.bool_]
KEYS = ["obs", "act", "rew", "info", "a", "b", "c", "mask", "x1", "policy"]
EMPTY = "<empty>"


def rand_array(rng, shape, kinds="ntos"):
    k = kinds[int(rng.integers(len(kinds)))]
    if k == "n" or (k == "s" and False):
        dt = NP_DTYPES[int(rng.integers(len(NP_DTYPES)))]
        return (rng.integers(0, 100, size=shape)).astype(dt) if dt != np.bool_ else rng.random(shape) < 0.5
    if k == "f":
        return rng.normal(size=shape).astype([np.float32, np.float64][int(rng.integers(2))])
    if k == "t":
        dt = [torch.float32, torch.float64, torch.int64][int(rng.integers(3))]
        return torch.as_tensor(rng.integers(0, 100, size=shape)).to(dt)
    if k == "o":
        a = np.empty(shape[:1], dtype=object)
        for i in range(shape[0]):
            a[i] = f"s{int(rng.integers(1000))}"
        return a
    # 's': float with shape
    return rng.normal(size=shape)


def rand_shape(rng, n):
    return (n, *[int(s) for s in rng.integers(1, 4, size=int(rng.integers(0, 3)))])


def rand_tree(rng, n, depth=2, kinds="nnnfto", empty=True, minkeys=1):
    keys = list(rng.permutation(KEYS)[: int(rng.integers(minkeys, 5))])
    out: dict[str, Any] = {}
    for k in keys:
        r = rng.random()
        if depth > 0 and r < 0.25:
            out[str(k)] = rand_tree(rng, n, depth - 1, kinds, empty)
        elif empty and depth < 2 and r < 0.30:
            out[str(k)] = {}
        else:
            out[str(k)] = rand_array(rng, rand_shape(rng, n), kinds)
    if not any(not isinstance(v, dict) for v in out.values()):
        out["leaf"] = rand_array(rng, rand_shape(rng, n), kinds)
    return out


def copy_leaf(v):
    if isinstance(v, torch.Tensor):
        return v.clone()
    if isinstance(v, np.ndarray):
        return v.copy()
    return v


def copy_tree(t):
    return {k: copy_tree(v) if isinstance(v, dict) else copy_leaf(v) for k, v in t.items()}


def map_tree(t, fn):
    return {k: map_tree(v, fn) if isinstance(v, dict) else fn(v) for k, v in t.items()}


def map2(t, u, fn):
    return {k: map2(v, u[k], fn) if isinstance(v, dict) else fn(v, u[k]) for k, v in t.items()}


def leaves(t, path=()):
    for k, v in t.items():
        if isinstance(v, dict):
            yield from leaves(v, (*path, k))
        else:
            yield (*path, k), v


def structure(t):
    return {k: structure(v) if isinstance(v, dict) else kind(v) for k, v in t.items()}


def kind(v):
    if isinstance(v, torch.Tensor):
        return ("t", tuple(v.shape[1:]), str(v.dtype))
    if isinstance(v, np.ndarray):
        return ("n", v.shape[1:], str(v.dtype))
    return type(v).__name__


def of_batch(b):
    """Batch -> plain nested dict (public accessors only)."""
    return {k: of_batch(b[k]) if isinstance(b[k], Batch) else b[k] for k in b.get_keys()}


def tree_diff(got, want, path="", dtypes=True):
    """Exact comparison of two nested dicts, container kind and dtype included."""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return f"{path}: expected nested, got {type(got).__name__} {got!r:.80}"
        if set(got) != set(want):
            return f"{path}: keys {sorted(got)} != {sorted(want)}"
        for k in want:
            d = tree_diff(got[k], want[k], f"{path}.{k}", dtypes)
            if d:
                return d
        return None
    if isinstance(got, dict):
        return f"{path}: unexpected nested {got!r:.80}"
    if isinstance(want, torch.Tensor):
        if not isinstance(got, torch.Tensor):
            return f"{path}: expected tensor got {type(got).__name__}"
        if dtypes and got.dtype != want.dtype:
            return f"{path}: dtype {got.dtype} != {want.dtype}"
        if got.shape != want.shape or not torch.equal(got, want.to(got.dtype)):
            return f"{path}: got {got!r:.160} want {want!r:.160}"
        return None
    if isinstance(want, np.ndarray):
        if not isinstance(got, np.ndarray):
            return f"{path}: expected ndarray got {type(got).__name__} {got!r:.80}"
        if dtypes and got.dtype != want.dtype:
            return f"{path}: dtype {got.dtype} != {want.dtype}"
        if got.shape != want.shape:
            return f"{path}: shape {got.shape} != {want.shape}"
        if want.dtype == object:
            same = all(a is b or a == b for a, b in zip(got.ravel(), want.ravel()))
        else:
            same = np.array_equal(got, want, equal_nan=want.dtype.kind == "f")
        return None if same else f"{path}: got {got!r:.160} want {want!r:.160}"
    if isinstance(want, np.generic) or isinstance(got, np.generic):
        if np.asarray(got).shape != () or not (got == want or (got != got and want != want)):
            return f"{path}: got {got!r} want {want!r}"
        if dtypes and isinstance(want, np.generic) and isinstance(got, np.generic) and got.dtype != want.dtype:
            return f"{path}: scalar dtype {got.dtype} != {want.dtype}"
        return None
    same = got is want or got == want
    return None if same else f"{path}: got {got!r:.100} want {want!r:.100}"


def rand_index(rng, n):
    """A random index over the first axis, with its name and an np/torch-usable form."""
    r = int(rng.integers(9))
    if r == 0:
        return "int", int(rng.integers(0, n))
    if r == 1:
        return "negint", -int(rng.integers(1, n + 1))
    if r == 2:
        a, b = sorted(int(x) for x in rng.integers(0, n + 1, size=2))
        return "slice", slice(a, b)
    if r == 3:
        return "step", slice(None, None, int(rng.integers(1, 4)))
    if r == 4:
        return "intarr", rng.integers(-n, n, size=int(rng.integers(1, 2 * n + 1)))
    if r == 5:
        return "boolarr", rng.random(n) < 0.5
    if r == 6:
        return "list", [int(x) for x in rng.integers(0, n, size=int(rng.integers(1, n + 1)))]
    if r == 7:
        return "npint", np.int64(rng.integers(0, n))
    return "perm", rng.permutation(n)
