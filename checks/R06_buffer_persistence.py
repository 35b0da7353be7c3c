"""Saving, loading, copying, importing and transferring stored experience."""
import copy
import os
import pickle

import h5py
import numpy as np
import torch
from tianshou.data import Batch, CachedReplayBuffer, ReplayBuffer, VectorReplayBuffer
from tianshou.data.utils.converter import from_hdf5, to_hdf5
from vlib.bufmodel import Driver, Ring, Rings, Spec, Streams, batch_of, batch_tree, clean, prune, single_of, stack_recs
from vlib.core import Scenario

RULE = (
    "buffers of every class with random histories are pickled, deep-copied or saved to HDF5 and restored; original and "
    "restored buffers then continue with further operations and must agree with the reference model and each other; "
    "imports from arrays and transfers between buffers likewise; distinct = (class, format, state)"
)
MIN = {"roundtrips": 150, "continued_adds": 1000, "imports": 40, "transfers": 60, "trees": 100}


def clone(rng, buf, how, ctx):
    if how == "pickle":
        return pickle.loads(pickle.dumps(buf))
    if how == "deepcopy":
        return copy.deepcopy(buf)
    path = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), f"b{os.getpid()}_{int(rng.integers(1 << 30))}.h5")
    buf.save_hdf5(path, compression=[None, "gzip"][int(rng.integers(2))])
    out = type(buf).load_hdf5(path)
    os.remove(path)
    return out


def nav(ctx, d, what):
    slots = d.model.slots()
    ctx.equal(np.sort(np.asarray(d.buf.unfinished_index())).astype(int), np.sort(np.array(d.model.unfinished(), int)), "unfinished", what)
    if slots:
        pm, nm = d.model.prev_map(), d.model.next_map()
        idx = np.array(slots)
        ctx.equal(np.asarray(d.buf.prev(idx)).astype(int), np.array([pm[s] for s in slots]), "prev", what)
        ctx.equal(np.asarray(d.buf.next(idx)).astype(int), np.array([nm[s] for s in slots]), "next", what)


def s_roundtrip(ctx, rng):
    d = Driver(ctx, rng, stack_num=1 if rng.random() < 0.6 else 2, ignore_obs_next=bool(rng.random() < 0.3), sample_avail=False)
    if d.buf.stack_num > 1:
        # contents are compared unstacked
        d.buf.stack_num = 1
        for b in getattr(d.buf, "buffers", []):
            b.stack_num = 1
    for _ in range(int(rng.integers(0, 40))):
        d.add()
    if d.kind.startswith("prio") and len(d.model):
        s = np.array(d.model.slots())
        d.buf.update_weight(s, rng.random(len(s)) * 3)
    how = ["pickle", "deepcopy", "hdf5"][int(rng.integers(3))]
    orig = d.buf
    new = clone(rng, orig, how, ctx)
    ctx.trace.append(how)
    ctx.check(type(new) is type(orig), "type", type(new))
    if len(d.model):
        for k in (5, 0):
            np.random.seed(7)
            a, ia = orig.sample(k)
            np.random.seed(7)
            b, ib = new.sample(k)
            ctx.equal(np.asarray(ib), np.asarray(ia), "same-sampling", how)
            ctx.close(prune(batch_tree(b)), prune(batch_tree(a)), "same-data", how, rtol=1e-7)
        before = batch_tree(orig[np.array(d.model.slots())])
        slots0 = d.model.slots()
    d.buf = new
    d.check_contents(f"after {how}")
    if len(d.model):
        nav(ctx, d, how)
    ctx.note("roundtrips")
    for _ in range(int(rng.integers(5, 40))):
        if rng.random() < 0.04:
            d.reset()
        else:
            d.add()
            ctx.note("continued_adds")
        if rng.random() < 0.4:
            d.check_contents(f"continued after {how}")
            nav(ctx, d, f"continued after {how}")
    if len(slots0 if "slots0" in dir() else []):
        pass
    if "before" in locals():
        ctx.equal(batch_tree(orig[np.array(slots0)]), before, "copy-not-independent", f"original changed by using its {how} copy")
    ctx.sig(d.kind, how, tuple((r.size, len(r.items)) for r in d.model.rings))


def s_cached(ctx, rng):
    n, main_size, cache = int(rng.integers(1, 4)), int(rng.integers(1, 20)), int(rng.integers(1, 7))
    spec = Spec(rng, rew_dim=0)
    buf = CachedReplayBuffer(ReplayBuffer(main_size), n, cache)
    m = Rings([main_size] + [cache] * n)
    st = Streams(rng, spec, n, max_ep=cache)
    how = ["pickle", "deepcopy", "hdf5"][int(rng.integers(3))]
    at = int(rng.integers(1, 20))
    for step in range(at + int(rng.integers(5, 25))):
        if step == at:
            buf = clone(rng, buf, how, ctx)
            ctx.note("roundtrips")
        recs = [st.step(i) for i in range(n)]
        for i, r in enumerate(recs):
            m.rings[i + 1].add(r)
        for i, r in enumerate(recs):
            if r["done"]:
                for _, rec in m.rings[i + 1].items:
                    m.rings[0].put(rec)
                m.rings[i + 1].reset()
        buf.add(batch_of(recs))
        slots = m.slots()
        ctx.equal(np.asarray(buf.sample_indices(0)).astype(int), np.array(slots, int), "all-indices", f"{how} step {step} at {at}")
        if slots:
            by = m.by_slot()
            ctx.close(prune(batch_tree(buf[np.array(slots)])), prune(stack_recs([clean(by[s]) for s in slots])), "content", f"{how} step {step} at {at}", rtol=1e-6)
        ctx.equal(np.sort(np.asarray(buf.unfinished_index())).astype(int), np.sort(np.array(m.unfinished(), int)), "unfinished", f"{how} step {step} at {at}")
        if step >= at:
            ctx.note("continued_adds", n)
    ctx.sig("cached", how, n, main_size, cache, at)


def s_import(ctx, rng):
    n = int(rng.integers(1, 30))
    spec = Spec(rng, obs=["vec", "scalar", "img"][int(rng.integers(3))], rew_dim=0, info=False, policy=False)
    st = Streams(rng, spec, 1, max_ep=6)
    ring = Ring(n)
    recs = [st.step(0) for _ in range(n)]
    for r in recs:
        ring.add(r)
    arr = {k: v for k, v in stack_recs([clean(r) for r in recs]).items() if k not in ("info", "policy")}
    if rng.random() < 0.5:
        path = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), f"i{os.getpid()}_{int(rng.integers(1 << 30))}.h5")
        with h5py.File(path, "w") as f:
            for k, v in arr.items():
                f.create_dataset(k, data=v)
        with h5py.File(path, "r") as f:
            buf = ReplayBuffer.from_data(*[f[k] for k in ("obs", "act", "rew", "terminated", "truncated", "done", "obs_next")])
            check_import(ctx, rng, buf, ring, spec, st, arr)
        os.remove(path)
    else:
        buf = ReplayBuffer.from_data(*[arr[k] for k in ("obs", "act", "rew", "terminated", "truncated", "done", "obs_next")])
        check_import(ctx, rng, buf, ring, spec, st, arr)
    ctx.note("imports")
    ctx.sig("import", n)
    bad = dict(arr)
    bad["rew"] = bad["rew"][:-1]
    ctx.raises(lambda: ReplayBuffer.from_data(*[bad[k] for k in ("obs", "act", "rew", "terminated", "truncated", "done", "obs_next")]), Exception, "import-length-mismatch", "")


def check_import(ctx, rng, buf, ring, spec, st, arr):
    n = ring.size
    ctx.equal(len(buf), n, "import-length", "")
    ctx.equal(buf.maxsize, n, "import-maxsize", "")
    idx = np.arange(n)
    ctx.equal(np.asarray(buf.sample_indices(0)).astype(int), idx, "import-order", "")
    got = prune(batch_tree(buf[idx]))
    ctx.close(got, {k: v for k, v in arr.items()}, "import-content", "", rtol=1e-6)
    pm, nm = ring.prev_map(), ring.next_map()
    ctx.equal(np.asarray(buf.prev(idx)).astype(int), np.array([pm[i] for i in idx]), "import-prev", "")
    ctx.equal(np.asarray(buf.next(idx)).astype(int), np.array([nm[i] for i in idx]), "import-next", "")
    ctx.equal(np.asarray(buf.unfinished_index()).astype(int), np.array(ring.unfinished(), int), "import-unfinished", "")
    b, i = buf.sample(9)
    ctx.close(np.asarray(b.rew), arr["rew"][np.asarray(i)], "import-sample", "", rtol=1e-6)


def s_update(ctx, rng):
    """a.update(b) appends b's transitions to a in chronological order."""
    spec = Spec(rng, rew_dim=0)
    st = Streams(rng, spec, 2, max_ep=7)
    A, B = ReplayBuffer(int(rng.integers(1, 15))), ReplayBuffer(int(rng.integers(1, 15)), stack_num=int(rng.integers(1, 3)))
    ra, rb = Ring(A.maxsize), Ring(B.maxsize)
    if rng.random() < 0.2:
        ctx.equal(len(A.update(B)), 0, "update-empty", "")
    for _ in range(int(rng.integers(1, 5))):
        for _ in range(int(rng.integers(0, 12))):
            r = st.step(1)
            B.add(single_of(r))
            rb.add(r)
        if len(rb.items) == 0:
            continue
        got = A.update(B)
        want = [ra.put(rec) for _, rec in rb.items]
        ctx.equal(np.asarray(got).astype(int), np.array(want), "update-indices", "")
        ctx.equal(B.stack_num, B.options["stack_num"], "update-side-effect", "stack number of the source")
        ctx.equal(len(B), len(rb.items), "update-side-effect", "length of the source")
        ctx.equal(len(A), len(ra.items), "length", "")
        idx = np.array(ra.slots())
        ctx.equal(np.asarray(A.sample_indices(0)).astype(int), idx, "update-order", "")
        by = ra.by_slot()
        ctx.close(prune(batch_tree(A[idx])), prune(stack_recs([clean(by[s]) for s in idx])), "update-content", "", rtol=1e-6)
        pm, nm = ra.prev_map(), ra.next_map()
        ctx.equal(np.asarray(A.prev(idx)).astype(int), np.array([pm[i] for i in idx]), "prev", "")
        ctx.equal(np.asarray(A.next(idx)).astype(int), np.array([nm[i] for i in idx]), "next", "")
        ctx.equal(np.asarray(A.unfinished_index()).astype(int), np.array(ra.unfinished(), int), "unfinished", "")
        # independence
        rew = A.rew.copy()
        B.rew[...] += 0.0
        saved = B.rew.copy()
        B.rew[...] = 1e7
        ctx.equal(A.rew, rew, "update-aliases-source", "")
        B.rew[...] = saved
        ctx.note("transfers")
        ctx.sig("update", A.maxsize, B.maxsize, len(ra.items), len(rb.items))


def s_dropnull(ctx, rng):
    """Dropping incomplete transitions keeps exactly the complete stored ones."""
    buf = ReplayBuffer(6)
    n = [4, 6][ctx.case % 2]
    for i in range(n):
        buf.add(Batch(obs=np.array([float(i)]), act=np.array(i), rew=np.nan if i == 1 else float(i), terminated=False, truncated=False, obs_next=np.array([i + 1.0]), info={}))
    buf.dropnull()
    ctx.equal(buf[:].act.tolist(), [i for i in range(n) if i != 1], "dropnull-contents", f"{n} of 6 slots used")


NPT = [np.bool_, np.int8, np.uint8, np.int16, np.int32, np.int64, np.float16, np.float32, np.float64]
PTT = [torch.bool, torch.uint8, torch.int8, torch.int32, torch.int64, torch.float16, torch.float32, torch.float64]


def h5_leaf(rng):
    shape = tuple(int(x) for x in rng.integers(1, 4, size=int(rng.integers(1, 4))))
    if rng.random() < 0.15:
        shape = [(), (0,), (2, 0)][int(rng.integers(3))]
    k = int(rng.integers(9))
    if k < 3:
        return np.asarray(rng.normal(size=shape) * 50).astype(NPT[int(rng.integers(len(NPT)))])
    if k < 5:
        return torch.as_tensor(rng.normal(size=shape) * 50).to(PTT[int(rng.integers(len(PTT)))])
    if k == 5:
        return [int(rng.integers(-1000, 1000)), float(rng.normal()), bool(rng.integers(2)), 2**40 + 1, 1e-300][int(rng.integers(5))]
    if k == 6:
        return ["text", None, [1, "a"], (2.5, None), {1, 2}][int(rng.integers(5))]
    if k == 7:
        a = np.empty(3, dtype=object)
        a[:] = [None, "x", 3]
        return a
    return np.array(["ab", "c"], dtype=[None, object][int(rng.integers(2))])


def h5_tree(rng, depth):
    out = {}
    for i in range(int(rng.integers(0 if depth < 2 else 1, 5))):
        if depth and rng.random() < 0.4:
            sub = h5_tree(rng, depth - 1)
            if rng.random() < 0.5:
                sub = Batch({k: v for k, v in sub.items() if isinstance(v, np.ndarray | torch.Tensor | Batch)})
            out[f"k{i}"] = sub
        else:
            out[f"k{i}"] = h5_leaf(rng)
    return out


def h5_diff(got, want, path=""):
    if isinstance(want, Batch):
        if not isinstance(got, Batch):
            return f"{path}: {type(got).__name__} instead of Batch"
        return h5_diff({k: got[k] for k in got.get_keys()}, {k: want[k] for k in want.get_keys()}, path)
    if isinstance(want, dict):
        if not isinstance(got, dict) or isinstance(got, Batch) or set(got) != set(want):
            return f"{path}: {got!r} instead of {want!r}"
        return next((d for k in want if (d := h5_diff(got[k], want[k], f"{path}/{k}"))), None)
    if isinstance(want, torch.Tensor):
        ok = isinstance(got, torch.Tensor) and got.dtype == want.dtype and torch.equal(got, want)
    elif isinstance(want, np.ndarray):
        ok = isinstance(got, np.ndarray) and got.dtype == want.dtype and got.shape == want.shape and bool(np.all(got == want))
    else:
        ok = not isinstance(got, np.ndarray | torch.Tensor) and bool(got == want)
    return None if ok else f"{path}: {got!r} instead of {want!r}"


def s_tree(ctx, rng):
    """Arbitrary nested data written to and read from an HDF5 group."""
    t = h5_tree(rng, 3)
    path = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), f"t{os.getpid()}_{int(rng.integers(1 << 30))}.h5")
    comp = [None, "gzip", "lzf"][int(rng.integers(3))]
    keep = copy.deepcopy(t)
    with h5py.File(path, "w") as f:
        to_hdf5(t, f, compression=comp)
    with h5py.File(path, "r") as f:
        out = from_hdf5(f, device=[None, "cpu"][int(rng.integers(2))])
    os.remove(path)
    d = h5_diff(out, keep)
    ctx.check(d is None, "hdf5-tree", lambda: f"compression {comp}: {d}")
    d2 = h5_diff(t, keep)
    ctx.check(d2 is None, "hdf5-tree-source", lambda: f"saving changed the source: {d2}")
    ctx.note("trees")
    ctx.sig("tree", comp, repr(t)[:200])


def s_tensors(ctx, rng):
    """Buffers whose rows hold tensors (recurrent states), strings and flags."""
    n, size = int(rng.integers(1, 4)), int(rng.integers(1, 8))
    buf = ReplayBuffer(size) if n == 1 else VectorReplayBuffer(size * n, n)
    dt = PTT[int(rng.integers(len(PTT)))]
    count, log = [0], []

    def row():
        count[0] += 1
        i = count[0]
        done = bool(rng.random() < 0.3)
        r = dict(obs=np.array([float(i)]), act=i, rew=float(i), terminated=done, truncated=False, obs_next=np.array([i + 1.0]),
                 info={"name": f"e{i}", "flag": bool(i % 2)}, policy=Batch(hidden_state=Batch(hidden=(torch.ones(2, 3) * i).to(dt), cell=torch.tensor([i, -i], dtype=torch.float64))))
        log.append(r)
        return r

    def add(b, rows):
        bt = Batch([Batch(r) for r in rows])
        if n == 1:
            bt = Batch([Batch(rows[0])])
            b.add(bt, buffer_ids=[0])
        else:
            b.add(bt)

    def table(b):
        x = b[b.sample_indices(0)]
        i = np.asarray(x.act).astype(int)
        ctx.check(isinstance(x.policy.hidden_state.hidden, torch.Tensor) and x.policy.hidden_state.hidden.dtype == dt, "tensor-kind", lambda: f"hidden state stored as {type(x.policy.hidden_state.hidden)}")
        want = torch.stack([log[k - 1]["policy"].hidden_state.hidden for k in i])
        ctx.check(torch.equal(x.policy.hidden_state.hidden, want), "tensor-rows", lambda: f"rows {i.tolist()}: {x.policy.hidden_state.hidden.tolist()}")
        ctx.check(torch.equal(x.policy.hidden_state.cell, torch.stack([log[k - 1]["policy"].hidden_state.cell for k in i])), "tensor-rows", lambda: f"cells of rows {i.tolist()}")
        ctx.equal([str(v) if isinstance(v, str) else repr(v) for v in x.info.name], [f"e{k}" for k in i], "string-rows", "")
        ctx.equal(np.asarray(x.info.flag).astype(bool), i % 2 == 1, "flag-rows", "")
        return i.tolist()

    for _ in range(int(rng.integers(1, 3 * size))):
        add(buf, [row() for _ in range(n)])
    before = table(buf)
    how = ["pickle", "deepcopy", "hdf5"][int(rng.integers(3))]
    new = clone(rng, buf, how, ctx)
    ctx.equal(table(new), before, "tensor-order", how)
    for _ in range(int(rng.integers(1, 2 * size + 2))):
        rows = [row() for _ in range(n)]
        add(new, rows)
        ctx.note("continued_adds", n)
        ctx.equal(table(buf), before, "copy-not-independent", how)
        add_again = table(new)
        ctx.check(all(r["act"] in add_again for r in rows), "tensor-added", lambda: f"{add_again}")
    ctx.note("roundtrips")
    ctx.sig("tensors", how, n, size, str(dt), len(before))


SCENARIOS = [
    Scenario("tensors", s_tensors, 60, 800),
    Scenario("tree", s_tree, 150, 2000),
    Scenario("roundtrip", s_roundtrip, 200, 2500),
    Scenario("cached", s_cached, 60, 700),
    Scenario("import", s_import, 60, 700),
    Scenario("update", s_update, 60, 800),
    Scenario("dropnull", s_dropnull, 2, 2),
]
