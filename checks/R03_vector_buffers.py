"""Vectorised storage behaves like independent buffers; cached storage moves finished episodes exactly once."""
import copy

import numpy as np
from tianshou.data import Batch, CachedReplayBuffer, ReplayBuffer, ReplayBufferManager, VectorReplayBuffer
from vlib.bufmodel import Ring, Rings, Spec, Streams, batch_of, batch_tree, clean, prune, single_of, stack_recs, storage
from vlib.core import Scenario

RULE = (
    "the same interleaved episode streams are fed to a vector buffer and to separately constructed single buffers "
    "(the real class), to which every observable is compared; for the cached buffer a reference of one main ring "
    "plus per-stream rings is used and unique ids are counted; distinct = (layout, per-sub-buffer fill and position)"
)
MIN = {"vec_adds": 2000, "cached_adds": 2000, "moves": 400, "main_wrapped": 15, "long_episode": 10, "isolation": 300, "set_batches": 20}


def s_vector(ctx, rng):
    n = int(rng.integers(1, 6))
    equal = rng.random() < 0.6
    sizes = [int(rng.integers(1, 10))] * n if equal else [int(s) for s in rng.integers(1, 10, n)]
    ign = bool(rng.random() < 0.3)
    spec = Spec(rng)
    kw = {"ignore_obs_next": ign}
    vec = VectorReplayBuffer(n * sizes[0], n, **kw) if equal else ReplayBufferManager([ReplayBuffer(s, **kw) for s in sizes])
    ind = [ReplayBuffer(s, **kw) for s in sizes]
    off = np.concatenate([[0], np.cumsum(sizes)])
    st = Streams(rng, spec, n, max_ep=int(rng.integers(1, 10)))
    ctx.trace.append((sizes, ign, spec.sig()))
    for _ in range(int(rng.integers(5, 40))):
        if rng.random() < 0.03:
            vec.reset()
            for b in ind:
                b.reset()
            for i in range(n):
                st.restart(i)
        if rng.random() < 0.04 and len(storage(vec).get_keys()) and all(len(b) for b in ind):  # replace the whole storage
            keys = list(storage(vec).get_keys())
            new = Batch({k: copy.deepcopy(getattr(vec, k)) for k in keys})
            new.rew += 1000.0
            for i, b in enumerate(ind):
                b.set_batch(copy.deepcopy(new[off[i] : off[i + 1]]))
            vec.set_batch(new)
            ctx.note("set_batches")
            ctx.trace.append("set_batch")
        ids = [int(i) for i in rng.permutation(n)[: int(rng.integers(1, n + 1))]]
        recs = [st.step(i) for i in ids]
        others = [i for i in range(n) if i not in ids]
        before = {i: batch_tree(storage(vec)[off[i] : off[i + 1]]) for i in others} if len(storage(vec).get_keys()) else {}
        got = vec.add(batch_of(recs), buffer_ids=ids if rng.random() < 0.5 else np.array(ids))
        ctx.trace.append((ids, [(r["__uid"], bool(r["done"])) for r in recs]))
        exp = [ind[i].add(single_of(r)) for i, r in zip(ids, recs)]
        ctx.equal(np.asarray(got[0]), np.array([e[0][0] + off[i] for i, e in zip(ids, exp)]), "insertion-index", str(ids))
        ctx.close(np.asarray(got[1], float), np.array([e[1][0] for e in exp], float), "episode-return", "", rtol=1e-9, atol=1e-9)
        ctx.equal(np.asarray(got[2]), np.array([e[2][0] for e in exp]), "episode-length", "")
        ctx.equal(np.asarray(got[3]), np.array([e[3][0] + off[i] for i, e in zip(ids, exp)]), "episode-start", "")
        for i, t in before.items():
            ctx.equal(batch_tree(storage(vec)[off[i] : off[i + 1]]), t, "isolation", f"sub-buffer {i} changed by an add to {ids}")
            ctx.note("isolation")
        ctx.note("vec_adds", len(ids))
        ctx.equal(len(vec), sum(len(b) for b in ind), "length", "")
        ctx.equal(
            np.asarray(vec.sample_indices(0)).astype(int),
            np.concatenate([np.asarray(b.sample_indices(0)) + o for b, o in zip(ind, off)]).astype(int),
            "all-indices", "",
        )
        un = [np.asarray(b.unfinished_index()) + o for b, o in zip(ind, off) if len(b)]
        ctx.equal(np.sort(np.asarray(vec.unfinished_index())).astype(int), np.sort(np.concatenate(un)).astype(int), "unfinished", "")
        for i, b in enumerate(ind):
            if not len(b):
                continue
            loc = np.asarray(b.sample_indices(0))
            ctx.equal(np.asarray(vec.prev(loc + off[i])), np.asarray(b.prev(loc)) + off[i], "prev", f"sub {i}")
            ctx.equal(np.asarray(vec.next(loc + off[i])), np.asarray(b.next(loc)) + off[i], "next", f"sub {i}")
            ctx.close(prune(batch_tree(vec[loc + off[i]])), prune(batch_tree(b[loc])), "content", f"sub {i}", rtol=1e-6)
            ctx.close(prune(batch_tree(vec.buffers[i][loc])), prune(batch_tree(b[loc])), "sub-buffer-content", f"sub {i}", rtol=1e-6)
        ctx.sig(tuple(sizes), ign, tuple((len(b), int(b.last_index[0])) for b in ind))
    mixed = np.asarray(vec.sample_indices(0))
    mixed = mixed[rng.permutation(len(mixed))]
    wp = [np.asarray(ind[int(np.searchsorted(off, i, side="right")) - 1].prev(np.array([i - off[int(np.searchsorted(off, i, side="right")) - 1]])))[0] + off[int(np.searchsorted(off, i, side="right")) - 1] for i in mixed]
    ctx.equal(np.asarray(vec.prev(mixed)), np.array(wp), "prev", "mixed sub-buffers")


def s_cached(ctx, rng):
    n = int(rng.integers(1, 5))
    main_size = int(rng.integers(1, 30))
    cache = int(rng.integers(1, 10))
    max_ep = int(rng.integers(1, cache + 1)) if rng.random() < 0.75 else cache + 3
    spec = Spec(rng, rew_dim=0, info=True)
    buf = CachedReplayBuffer(ReplayBuffer(main_size), n, cache)
    m = Rings([main_size] + [cache] * n)
    main = m.rings[0]
    st = Streams(rng, spec, n, max_ep=max_ep)
    finished: list[int] = []  # uids in the order their episodes completed
    ctx.trace.append((main_size, cache, n, max_ep, spec.sig()))
    for _ in range(int(rng.integers(8, 70))):
        ids = [int(i) for i in rng.permutation(n)[: int(rng.integers(1, n + 1))]]
        if rng.random() < 0.4:
            ids = list(range(n))
        recs = [st.step(i) for i in ids]
        want = []
        for i, r in zip(ids, recs):
            want.append(list(m.rings[i + 1].add(r)))
        for k, (i, r) in enumerate(zip(ids, recs)):
            if r["done"]:
                ring = m.rings[i + 1]
                if want[k][2] > cache:
                    ctx.note("long_episode")
                slots = [main.put(rec) for _, rec in ring.items]
                finished += [rec["__uid"] for _, rec in ring.items]
                want[k][0], want[k][3] = slots[-1], slots[0]
                ring.reset()
                ctx.note("moves")
        full = ids == list(range(n)) and rng.random() < 0.5
        got = buf.add(batch_of(recs)) if full else buf.add(batch_of(recs), buffer_ids=ids if rng.random() < 0.5 else np.array(ids))
        ctx.trace.append((ids, [(r["__uid"], bool(r["done"])) for r in recs]))
        for j, kind in enumerate(["insertion-index", "episode-return", "episode-length", "episode-start"]):
            ctx.close(np.asarray(got[j], float).reshape(-1), np.array([float(w[j]) for w in want]), kind, f"add({ids})", atol=1e-9)
        ctx.note("cached_adds", len(ids))
        ctx.equal(len(buf), len(m), "length", "")
        slots = m.slots()
        ctx.equal(np.asarray(buf.sample_indices(0)).astype(int), np.array(slots, int), "all-indices", "")
        if slots:
            by = m.by_slot()
            exp = prune(stack_recs([clean(by[s]) for s in slots]))
            ctx.close(prune(batch_tree(buf[np.array(slots)])), exp, "content", "", rtol=1e-6)
            uids = [int(u) for u in np.asarray(buf[np.array(slots)].info.uid)]
            ctx.check(len(set(uids)) == len(uids), "duplicated", f"{uids}")
            # the main part holds the most recent finished transitions, contiguous and in order
            k = len(main.items)
            ctx.equal(uids[:k], finished[-k:] if k else [], "main-order", "")
            ctx.equal(len(finished[-main_size:]), k, "main-lost", "")
            idx = np.array(slots)
            pm, nm = m.prev_map(), m.next_map()
            ctx.equal(np.asarray(buf.prev(idx)).astype(int), np.array([pm[s] for s in slots]), "prev", "")
            ctx.equal(np.asarray(buf.next(idx)).astype(int), np.array([nm[s] for s in slots]), "next", "")
            ctx.equal(np.sort(np.asarray(buf.unfinished_index())).astype(int), np.sort(np.array(m.unfinished(), int)), "unfinished", "")
        if len(main.items) == main_size and len(finished) > main_size:
            ctx.note("main_wrapped")
        ctx.sig(main_size, cache, n, len(main.items), main.ptr, tuple(len(r.items) for r in m.rings[1:]))


SCENARIOS = [
    Scenario("vector", s_vector, 120, 1500),
    Scenario("cached", s_cached, 140, 1800),
]
