"""Episode structure: predecessor, successor, unfinished and whole-episode retrieval."""
import numpy as np
from vlib.bufmodel import Driver, Spec
from vlib.core import Scenario

RULE = (
    "for random histories on every buffer class, prev/next of every stored index (array, scalar and permuted), "
    "unfinished indices, sub-buffer edges and episode retrieval are compared with the recorded order of additions; "
    "distinct = (buffer class, ring sizes, ring fill and write position vector)"
)
MIN = {"nav_checks": 1500, "episodes_fetched": 400, "edge_crossing": 60, "cross_subbuffer": 60}


def check_nav(ctx, rng, d):
    m, buf = d.model, d.buf
    slots = m.slots()
    pm, nm = m.prev_map(), m.next_map()
    ctx.equal(np.sort(np.asarray(buf.unfinished_index()).astype(int)), np.sort(np.array(m.unfinished(), int)), "unfinished", "unfinished_index()")
    ctx.equal(np.asarray(buf.subbuffer_edges).astype(int), np.array(m.edges()), "edges", "subbuffer_edges")
    if not slots:
        return
    idx = np.array(slots)
    idx = idx[rng.permutation(len(idx))]
    if rng.random() < 0.5:
        idx = np.concatenate([idx, rng.choice(idx, 3)])
    ctx.equal(np.asarray(buf.prev(idx)).astype(int), np.array([pm[i] for i in idx]), "prev", lambda: f"prev({idx.tolist()})")
    ctx.equal(np.asarray(buf.next(idx)).astype(int), np.array([nm[i] for i in idx]), "next", lambda: f"next({idx.tolist()})")
    i = int(idx[0])
    ctx.equal(int(np.asarray(buf.prev(i)).reshape(())), pm[i], "prev", f"prev({i})")
    ctx.equal(int(np.asarray(buf.next(i)).reshape(())), nm[i], "next", f"next({i})")
    # the argument is left alone
    keep = idx.copy()
    buf.prev(idx), buf.next(idx)
    ctx.equal(idx, keep, "argument-mutated", "prev/next")
    ctx.note("nav_checks")
    ctx.sig(d.kind, tuple((r.size, len(r.items), r.ptr) for r in m.rings))


def s_nav(ctx, rng):
    d = Driver(ctx, rng)
    for _ in range(int(rng.integers(5, 50))):
        if rng.random() < 0.03:
            d.reset()
        else:
            d.add()
        if rng.random() < 0.6:
            check_nav(ctx, rng, d)
    check_nav(ctx, rng, d)


def s_episode(ctx, rng):
    """add() reports the start; [start, last+1) must name exactly the episode, in order."""
    d = Driver(ctx, rng, max_ep=int(rng.integers(2, 9)))
    for _ in range(int(rng.integers(10, 60))):
        ids = d.choose_ids()
        want = d.add(ids)
        for j, w in zip(ids, want):
            if not w[2]:
                continue
            r = d.model.rings[j]
            ln = w[2]
            if ln >= r.size:  # overwritten by itself, or fills the ring (documented limitation)
                continue
            exp = [s + r.offset for s, _ in r.items[-ln:]]
            got = d.buf.get_buffer_indices(w[3], w[0] + 1)
            ctx.equal(np.asarray(got).astype(int), np.array(exp), "episode-indices", f"start {w[3]} last {w[0]}")
            if exp[0] > exp[-1]:
                ctx.note("edge_crossing")
            ctx.note("episodes_fetched")
            ctx.sig(d.kind, r.size, exp[0] - r.offset, ln)
    ep = d.model.episodes()
    for e in ep:
        if 1 < len(e) < min(r.size for r in d.model.rings):
            # walking with next() and prev() visits exactly the episode
            cur, walk = e[0], [e[0]]
            for _ in range(len(e) + 2):
                cur = int(np.asarray(d.buf.next(cur)))
                if cur == walk[-1]:
                    break
                walk.append(cur)
            ctx.equal(walk, e, "walk-forward", "")
            cur, walk = e[-1], [e[-1]]
            for _ in range(len(e) + 2):
                cur = int(np.asarray(d.buf.prev(cur)))
                if cur == walk[-1]:
                    break
                walk.append(cur)
            ctx.equal(walk[::-1], e, "walk-back", "")
            ctx.note("walks")


def s_cross(ctx, rng):
    d = Driver(ctx, rng, kind=["vector", "manager", "priovec"][int(rng.integers(3))], spec=Spec(rng, obs="vec"))
    edges = d.model.edges()
    for _ in range(10):
        a, b = int(rng.integers(0, d.model.maxsize)), int(rng.integers(0, d.model.maxsize))
        ra = int(np.searchsorted(edges, a, side="right"))
        rb = int(np.searchsorted(edges, b, side="right"))
        if ra != rb:
            ctx.raises(lambda: d.buf.get_buffer_indices(a, b + 1), ValueError, "cross-subbuffer", f"{a}..{b} in {edges}")
            ctx.note("cross_subbuffer")
        elif b >= a:
            ctx.equal(np.asarray(d.buf.get_buffer_indices(a, b + 1)), np.arange(a, b + 1), "range", f"{a}..{b}")
        elif b + 1 < a:
            lo, hi = edges[ra - 1], edges[ra]
            ctx.equal(np.asarray(d.buf.get_buffer_indices(a, b + 1)), np.concatenate([np.arange(a, hi), np.arange(lo, b + 1)]), "wrap-range", f"{a}..{b} in {edges}")
            ctx.note("edge_crossing")


SCENARIOS = [
    Scenario("nav", s_nav, 200, 3000),
    Scenario("episode", s_episode, 120, 1500),
    Scenario("cross", s_cross, 60, 400),
]
