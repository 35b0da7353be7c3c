"""Replay storage as a bounded FIFO: contents, indices and episode statistics of every add."""
import numpy as np
from tianshou.data import Batch, ReplayBuffer
from vlib.bufmodel import Driver, Spec, batch_tree
from vlib.core import Scenario

RULE = (
    "random histories of add/reset/read on every buffer class, each transition tagged with a unique id; after each "
    "operation the complete readable contents and the values reported by add are compared with a plain ring model; "
    "distinct = (buffer class, ring sizes, transition layout, fill/wrap/reset state reached)"
)
MIN = {"adds": 3000, "episodes": 400, "resets": 20, "content_checks": 800, "wrapped": 60, "ep_over_ring": 10, "slices": 30}


def s_history(ctx, rng):
    d = Driver(ctx, rng)
    n_ops = int(rng.integers(10, 60))
    if rng.random() < 0.3:
        d.st.extra_from = int(rng.integers(1, 30)) if d.spec.info else None
    wrapped = False
    for _ in range(n_ops):
        u = rng.random()
        if u < 0.04:
            d.reset()
        else:
            d.add()
        w = any(len(r.items) == r.size and r.ptr != 0 for r in d.model.rings)
        if w and not wrapped:
            ctx.note("wrapped")
        wrapped |= w
        if any(r.ep_len > r.size for r in d.model.rings):
            ctx.note("ep_over_ring")
        if rng.random() < 0.35:
            d.check_contents()
        ctx.sig(d.kind, tuple(r.size for r in d.model.rings), d.spec.sig(), tuple(len(r.items) for r in d.model.rings))
    d.check_contents("end")
    # reading forms agree with each other and read only stored transitions
    if len(d.model):
        slots = d.model.slots()
        d.compare(d.buf[:], slots, "buffer[:]")
        k = int(rng.integers(1, 8))
        pick = [slots[int(i)] for i in rng.integers(0, len(slots), k)]
        d.compare(d.buf[np.array(pick)], pick, "buffer[indices]")
        d.compare(d.buf[pick], pick, "buffer[list]")
        if d.single:  # slices count over the stored slots, whatever the capacity
            n = len(d.model)
            ends = [None, 0, 1, n // 2, n - 1, n, n + 3, -1, -2, -n]
            for _ in range(3):
                sl = slice(ends[int(rng.integers(len(ends)))], ends[int(rng.integers(len(ends)))], [None, 1, 2, -1][int(rng.integers(4))])
                want = list(range(n))[sl]
                if want and sl != slice(None):
                    ctx.equal(np.asarray(d.buf[sl].rew).shape[0], len(want), "slice-length", f"buffer[{sl}] of {n} stored")
                    d.compare(d.buf[sl], want, f"buffer[{sl}]")
                    ctx.note("slices")
        one = int(pick[0])
        got = d.buf[one]
        ctx.close(np.asarray(got.rew, float), np.asarray(d.model.by_slot()[one]["rew"], float), "content", "buffer[int]", rtol=1e-9)
        ctx.equal(batch_tree(Batch(obs=d.buf[one].obs))["obs"], batch_tree(Batch(obs=d.buf[pick].obs[0]))["obs"], "content", "int/list reading")
        # sub-buffers see the same storage
        if not d.single:
            for j, r in enumerate(d.model.rings):
                ctx.equal(len(d.buf.buffers[j]), len(r.items), "subbuffer-length", f"buffer {j}")
                if r.items:
                    sub = d.buf.buffers[j]
                    got = sub.rew[sub.sample_indices(0)]
                    ctx.close(np.asarray(got, float), np.stack([np.asarray(x["rew"], float) for _, x in r.items]), "subbuffer-content", f"buffer {j}", rtol=1e-9)
    ctx.sample({"kind": d.kind, "sizes": [r.size for r in d.model.rings], "len": len(d.model)})


def s_aliasing(ctx, rng):
    """What was stored does not change when the caller reuses or mutates its arrays, or edits what it read."""
    d = Driver(ctx, rng, spec=Spec(rng, rew_dim=0))
    for _ in range(int(rng.integers(3, 20))):
        d.add()
    if not len(d.model):
        return
    slots = d.model.slots()
    got = d.buf[np.array(slots)]
    got.rew[...] = 1e9
    got.act[...] = 99
    got.done[...] = ~got.done
    d.check_contents("after editing a read batch")
    from vlib.bufmodel import batch_of

    ids = list(range(d.n))
    recs = [d.st.step(i) for i in ids]
    for i, r in zip(ids, recs):
        d.model.rings[i].add(r)
    b = batch_of(recs)
    d.buf.add(b, buffer_ids=np.array(ids))
    b.rew += 1e6
    b.act[...] = 77
    b.terminated[...] = ~b.terminated
    d.check_contents("after editing the added batch")
    ctx.note("alias_checks")


def s_required(ctx, rng):
    buf = ReplayBuffer(5)
    full = {"obs": np.ones(2), "act": np.array(1), "rew": np.array(1.0), "terminated": np.array(False), "truncated": np.array(False)}
    key = ["obs", "act", "rew"][int(rng.integers(3))]
    part = {k: v for k, v in full.items() if k != key}
    try:
        buf.add(Batch(part))
        ctx.fail("missing-key-accepted", f"add without {key}")
    except (ValueError, AssertionError, KeyError, AttributeError):
        pass
    ctx.equal(len(buf), 0, "failed-add-counted", "rejected add changes the length")
    buf.add(Batch(full))
    ctx.equal(len(buf), 1, "length", "")


SCENARIOS = [
    Scenario("history", s_history, 240, 4000),
    Scenario("aliasing", s_aliasing, 60, 600),
    Scenario("required", s_required, 6, 30),
]
