"""Frame stacking, derived next observations and last-frame storage."""
import numpy as np
from tianshou.data import Batch
from vlib.bufmodel import Driver, Spec, batch_tree, prune, stack_recs
from vlib.core import Scenario

RULE = (
    "random histories with every combination of stack length, dropped next observations and last-frame-only storage; "
    "each read is compared with frames looked up by walking the recorded episode; distinct = (class, options, "
    "observation layout, ring state)"
)
MIN = {"stack_reads": 800, "next_derived": 150, "last_only": 60, "short_history": 200}


def leafstack(leaves):
    """[stack][batch] trees -> batch-first stacked tree."""
    if isinstance(leaves[0], dict):
        return {k: leafstack([x[k] for x in leaves]) for k in leaves[0]}
    return np.stack(leaves, axis=1)


def pick_key(model, slots, key):
    by = model.by_slot()
    return stack_recs([{"x": by[s][key]} for s in slots])["x"]


def expect_stack(model, slots, key, k):
    pm = model.prev_map()
    cols, cur = [], list(slots)
    for _ in range(k):
        cols.insert(0, pick_key(model, cur, key))
        cur = [pm[s] for s in cur]
    return leafstack(cols) if k > 1 else cols[0]


def s_stack(ctx, rng):
    k = int(rng.integers(1, 6))
    ign = bool(rng.random() < 0.5)
    last_only = bool(rng.random() < 0.35)
    kind = ["single", "vector", "manager", "prio", "priovec"][int(rng.integers(5))]
    obs_kind = ["vec", "scalar", "img", "dict"][int(rng.integers(3 if last_only else 4))]
    spec = Spec(rng, obs=obs_kind, rew_dim=0, stack_k=int(rng.integers(2, 4)) if last_only else 0)
    d = Driver(ctx, rng, kind=kind, spec=spec, stack_num=k, ignore_obs_next=ign, save_only_last_obs=last_only)
    m = d.model
    for _ in range(int(rng.integers(4, 30))):
        d.add()
        if rng.random() < 0.5:
            continue
        slots = m.slots()
        pick = [slots[int(i)] for i in rng.integers(0, len(slots), int(rng.integers(1, 9)))]
        pm, nm = m.prev_map(), m.next_map()
        obs_key = "obs"
        strip = (lambda t: t[..., -1, *([slice(None)] * 0)]) if False else None

        def last(tree, axis):
            return np.take(tree, -1, axis=axis) if last_only else tree

        def want_obs(sl, key):
            if not last_only:
                return expect_stack(m, sl, key, k)
            # stored frame = last one of what was handed in
            cols, cur = [], list(sl)
            for _ in range(k):
                cols.insert(0, np.take(pick_key(m, cur, key), -1, axis=1))
                cur = [pm[s] for s in cur]
            return np.stack(cols, axis=1) if k > 1 else cols[0]

        b = d.buf[np.array(pick)]
        ctx.close(batch_tree(b.obs), want_obs(pick, "obs"), "obs-stack", f"{kind} stack={k} idx={pick}", rtol=1e-6)
        if ign:
            ctx.close(batch_tree(b.obs_next), want_obs([nm[s] for s in pick], "obs"), "obs-next-derived", f"{kind} stack={k} idx={pick}", rtol=1e-6)
            ctx.note("next_derived")
        else:
            ctx.close(batch_tree(b.obs_next), want_obs(pick, "obs_next"), "obs-next-stack", f"{kind} stack={k} idx={pick}", rtol=1e-6)
        for key in ("act", "rew", "done", "terminated", "truncated"):
            ctx.close(batch_tree(b[key]), pick_key(m, pick, key), "unstacked", f"{key} of {pick}", rtol=1e-6)
        if spec.info:
            ctx.close(prune(batch_tree(b.info)), expect_stack(m, pick, "info", k), "info-stack", "", rtol=1e-6)
        # explicit per-call stacking overrides the default
        kk = int(rng.integers(1, 5))
        got = d.buf.get(np.array(pick), "act", stack_num=kk)
        ctx.close(batch_tree(got), expect_stack(m, pick, "act", kk), "get-stack", f"get(act, {kk})", rtol=1e-6)
        got = d.buf.get(pick[0], "rew", stack_num=kk)
        ctx.close(np.asarray(got).reshape(-1), np.asarray(expect_stack(m, pick[:1], "rew", kk)).reshape(-1), "get-stack", f"get(int, rew, {kk})", rtol=1e-6)
        for dflt in ("dflt", 0, "", []):
            ctx.equal(d.buf.get(np.array(pick), "nope", dflt), dflt, "get-default", repr(dflt))
        if any(pm[s] == s for s in pick) and k > 1:
            ctx.note("short_history")
        if last_only:
            ctx.note("last_only")
        ctx.note("stack_reads")
        ctx.sig(kind, k, ign, last_only, obs_kind, tuple((len(r.items), r.ptr) for r in m.rings))


SCENARIOS = [Scenario("stack", s_stack, 240, 3500)]
