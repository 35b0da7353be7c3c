"""Hindsight relabelling: goals come from the same episode's future, rewards match, originals are restored."""
import copy
import os

import numpy as np
from tianshou.data import Batch, HERReplayBuffer, HERVectorReplayBuffer, ReplayBuffer
from vlib.bufmodel import Driver, Spec, gc_reward, single_of, storage
from vlib.core import Scenario

RULE = (
    "goal-coded episodes are stored, sampled with every request kind, and each returned transition is matched against "
    "the recorded episode: unchanged, or a goal achieved later in the same episode with the recomputed reward; stored "
    "data is compared with the originals after the next write/save; distinct = (class, options, fill state, request)"
)
MIN = {"relabelled": 1500, "untouched": 500, "restored": 300, "ratio_checks": 300, "wrapped": 20, "restored_update": 8, "restored_set_batch": 30, "restored_save": 40}


class GoalSpec(Spec):
    def __init__(self, rng, dim):
        super().__init__(rng, obs="vec", rew_dim=0, info=True, policy=False)
        self.dim = dim
        self.g = rng

    def rec(self, uid, eid, t, rew, term, trunc, extra=False):
        r = super().rec(uid, eid, t, rew, term, trunc)
        rs = np.random.default_rng(eid)
        goal = rs.normal(size=self.dim) * 10
        ag = [np.random.default_rng([eid, t + k, 5]).normal(size=self.dim) for k in (0, 1)]
        r["obs"] = {"observation": np.array([uid, t], float), "achieved_goal": ag[0], "desired_goal": goal}
        r["obs_next"] = {"observation": np.array([uid + 0.5, t + 1], float), "achieved_goal": ag[1], "desired_goal": goal.copy()}
        r["rew"] = np.float64(1000.0 + uid)
        return r


def s_her(ctx, rng):
    kind = ["her", "hervec"][int(rng.integers(2))]
    ign = bool(rng.random() < 0.4)
    max_ep = int(rng.integers(1, 12))
    d = Driver(ctx, rng, kind=kind, spec=GoalSpec(rng, int(rng.integers(1, 3))), max_ep=max_ep)
    sizes = [int(rng.integers(2, 40))] * len(d.model.rings)
    k = float(rng.choice([1.0, 2.0, 4.0, 8.0]))
    horizon = max_ep + int(rng.integers(0, 3))
    kw = {"compute_reward_fn": gc_reward, "horizon": horizon, "future_k": k, "ignore_obs_next": ign}
    from vlib.bufmodel import Rings, Streams

    d.model = Rings(sizes)
    d.buf = HERReplayBuffer(sizes[0], **kw) if kind == "her" else HERVectorReplayBuffer(sum(sizes), len(sizes), **kw)
    ctx.trace.append((kind, sizes, "k", k, "horizon", horizon, "ignore_next", ign))
    for _ in range(int(rng.integers(1, 50))):
        d.add()
    for _ in range(6):
        m = d.model
        slots, by, nm = m.slots(), m.by_slot(), m.next_map()
        req = [int(rng.integers(1, 60)), 0, None][int(rng.choice(3, p=[0.7, 0.2, 0.1]))]
        d.buf.sample_indices(-1)
        new = Batch({k: copy.deepcopy(getattr(d.buf, k)) for k in ("obs", "act", "rew", "terminated", "truncated", "done", "obs_next", "info", "policy") if hasattr(storage(d.buf), k)})
        new.rew += 5000.0
        b, idx = d.buf.sample(req)
        idx = np.asarray(idx).astype(int)
        ctx.trace.append(("sample", req, idx.tolist()))
        if req == 0:
            ctx.equal(np.sort(idx), np.sort(np.array(slots)), "all", "sample(0)")
        elif req:
            ctx.equal(len(idx), req, "sample-size", "")
        ctx.check(set(idx.tolist()) <= set(slots), "invalid-index", "")
        ep_of = {}
        for r in m.rings:
            e = 0
            for s, rec in r.items:
                ep_of[s + r.offset] = (r.offset, e)
                e += bool(rec["done"])
        members: dict = {}
        for r in m.rings:
            for s, _ in r.items:
                members.setdefault(ep_of[s + r.offset], []).append(s + r.offset)
        status: dict = {}

        def ag_next(s):
            return by[nm[s]]["obs"]["achieved_goal"] if ign else by[s]["obs_next"]["achieved_goal"]

        for j, s in enumerate(idx.tolist()):
            rec, o = by[s], b.obs[j]
            ctx.close(np.asarray(o.observation), rec["obs"]["observation"], "observation-changed", f"slot {s}", rtol=1e-7)
            ctx.close(np.asarray(o.achieved_goal), rec["obs"]["achieved_goal"], "achieved-goal-changed", f"slot {s}", rtol=1e-7)
            for key in ("act", "done", "terminated", "truncated"):
                ctx.close(np.asarray(b[key][j], float), np.asarray(rec[key], float), "other-field-changed", key, rtol=1e-6)
            g = np.asarray(o.desired_goal)
            gn = np.asarray(b.obs_next[j].desired_goal)
            ctx.close(gn, g, "goal-mismatch", f"slot {s}: goal of obs and obs_next differ", rtol=1e-6)
            if np.allclose(g, rec["obs"]["desired_goal"], rtol=1e-6):
                ctx.close(float(b.rew[j]), float(rec["rew"]), "reward-of-untouched", f"slot {s}", rtol=1e-6)
                status.setdefault(ep_of[s], set()).add(False)
                ctx.note("untouched")
            else:
                mem = members[ep_of[s]]
                fut = mem[mem.index(s):]
                ok = [f for f in fut if np.allclose(ag_next(f), g, rtol=1e-6)]
                ctx.check(ok, "goal-not-from-future", lambda: f"slot {s}: goal {g}, future achieved {[ag_next(f) for f in fut]}")
                want = float(gc_reward(ag_next(s), g))
                ctx.close(float(b.rew[j]), want, "relabelled-reward", f"slot {s} {kind} ignore_next={ign}", rtol=1e-4, atol=1e-4)
                status.setdefault(ep_of[s], set()).add(True)
                ctx.note("relabelled")
        for e, st in status.items():
            ctx.check(len(st) == 1, "episode-partly-relabelled", lambda: f"episode {e}")
        for r in m.rings:
            mine = [e for e in status if e[0] == r.offset]
            alt = sum(True in status[e] for e in mine)
            ctx.check(alt <= len(mine) * (1 - 1 / k) + 1e-9, "ratio", lambda: f"{alt} of {len(mine)} episodes relabelled, k={k}")
            ctx.check(alt >= int(len(mine) * (1 - 1 / k)), "ratio", lambda: f"only {alt} of {len(mine)} episodes relabelled, k={k}")
            ctx.note("ratio_checks")
        if any(len(r.items) == r.size and r.ptr for r in m.rings):
            ctx.note("wrapped")
        # originals come back before the next write / save
        how = ["save", "sample", "update", "set_batch", "add", "add"][int(rng.integers(6))]
        if how == "update" and (kind != "her" or not m.rings[0].items or not m.rings[0].items[-1][1]["done"]):
            how = "add"
        if how == "save":
            path = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), f"h{os.getpid()}_{int(rng.integers(1 << 30))}.h5")
            d.buf.save_hdf5(path)
            d.buf = type(d.buf).load_hdf5(path)
            os.remove(path)
        elif how == "sample":
            d.buf.sample(1)
            d.buf.sample_indices(-1)
        elif how == "update":
            ln = int(rng.integers(1, max_ep + 1))
            recs = [d.spec.rec(50000 + t, 50000 + len(m.rings[0].items), t, 0.0, t == ln - 1, False) for t in range(ln)]
            src = ReplayBuffer(ln + 1, ignore_obs_next=ign)
            for r in recs:
                src.add(single_of(r))
            got = d.buf.update(src)
            ctx.equal(np.asarray(got).astype(int), np.array([m.rings[0].put(r) for r in recs]), "update-indices", "")
            d.buf.sample_indices(-1)
        elif how == "set_batch":
            d.buf.set_batch(new)
            for r in m.rings:
                for _, rec in r.items:
                    rec["rew"] = np.float64(rec["rew"] + 5000.0)
            d.buf.sample_indices(-1)
        else:
            d.add()
        ctx.note("restored_" + how)
        ctx.trace.append(how)
        d.compare(d.buf[np.array(d.model.slots())], d.model.slots(), "after restore")
        ctx.note("restored")
        for _ in range(int(rng.integers(0, 4))):
            d.add()
        ctx.sig(kind, ign, k, tuple((len(r.items), r.ptr) for r in m.rings), req)


SCENARIOS = [Scenario("her", s_her, 160, 2200)]
