"""Recurrent state: each environment's policy state follows that environment and never outlives its episode."""
import numpy as np
from checks.C01_exactly_once import Rig
from vlib import envs as E
from vlib.bufmodel import batch_tree
from vlib.core import Scenario

RULE = (
    "recurrent policies whose state counts the steps of the episode and names its environment, under random sequences of "
    "collects; every state the policy is handed and every state stored is compared with the environment's own log; "
    "distinct = (state container, envs, op sequence)"
)
MIN = {"states": 8000, "first_steps": 1500, "resumed": 300, "idle_envs": 50, "stored": 4000}


def s_state(ctx, rng):
    kind = ["tensor", "array", "batch", "dict"][int(rng.integers(4))]
    rig = Rig(ctx, rng, state=kind, room=3, obs=["vec", "int", "dict"][int(rng.integers(3))])
    c = rig.col
    c.reset()
    rig.mark_buffer_reset()
    for _ in range(int(rng.integers(3, 9))):
        mid = rig.midway()
        r = rng.random()
        if r < 0.1:
            c.reset()
            rig.mark_buffer_reset()
            continue
        if r < 0.6:
            kw = {"n_step": int(rng.integers(1, 20))}
        else:
            kw = {"n_episode": int(rng.integers(1, 8))}
            if mid:
                kw["n_episode"] = max(kw["n_episode"], rig.n)
        n0 = len(rig.pol.calls)
        st, before, after = rig.collect(**kw)
        ctx.note("resumed", len(mid))
        ctx.note("idle_envs", "n_episode" in kw and kw["n_episode"] < rig.n)
        for call in rig.pol.calls[n0:]:
            e, ep, t, acc = call["codes"].T
            want = np.stack([np.where(t > 0, e + 1, 0), t], 1)
            ctx.equal(call["hid"], want, "state-handed-over", lambda: f"{kind}, {kw}, environments {e.tolist()} at steps {t.tolist()}")
            ctx.note("states", len(e))
            ctx.note("first_steps", int((t == 0).sum()))
        # what is stored is the state the policy produced at that step
        b = rig.buf[rig.buf.sample_indices(0)]
        codes = E.codes_of_obs(rig.obs, b.obs)
        want = np.stack([codes[:, 0] + 1, codes[:, 2] + 1], 1)
        tr = batch_tree(b.policy.hidden_state)
        if kind == "batch":
            got = np.stack([tr["h"][:, 0], tr["sub"]["c"]], 1)
        elif kind == "dict":
            got = tr["h"]
        else:
            got = tr
        ctx.equal(np.asarray(got).astype(int), want, "stored-state", lambda: f"{kind}, {kw}")
        ctx.note("stored", len(codes))
    rig.verify_basic = None
    ctx.sig(kind, rig.n, tuple(str(o) for o in rig.ops), rig.seed)
    ctx.sample({"state": kind, "envs": rig.n, "ops": [str(o) for o in rig.ops]})


SCENARIOS = [Scenario("state", s_state, 240, 4000)]
