"""GAE advantages and Monte-Carlo returns over stored episodes."""
import numpy as np
import torch
from tianshou.policy import BasePolicy
from tianshou.policy.base import episode_mc_return_to_go
from vlib.bufmodel import Driver, Spec
from vlib.core import Scenario

RULE = (
    "random histories with terminations, truncations and unfinished episodes; advantages and returns for all stored "
    "data are recomputed episode by episode from the definition (explicit double sums, not the recursion); "
    "distinct = (class, gamma, lambda, which values are supplied, ring state)"
)
MIN = {"advantages": 4000, "mc": 600, "episodes": 1000, "truncated_ends": 300, "unfinished_ends": 150}


def segments(model):
    """Chronological stored fragments of episodes: (slots, terminated, truncated, unfinished)."""
    out = []
    for r in model.rings:
        cur = []
        for s, rec in r.items:
            cur.append(s + r.offset)
            if rec["done"]:
                out.append((cur, bool(rec["terminated"]), bool(rec["truncated"]), False))
                cur = []
        if cur:
            out.append((cur, False, False, True))
    return out


def s_gae(ctx, rng):
    d = Driver(ctx, rng, kind=["single", "vector", "manager", "prio"][int(rng.integers(4))], spec=Spec(rng, obs="vec", rew_dim=0))
    d.st.p_trunc = 0.5
    for _ in range(int(rng.integers(3, 40))):
        d.add()
    for _ in range(4):
        d.add()
        idx = np.asarray(d.buf.sample_indices(0))
        by = d.model.by_slot()
        n = len(idx)
        pos = {int(s): k for k, s in enumerate(idx)}
        gamma = float(rng.choice([0.0, 0.5, 0.9, 0.99, 1.0]))
        lam = float(rng.choice([0.0, 0.3, 0.95, 1.0]))
        mode = ["both", "next_only", "none"][int(rng.choice(3, p=[0.7, 0.15, 0.15]))]
        vs, vn = rng.normal(size=n) * 3, rng.normal(size=n) * 3
        term = np.array([bool(by[int(s)]["terminated"]) for s in idx])
        if mode == "none":
            lam = 1.0
            vn_eff, vs_eff = np.zeros(n), np.zeros(n)
        else:
            vn_eff = vn * ~term
            vs_eff = vs if mode == "both" else np.roll(vn_eff, 1)
        if mode == "none":
            kw = {}
        elif mode == "both":
            as_t = rng.random() < 0.5
            shape = (n, 1) if rng.random() < 0.5 else (n,)
            kw = {"v_s_": torch.as_tensor(vn.reshape(shape)) if as_t else vn.reshape(shape).copy(), "v_s": torch.as_tensor(vs.reshape(shape)) if as_t else vs.reshape(shape).copy()}
        else:
            kw = {"v_s_": vn.copy()}
        batch = d.buf[idx]
        ret, adv = BasePolicy.compute_episodic_return(batch, d.buf, idx.copy(), gamma=gamma, gae_lambda=lam, **kw)
        want = np.zeros(n)
        for seg, te, tr, un in segments(d.model):
            ks = [pos[s] for s in seg]
            delta = [float(by[s]["rew"]) + gamma * vn_eff[k] - vs_eff[k] for s, k in zip(seg, ks)]
            for a in range(len(ks)):
                want[ks[a]] = sum((gamma * lam) ** (b - a) * delta[b] for b in range(a, len(ks)))
            ctx.note("episodes")
            ctx.note("truncated_ends", tr and not te)
            ctx.note("unfinished_ends", un)
        tag = f"{d.kind} gamma={gamma} lambda={lam} values={mode}"
        ctx.close(adv, want, "advantage", tag, rtol=1e-6, atol=1e-7)
        ctx.close(ret, want + vs_eff, "return", tag, rtol=1e-6, atol=1e-7)
        ctx.note("advantages", n)
        if mode == "none":
            ctx.note("mc", n)
        ctx.sig(d.kind, gamma, lam, mode, tuple((len(r.items), r.ptr) for r in d.model.rings))


def s_mc(ctx, rng):
    n = int(rng.integers(1, 40))
    r = rng.normal(size=n)
    g = float(rng.choice([0.0, 0.9, 1.0]))
    want = np.array([sum(g ** (j - i) * r[j] for j in range(i, n)) for i in range(n)])
    keep = r.copy()
    ctx.close(episode_mc_return_to_go(r, g), want, "mc-return", "", rtol=1e-9, atol=1e-9)
    ctx.equal(r, keep, "mc-mutates", "")
    ctx.sig(n, g)


SCENARIOS = [Scenario("gae", s_gae, 240, 3500), Scenario("mc", s_mc, 60, 400)]
