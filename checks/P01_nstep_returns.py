"""n-step targets computed from stored experience, against explicit walks over the recorded episodes."""
import numpy as np
import torch
from tianshou.data import CachedReplayBuffer, ReplayBuffer
from tianshou.policy import BasePolicy
from vlib.bufmodel import Driver, Rings, Spec, Streams, batch_of
from vlib.core import Scenario

RULE = (
    "random histories on every buffer class; for sampled indices the n-step target is recomputed by walking the "
    "recorded episode from the transition (rewards, termination, truncation, newest stored transition) with a unique "
    "value per stored transition; distinct = (class, n, gamma, ring state, end kind)"
)
MIN = {"targets": 6000, "bootstrap_full": 800, "terminated_inside": 800, "truncated_inside": 400, "unfinished_inside": 300}


def walk(model, s, n, gamma, qtab):
    """(target vector, kind) for the transition in slot s."""
    by, nm = model.by_slot(), model.next_map()
    g, disc, cur, k = 0.0, 1.0, s, 0
    while True:
        g += disc * float(by[cur]["rew"])
        disc *= gamma
        k += 1
        if by[cur]["done"]:
            kind = "terminated_inside" if by[cur]["terminated"] else "truncated_inside"
            break
        if nm[cur] == cur:
            kind = "unfinished_inside"
            break
        if k == n:
            kind = "bootstrap_full"
            break
        cur = nm[cur]
    boot = 0.0 if by[cur]["terminated"] else 1.0
    return g + disc * boot * qtab[cur], kind


def check_targets(ctx, rng, buf, model, what):
    slots = model.slots()
    n = int(rng.choice([1, 1, 2, 3, 4, 5, 8, 12]))
    gamma = float(rng.choice([0.0, 0.5, 0.9, 0.99, 1.0]))
    A = int(rng.choice([0, 1, 3]))
    qtab = rng.normal(size=(model.maxsize, max(A, 1))) * 5
    dtype = torch.float32 if rng.random() < 0.7 else torch.float64

    asked = []

    def target_q(b, idx):
        ctx.check(b is buf, "target-fn-buffer", "")
        asked.append(np.array(idx))
        t = torch.as_tensor(qtab[np.asarray(idx)], dtype=dtype)
        return t.flatten() if A == 0 else t

    if rng.random() < 0.4:
        idx = np.array(slots)
    else:
        idx = np.array([slots[int(i)] for i in rng.integers(0, len(slots), int(rng.integers(1, 12)))])
    batch = buf[idx]
    rew_before, done_before = buf.rew.copy(), buf.done.copy()
    out = BasePolicy.compute_nstep_return(batch, buf, idx.copy(), target_q, gamma, n)
    ret = out.returns
    ctx.check(isinstance(ret, torch.Tensor) and ret.dtype == dtype, "returns-type", lambda: f"{type(ret)} {ret.dtype}")
    ctx.equal(len(asked), 1, "target-fn-calls", "")
    got = ret.detach().numpy().reshape(len(idx), -1)
    want, kinds = zip(*[walk(model, int(s), n, gamma, qtab) for s in idx])
    for kd in kinds:
        ctx.note(kd)
    ctx.note("targets", len(idx))
    ctx.close(got, np.stack(want), "n-step-target", lambda: f"{what} n={n} gamma={gamma} idx={idx.tolist()} kinds={kinds}", rtol=2e-5, atol=2e-4)
    ctx.equal(buf.rew, rew_before, "buffer-modified", "rewards")
    ctx.equal(buf.done, done_before, "buffer-modified", "done flags")
    ctx.sig(what, n, gamma, A, tuple((len(r.items), r.ptr) for r in model.rings), tuple(sorted(set(kinds))))


def s_nstep(ctx, rng):
    d = Driver(ctx, rng, spec=Spec(rng, obs="vec", rew_dim=0), ignore_obs_next=bool(rng.random() < 0.3))
    d.st.p_trunc = 0.5
    for _ in range(int(rng.integers(3, 40))):
        if rng.random() < 0.03:
            d.reset()
        else:
            d.add()
        if len(d.model) and rng.random() < 0.5:
            check_targets(ctx, rng, d.buf, d.model, d.kind)


def s_cached(ctx, rng):
    n, main, cache = int(rng.integers(1, 4)), int(rng.integers(2, 25)), int(rng.integers(1, 8))
    buf = CachedReplayBuffer(ReplayBuffer(main), n, cache)
    m = Rings([main] + [cache] * n)
    st = Streams(rng, Spec(rng, obs="vec", rew_dim=0), n, max_ep=cache, p_trunc=0.5)
    for _ in range(int(rng.integers(4, 40))):
        recs = [st.step(i) for i in range(n)]
        for i, r in enumerate(recs):
            m.rings[i + 1].add(r)
        for i, r in enumerate(recs):
            if r["done"]:
                for _, rec in m.rings[i + 1].items:
                    m.rings[0].put(rec)
                m.rings[i + 1].reset()
        buf.add(batch_of(recs))
        if len(m) and rng.random() < 0.5:
            check_targets(ctx, rng, buf, m, "cached")


def s_mismatch(ctx, rng):
    d = Driver(ctx, rng, kind="single", sizes=[8], spec=Spec(rng, obs="vec", rew_dim=0))
    for _ in range(6):
        d.add()
    idx = np.array([0, 1, 2])
    ctx.raises(
        lambda: BasePolicy.compute_nstep_return(d.buf[idx], d.buf, idx[:2], lambda b, i: torch.zeros(len(i)), 0.9, 2),
        ValueError, "length-mismatch-accepted", "",
    )


SCENARIOS = [
    Scenario("nstep", s_nstep, 200, 3000),
    Scenario("cached", s_cached, 60, 700),
    Scenario("mismatch", s_mismatch, 2, 6),
]
