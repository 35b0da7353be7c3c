"""Reference model of replay storage: one plain Python ring per sub-buffer, plus workloads.

Every transition carries values derived from its unique id, so whatever a buffer
hands back identifies the transition it came from.
"""
from __future__ import annotations

from typing import Any

import numpy as np
from tianshou.data import (
    Batch,
    CachedReplayBuffer,
    HERReplayBuffer,
    HERVectorReplayBuffer,
    PrioritizedReplayBuffer,
    PrioritizedVectorReplayBuffer,
    ReplayBuffer,
    ReplayBufferManager,
    VectorReplayBuffer,
)


class Ring:
    """Bounded FIFO with explicit history; slots are assigned round-robin."""

    def __init__(self, size: int, offset: int = 0) -> None:
        self.size, self.offset = size, offset
        self.ep_ret: Any = 0.0
        self.ep_len = 0
        self.clear()

    def clear(self) -> None:
        self.items: list[tuple[int, dict]] = []  # chronological (slot, rec)
        self.ptr = 0
        self.ep_start = 0

    def reset(self, keep: bool = False) -> None:
        self.clear()
        if not keep:
            self.ep_ret, self.ep_len = 0.0, 0

    def put(self, rec: dict) -> int:
        slot = self.ptr
        self.ptr = (self.ptr + 1) % self.size
        self.items.append((slot, rec))
        if len(self.items) > self.size:
            self.items.pop(0)
        return slot

    def add(self, rec: dict) -> tuple[int, Any, int, int]:
        slot = self.put(rec)
        self.ep_ret = self.ep_ret + np.asarray(rec["rew"], dtype=float)
        self.ep_len += 1
        done = rec["done"]
        out = (
            slot + self.offset,
            self.ep_ret if done else np.zeros_like(self.ep_ret),
            self.ep_len if done else 0,
            self.ep_start + self.offset,
        )
        if done:
            self.ep_ret, self.ep_len, self.ep_start = 0.0, 0, self.ptr
        return out

    # navigation, by position in the history (not by index arithmetic)
    def slots(self) -> list[int]:
        return [s + self.offset for s, _ in self.items]

    def prev_map(self) -> dict[int, int]:
        out = {}
        for k, (s, _) in enumerate(self.items):
            same = k > 0 and not self.items[k - 1][1]["done"]
            out[s + self.offset] = (self.items[k - 1][0] if same else s) + self.offset
        return out

    def next_map(self) -> dict[int, int]:
        out = {}
        for k, (s, r) in enumerate(self.items):
            same = k + 1 < len(self.items) and not r["done"]
            out[s + self.offset] = (self.items[k + 1][0] if same else s) + self.offset
        return out

    def unfinished(self) -> list[int]:
        if self.items and not self.items[-1][1]["done"]:
            return [self.items[-1][0] + self.offset]
        return []

    def by_slot(self) -> dict[int, dict]:
        return {s + self.offset: r for s, r in self.items}

    def episodes(self) -> list[list[int]]:
        eps, cur = [], []
        for s, r in self.items:
            cur.append(s + self.offset)
            if r["done"]:
                eps.append(cur)
                cur = []
        return eps


class Rings:
    """Several rings laid out one after another (a vector buffer)."""

    def __init__(self, sizes: list[int]) -> None:
        self.rings: list[Ring] = []
        off = 0
        for s in sizes:
            self.rings.append(Ring(s, off))
            off += s
        self.maxsize = off

    def __len__(self) -> int:
        return sum(len(r.items) for r in self.rings)

    def slots(self) -> list[int]:
        return [s for r in self.rings for s in r.slots()]

    def _merge(self, name: str) -> dict:
        out: dict = {}
        for r in self.rings:
            out.update(getattr(r, name)())
        return out

    def prev_map(self) -> dict:
        return self._merge("prev_map")

    def next_map(self) -> dict:
        return self._merge("next_map")

    def by_slot(self) -> dict:
        return self._merge("by_slot")

    def unfinished(self) -> list[int]:
        return [s for r in self.rings for s in r.unfinished()]

    def episodes(self) -> list[list[int]]:
        return [e for r in self.rings for e in r.episodes()]

    def edges(self) -> list[int]:
        return [r.offset for r in self.rings] + [self.maxsize]

    def reset(self, keep: bool = False) -> None:
        for r in self.rings:
            r.reset(keep)


# --------------------------------------------------------------------------
class Spec:
    """What a transition looks like (fixed for one history)."""

    OBS = ["vec", "scalar", "dict", "img", "str"]

    def __init__(self, rng, obs=None, rew_dim=None, info=None, policy=None, stack_k=0, obs_next=True):
        self.obs_kind = obs or self.OBS[int(rng.integers(len(self.OBS) - 1))]
        self.act_dim = int(rng.integers(0, 3))
        self.rew_dim = rew_dim if rew_dim is not None else (0 if rng.random() < 0.8 else int(rng.integers(2, 4)))
        self.info = info if info is not None else bool(rng.random() < 0.6)
        self.policy = policy if policy is not None else bool(rng.random() < 0.4)
        self.stack_k = stack_k
        self.obs_next = obs_next

    def sig(self):
        return (self.obs_kind, self.act_dim, self.rew_dim, self.info, self.policy, self.stack_k)

    def obs(self, code: int):
        def one(c):
            k = self.obs_kind
            if k == "vec":
                return np.array([c, -c, c * 0.5], np.float64)
            if k == "scalar":
                return np.array(c, np.int64)
            if k == "img":
                return np.array([[c % 251, (c * 7) % 251], [(c // 251) % 251, 3]], np.uint8)
            if k == "dict":
                return {"a": np.array([c, c + 1], np.float32), "b": {"c": np.array(c, np.int64)}}
            raise KeyError(k)

        if self.stack_k:
            return np.stack([np.asarray(one(max(code - j, 0))) for j in reversed(range(self.stack_k))])
        return one(code)

    def rec(self, uid: int, eid: int, t: int, rew: float, term: bool, trunc: bool, extra: bool = False) -> dict:
        c = uid * 3
        r: dict[str, Any] = {
            "obs": self.obs(c),
            "act": np.array(uid % 7, np.int64) if self.act_dim == 0 else np.full(self.act_dim, uid * 0.25),
            "rew": np.float64(rew) if self.rew_dim == 0 else rew * np.arange(1, self.rew_dim + 1),
            "terminated": np.bool_(term),
            "truncated": np.bool_(trunc),
            "done": np.bool_(term or trunc),
        }
        if self.obs_next:
            r["obs_next"] = self.obs(c + 1)
        r["info"] = {"uid": np.int64(uid), "n": {"t": np.int64(t)}} if self.info else {}
        if extra:
            r["info"] = {**r["info"], "late": np.float64(uid + 0.5)}
        r["policy"] = {"h": np.array([uid, eid], np.float32)} if self.policy else {}
        return r


def stack_recs(recs: list[dict]) -> dict:
    """Leaf-wise stack of per-transition records (missing leaves read as zero)."""
    keys: list[str] = []
    for r in recs:
        for k in r:
            if k not in keys:
                keys.append(k)
    out: dict[str, Any] = {}
    for k in keys:
        vs = [r.get(k) for r in recs]
        if any(isinstance(v, dict) for v in vs):
            out[k] = stack_recs([v if v is not None else {} for v in vs])
        else:
            proto = next(v for v in vs if v is not None)
            out[k] = np.stack([np.asarray(v if v is not None else np.zeros_like(proto)) for v in vs])
    return out


def to_batch_tree(x):
    return {k: to_batch_tree(v) for k, v in x.items()} if isinstance(x, dict) else x


class Streams:
    """k interleaved episode streams with random lengths and returns."""

    def __init__(self, rng, spec: Spec, k: int, max_ep: int = 9, p_trunc: float = 0.3, min_ep: int = 1):
        self.rng, self.spec, self.k = rng, spec, k
        self.max_ep, self.min_ep, self.p_trunc = max_ep, min_ep, p_trunc
        self.uid = 0
        self.eid = 0
        self.left = [0] * k
        self.t = [0] * k
        self.ep = [0] * k
        self.extra_from: int | None = None

    def restart(self, i: int) -> None:
        self.left[i] = 0

    def step(self, i: int) -> dict:
        if self.left[i] == 0:
            self.left[i] = int(self.rng.integers(self.min_ep, self.max_ep + 1))
            self.t[i] = 0
            self.eid += 1
            self.ep[i] = self.eid
        self.uid += 1
        self.left[i] -= 1
        end = self.left[i] == 0
        term = trunc = False
        if end:
            u = self.rng.random()
            trunc = bool(u < self.p_trunc)
            term = bool(u >= self.p_trunc or u < self.p_trunc * 0.3)
        extra = self.extra_from is not None and self.uid >= self.extra_from and self.rng.random() < 0.5
        rec = self.spec.rec(self.uid, self.ep[i], self.t[i], float(self.rng.integers(-50, 51)) / 4, term, trunc, bool(extra))
        rec_uid = self.uid
        self.t[i] += 1
        rec = dict(rec)
        rec["__uid"] = rec_uid
        return rec


def clean(rec: dict) -> dict:
    return {k: v for k, v in rec.items() if not k.startswith("__")}


def batch_of(recs: list[dict]) -> Batch:
    """The batched input handed to add(); 'done' is derived by the buffer itself."""
    st = stack_recs([clean(r) for r in recs])
    st.pop("done", None)
    return Batch(st)


def single_of(rec: dict) -> Batch:
    r = clean(rec)
    r.pop("done", None)
    return Batch({k: (v if isinstance(v, dict) else np.asarray(v)) for k, v in r.items()})


def storage(buf):
    """The batch of everything stored, whatever the buffer calls it."""
    found = [v for v in vars(buf).values() if isinstance(v, Batch)]
    return max(found, key=lambda b: len(b.get_keys())) if found else Batch()


def batch_tree(b) -> Any:
    """Batch -> plain tree of numpy leaves (independent of the code under test's helpers)."""
    if isinstance(b, Batch):
        return {k: batch_tree(b[k]) for k in b.get_keys()}
    return np.asarray(b)


def prune(x: Any) -> Any:
    """Drop empty dict nodes so that 'no info' and 'empty info' compare equal."""
    if isinstance(x, dict):
        out = {k: prune(v) for k, v in x.items()}
        return {k: v for k, v in out.items() if not (isinstance(v, dict) and not v)}
    return x


def gc_reward(ag, g):
    return -np.abs(ag - g).sum(axis=-1)


def make_buffer(kind: str, rng, sizes: list[int], **kw):
    """Returns (buffer, ring sizes). Equal sizes are required except for 'manager'."""
    if kind == "single":
        return ReplayBuffer(sizes[0], **kw), sizes[:1]
    if kind == "prio":
        return PrioritizedReplayBuffer(sizes[0], alpha=0.6, beta=0.4, **kw), sizes[:1]
    if kind == "her":
        return HERReplayBuffer(sizes[0], compute_reward_fn=gc_reward, horizon=12, **kw), sizes[:1]
    if kind == "manager":
        return ReplayBufferManager([ReplayBuffer(s, **kw) for s in sizes]), sizes
    n, s = len(sizes), sizes[0]
    total = n * s - int(rng.integers(0, n)) if s > 1 else n * s  # ceil division must be visible
    if kind == "vector":
        return VectorReplayBuffer(total, n, **kw), [s] * n
    if kind == "priovec":
        return PrioritizedVectorReplayBuffer(total, n, alpha=0.6, beta=0.4, **kw), [s] * n
    if kind == "hervec":
        return HERVectorReplayBuffer(total, n, compute_reward_fn=gc_reward, horizon=12, **kw), [s] * n
    raise KeyError(kind)


SINGLE = ("single", "prio", "her")


class Driver:
    """Applies the same random history to a real buffer and to the reference rings."""

    def __init__(self, ctx, rng, kind=None, sizes=None, spec=None, max_ep=None, **kw):
        self.ctx, self.rng = ctx, rng
        kinds = ["single", "single", "vector", "vector", "manager", "prio", "priovec"]
        self.kind = kind or kinds[int(rng.integers(len(kinds)))]
        n = 1 if self.kind in SINGLE else int(rng.integers(1, 6))
        if sizes is None:
            if self.kind == "manager":
                sizes = [int(s) for s in rng.integers(1, 12, size=n)]
            else:
                sizes = [int(rng.integers(1, 14))] * n
        self.buf, sizes = make_buffer(self.kind, rng, sizes, **kw)
        self.model = Rings(sizes)
        self.n = len(sizes)
        self.spec = spec or Spec(rng)
        self.st = Streams(rng, self.spec, self.n, max_ep=max_ep or int(rng.integers(1, 12)))
        self.single = self.kind in SINGLE
        self.log: list = ctx.trace
        self.log.append((self.kind, sizes, self.spec.sig(), kw and str(kw)))

    def choose_ids(self):
        if self.single:
            return [0]
        if self.rng.random() < 0.4:
            return list(range(self.n))
        m = int(self.rng.integers(1, self.n + 1))
        return [int(i) for i in self.rng.permutation(self.n)[:m]]

    def add(self, ids=None):
        """One add on both sides; checks the reported values. Returns the model's outputs."""
        ids = self.choose_ids() if ids is None else ids
        recs = [self.st.step(i) for i in ids]
        want = [self.model.rings[i].add(r) for i, r in zip(ids, recs)]
        if self.single and self.rng.random() < 0.6:
            b = single_of(recs[0])
            before = batch_tree(b)
            got = self.buf.add(b)
        else:
            b = batch_of(recs)
            before = batch_tree(b)
            if self.single:
                got = self.buf.add(b, buffer_ids=[0])
            elif ids == list(range(self.n)) and self.rng.random() < 0.5:
                got = self.buf.add(b)
            else:
                got = self.buf.add(b, buffer_ids=np.array(ids) if self.rng.random() < 0.5 else list(ids))
        self.log.append(("add", ids, [(r["__uid"], bool(r["done"])) for r in recs]))
        self.ctx.equal(batch_tree(b), before, "add-mutates-input", "batch passed to add")
        self.ctx.equal(np.asarray(got[0]).astype(int), np.array([w[0] for w in want]), "insertion-index", "add()")
        self.ctx.close(np.asarray(got[1], dtype=float), np.array([w[1] for w in want], dtype=float), "episode-return", "add()", rtol=1e-9, atol=1e-9)
        self.ctx.equal(np.asarray(got[2]).astype(int), np.array([w[2] for w in want]), "episode-length", "add()")
        self.ctx.equal(np.asarray(got[3]).astype(int), np.array([w[3] for w in want]), "episode-start", "add()")
        self.ctx.note("adds", len(ids))
        self.ctx.note("episodes", sum(bool(r["done"]) for r in recs))
        return want

    def reset(self, keep=None):
        keep = bool(self.rng.random() < 0.3) if keep is None else keep
        self.buf.reset(keep_statistics=keep)
        self.model.reset(keep)
        if not keep:
            for i in range(self.n):
                self.st.restart(i)
        self.log.append(("reset", keep))
        self.ctx.note("resets")

    def expected(self, slots) -> dict:
        by = self.model.by_slot()
        return stack_recs([clean(by[s]) for s in slots])

    def check_contents(self, what=""):
        """Everything readable from the buffer equals the reference history."""
        ctx, buf, m = self.ctx, self.buf, self.model
        ctx.equal(len(buf), len(m), "length", f"{what} len(buffer)")
        ctx.equal(buf.maxsize, m.maxsize, "maxsize", what)
        slots = m.slots()
        got_idx = np.asarray(buf.sample_indices(0)).astype(int)
        ctx.equal(got_idx, np.array(slots, int), "chronological-indices", f"{what} all stored indices in order")
        if not slots:
            return
        self.compare(buf[np.array(slots, int)], slots, what)
        ctx.note("content_checks")

    def compare(self, batch, slots, what=""):
        want = self.expected(slots)
        got = prune(batch_tree(batch))
        got.pop("weight", None)
        want = prune(want)
        if "obs_next" not in storage(self.buf).get_keys():
            got.pop("obs_next", None)
            want.pop("obs_next", None)
        self.align_missing(got, want)
        self.ctx.close(got, want, "content", f"{what} stored transitions", rtol=1e-6, atol=1e-6)

    def align_missing(self, got, want):
        # a leaf that appeared only on some transitions reads as zero on the others
        for k in list(got):
            if isinstance(got[k], dict):
                want.setdefault(k, {})
                if isinstance(want[k], dict):
                    self.align_missing(got[k], want[k])
            elif k not in want:
                want[k] = np.zeros_like(got[k])
