"""Small networks, experience and bookkeeping for monitoring policy updates.

An update of the real policy on real buffers is observed (which transitions were sampled with
which weights, which priorities were written back, all parameters before and after) and compared
with an independent computation of the documented update on copies of the networks.
"""
from __future__ import annotations

import contextlib
from copy import deepcopy
from typing import Any, Callable

import gymnasium as gym
import numpy as np
import torch
from tianshou.policy.base import policy_within_training_step
from torch import nn

from vlib.bufmodel import Driver, Spec

DIM = 3
_cache: dict[tuple, Any] = {}


def vec(code: int) -> np.ndarray:
    k = ("v", int(code))
    if k not in _cache:
        if len(_cache) > 20000:
            _cache.clear()
        _cache[k] = np.random.default_rng([int(code) & 0xFFFFFFFF, 11]).normal(size=DIM)
    return _cache[k].copy()


def mask_of(code: int, n: int) -> np.ndarray:
    r = np.random.default_rng([int(code) & 0xFFFFFFFF, 13])
    m = r.random(n) < 0.6
    m[int(r.integers(n))] = True
    return m


class PolSpec(Spec):
    """Transitions with pseudo-random observations; kind is disc / box / branch."""

    act_dtype = np.float64

    def __init__(self, rng, kind="disc", n=4, masked=False, branches=2, rew_scale=0.08):
        super().__init__(rng, obs="vec", rew_dim=0, info=False, policy=False)
        self.kind, self.n, self.masked, self.branches, self.rew_scale = kind, n, masked, branches, rew_scale

    def obs(self, code):
        if self.masked:
            return {"obs": vec(code), "mask": mask_of(code, self.n)}
        return vec(code)

    def rec(self, uid, eid, t, rew, term, trunc, extra=False):
        r = np.random.default_rng([uid, 17])
        c = uid * 3
        if self.kind == "disc":
            allowed = np.flatnonzero(mask_of(c, self.n)) if self.masked else np.arange(self.n)
            act = np.array(r.choice(allowed), np.int64)
        elif self.kind == "branch":
            act = r.integers(0, self.n, self.branches)
        else:
            act = r.uniform(-0.98, 0.98, self.n).astype(self.act_dtype)
        return {
            "obs": self.obs(c), "obs_next": self.obs(c + 1), "act": act, "rew": np.float64(rew * self.rew_scale),
            "terminated": np.bool_(term), "truncated": np.bool_(trunc), "done": np.bool_(term or trunc), "info": {}, "policy": {},
        }

    def space(self):
        return gym.spaces.Box(-2.0, 2.0, (self.n,)) if self.kind == "box" else gym.spaces.Discrete(self.n)


def as_t(x) -> torch.Tensor:
    return torch.as_tensor(np.asarray(x) if not isinstance(x, torch.Tensor) else x, dtype=torch.get_default_dtype())


class MLP(nn.Module):
    """obs (and act) -> out; the common call signature of tianshou networks."""

    def __init__(self, din, shape, post=None, hidden=7):
        super().__init__()
        self.shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        self.l1, self.l2 = nn.Linear(din, hidden), nn.Linear(hidden, int(np.prod(self.shape)))
        self.post = post
        self.max_action = 1.0
        self.modes: list = []

    def raw(self, x):
        y = self.l2(torch.tanh(self.l1(x))).view(-1, *self.shape)
        if self.post == "softmax":
            y = y.softmax(-1)
        elif self.post == "tanh":
            y = torch.tanh(y)
        return y


class Q(MLP):
    """state -> values; returns (values, state)."""

    def forward(self, obs, state=None, info={}):  # noqa: B006
        return self.raw(as_t(obs)), state


class QA(MLP):
    """(state, action) -> value, recording the actions it was asked about."""

    def __init__(self, da, hidden=7):
        super().__init__(DIM + da, 1, hidden=hidden)
        self.asked: list = []
        self.asked_obs: list = []

    def forward(self, obs, act=None, info={}):  # noqa: B006
        o, a = as_t(obs).flatten(1), as_t(act).flatten(1)
        self.asked.append(a.detach().clone())
        self.asked_obs.append(o.detach().clone())
        return self.raw(torch.cat([o, a], 1))


class QAEns(nn.Module):
    """ensemble of critics: output [E, B, 1]."""

    def __init__(self, da, size):
        super().__init__()
        self.nets = nn.ModuleList(QA(da) for _ in range(size))

    def forward(self, obs, act=None, info={}):  # noqa: B006
        return torch.stack([n(obs, act) for n in self.nets])


class V(MLP):
    def forward(self, obs, act=None, info={}):  # noqa: B006
        return self.raw(as_t(obs))


class Gauss(nn.Module):
    """state -> ((mean, std), state)."""

    def __init__(self, da, unbounded=True):
        super().__init__()
        self.mu = MLP(DIM, da, post=None if unbounded else "tanh")
        self.ls = MLP(DIM, da)
        self.max_action = 1.0

    def forward(self, obs, state=None, info={}):  # noqa: B006
        x = as_t(obs)
        return (self.mu.raw(x), (0.5 * torch.tanh(self.ls.raw(x)) - 0.7).exp()), state


@contextlib.contextmanager
def pinned_noise(c: float = 0.9):
    """Reparameterised Gaussian sampling with a noise that is a fixed function of the mean.

    Independent of the order and the shape in which samples are drawn; gradients reach mean and
    standard deviation as with ordinary reparameterised sampling."""
    N = torch.distributions.Normal
    orig_r, orig_s = N.rsample, N.sample

    def rsample(self, sample_shape=torch.Size()):
        loc, scale = self.loc.expand(torch.Size(sample_shape) + self.loc.shape), self.scale.expand(torch.Size(sample_shape) + self.loc.shape)
        return loc + scale * pin(loc.detach(), c)

    def sample(self, sample_shape=torch.Size()):
        with torch.no_grad():
            return rsample(self, sample_shape)

    N.rsample, N.sample = rsample, sample
    try:
        yield
    finally:
        N.rsample, N.sample = orig_r, orig_s


def pin(loc, c=0.9):
    return c * torch.sin(53.0 * loc)


def sgd(net_or_params, loss, lr, retain=False):
    """Reference gradient-descent step; returns new tensors, written in place."""
    ps = list(net_or_params.parameters()) if isinstance(net_or_params, nn.Module) else list(net_or_params)
    ps = [p for p in ps if p.requires_grad]
    gs = torch.autograd.grad(loss, ps, retain_graph=retain, allow_unused=True)
    return ps, gs, lr


def apply(step):
    ps, gs, lr = step
    with torch.no_grad():
        for p, g in zip(ps, gs):
            if g is not None:
                p -= lr * g


def obs_stack(recs, key="obs"):
    """(observations, masks or None) of the given records."""
    xs = [r[key] for r in recs]
    if isinstance(xs[0], dict):
        return as_t(np.stack([x["obs"] for x in xs])), torch.as_tensor(np.stack([x["mask"] for x in xs]))
    return as_t(np.stack(xs)), None


def nstep(model, idx, n, gamma):
    """Per index: discounted reward sum, slot whose obs_next is bootstrapped from, factor, kind."""
    by, nm = model.by_slot(), model.next_map()
    out = []
    for s in idx:
        cur, g, disc, k = int(s), 0.0, 1.0, 0
        while True:
            g += disc * float(by[cur]["rew"])
            disc *= gamma
            k += 1
            if by[cur]["done"]:
                kind = "terminated" if by[cur]["terminated"] else "truncated"
                break
            if nm[cur] == cur:
                kind = "unfinished"
                break
            if k == n:
                kind = "full"
                break
            cur = nm[cur]
        out.append((g, cur, 0.0 if by[cur]["terminated"] else disc, kind))
    return out


def leaves_of(v):
    return {k: np.asarray(v[k]) for k in v.get_keys()} if hasattr(v, "get_keys") else np.asarray(v)


@contextlib.contextmanager
def draws(policy, log):
    """Record (indices, weights, rows) of every draw that is handed to the policy's processing."""
    had, orig = policy.__dict__.get("process_fn"), policy.process_fn

    def process_fn(*a, **k):
        batch, _, i = [*a, *k.values()]
        w = batch.weight if "weight" in batch else None
        log.append((np.array(i, copy=True), None if w is None else np.array(w, float, copy=True), deepcopy(batch)))
        return orig(*a, **k)

    policy.process_fn = process_fn
    try:
        yield
    finally:
        if had is None:
            del policy.process_fn
        else:
            policy.process_fn = had


class Rig:
    """A policy with a buffer, its reference rings and observers on sample/update_weight."""

    def __init__(self, ctx, rng, spec, policy, nets, kinds=("single", "vector", "manager", "prio", "priovec"), max_ep=None):
        self.ctx, self.rng, self.policy, self.nets = ctx, rng, policy, nets
        kind = kinds[int(rng.integers(len(kinds)))]
        sizes = None
        self.d = Driver(ctx, rng, kind=kind, sizes=sizes, spec=spec, max_ep=max_ep or int(rng.integers(1, 8)))
        self.d.st.p_trunc = 0.45
        self.sampled: list = []
        self.prio: list = []
        buf = self.d.buf
        if hasattr(buf, "update_weight"):
            orig_uw = buf.update_weight

            def update_weight(i, w):
                self.prio.append((np.array(i, copy=True), np.array(w.detach() if isinstance(w, torch.Tensor) else w, float, copy=True)))
                return orig_uw(i, w)

            buf.update_weight = update_weight

    def grow(self, lo=1, hi=8):
        for _ in range(int(self.rng.integers(lo, hi))):
            self.d.add()

    def pre(self):
        return {n: deepcopy(getattr(self.policy, n)) for n in self.nets}

    def update(self, size=None, **kw):
        """Run the real update; returns (stats, indices, weights, priorities written)."""
        self.sampled.clear()
        self.prio.clear()
        if size is None:
            size = 0 if self.rng.random() < 0.4 and self.d.kind not in ("prio", "priovec") else int(self.rng.integers(1, 9))
        with draws(self.policy, self.sampled), policy_within_training_step(self.policy):
            st = self.policy.update(size, self.d.buf, **kw)
        self.ctx.equal(len(self.sampled), 1, "sample-calls", "")
        idx, w, rows = self.sampled[0]
        stored = self.d.buf[idx]
        for key in ("obs", "act", "obs_next"):
            self.ctx.equal(leaves_of(rows[key]), leaves_of(stored[key]), "update-rows", lambda: f"the {key} passed on are not the rows {idx.tolist()}")
        self.ctx.note("updates")
        self.ctx.note("transitions", len(idx))
        return st, idx, w

    def recs(self, idx):
        by = self.d.model.by_slot()
        return [by[int(i)] for i in idx]

    def targets(self, idx, n, gamma, value: Callable[[list], torch.Tensor]):
        """n-step targets; value(recs) gives the bootstrap values of the records' obs_next."""
        ns = nstep(self.d.model, idx, n, gamma)
        by = self.d.model.by_slot()
        for x in ns:
            self.ctx.note("boot_" + x[3])
        with torch.no_grad():
            v = value([by[x[1]] for x in ns])
        g = torch.tensor([x[0] for x in ns], dtype=torch.float64)
        f = torch.tensor([x[2] for x in ns], dtype=torch.float64)
        sh = (-1,) + (1,) * (v.dim() - 1)
        return (g.view(sh) + f.view(sh) * v.double()).float()

    def check_nets(self, ref: dict[str, nn.Module], what, rtol=3e-4, atol=3e-6):
        for name, net in ref.items():
            for (k, got), (k2, want) in zip(getattr(self.policy, name).named_parameters(), net.named_parameters()):
                self.ctx.check(k == k2, "parameters", "")
                self.ctx.close(got, want, f"params:{name}", lambda k=k: f"{what}: {name}.{k} after the update", rtol=rtol, atol=atol)
                self.ctx.note("tensors_compared")

    def check_prio(self, idx, want, what):
        """Priorities written back equal the reference errors (in absolute value)."""
        if not hasattr(self.d.buf, "update_weight"):
            return
        self.ctx.equal(len(self.prio), 1, "priority-writes", what)
        i, w = self.prio[0]
        self.ctx.equal(i, np.asarray(idx), "priority-indices", what)
        self.ctx.close(np.abs(w), np.abs(np.asarray(want.detach() if isinstance(want, torch.Tensor) else want, float)), "priority-values", what, rtol=1e-3, atol=1e-4)
        self.ctx.note("priority_writes", len(idx))

    def weights(self, w):
        return torch.ones(()) if w is None else as_t(w)


from tianshou.policy import BasePolicy  # noqa: E402

getattr(BasePolicy, "_compile", lambda: None)()  # compile the kernels once, before the shards are forked
