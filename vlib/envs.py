"""Self-describing environments and policies: every value identifies where it came from.

TagEnv's observations code (env, episode, step, checksum of the actions received so far), so an action, observation,
reward or reset that reaches the wrong place, twice, or not at all shows up in what comes back.  Each environment also
keeps its own event log, which is the ground truth the monitors compare the recorded experience with.
"""
from __future__ import annotations

import time
from typing import Any

import gymnasium as gym
import numpy as np
import torch
from tianshou.data import Batch
from tianshou.policy import BasePolicy
from tianshou.policy.base import TrainingStats

MOD = 1009


def ep_plan(seed: int, eid: int, ep: int, max_len: int, p_trunc: float) -> tuple[int, bool, bool]:
    r = np.random.default_rng([seed, eid, ep])
    n = int(r.integers(1, max_len + 1))
    u = r.random()
    trunc = bool(u < p_trunc)
    return n, (not trunc) or bool(u < p_trunc * 0.2), trunc


def act_code(act: Any) -> int:
    a = np.asarray(act, dtype=np.float64).ravel()
    return int(sum((k + 3) * int(np.floor(x * 64 + 0.5)) for k, x in enumerate(a))) % MOD


def reward(eid: int, ep: int, t: int, acc: int) -> float:
    return ((eid * 7 + ep * 3 + t * 5 + acc) % 64) / 8 - 3.0


class TagEnv(gym.Env):
    metadata = {"render_modes": []}

    def __init__(self, eid=0, seed=0, obs="vec", act="disc", max_len=6, p_trunc=0.4, info="plain", rew_dim=0, delay=0.0,
                 low=None, high=None, n_act=5):
        self.eid, self.sd, self.ok, self.max_len, self.p_trunc = eid, seed, obs, max_len, p_trunc
        self.ik, self.rew_dim, self.delay = info, rew_dim, delay
        self.observation_space = make_obs_space(obs)
        if act == "disc":
            self.action_space = gym.spaces.Discrete(n_act)
        elif act == "multi":
            self.action_space = gym.spaces.MultiDiscrete([3, 4, 2])
        else:
            lo = np.array([-1.0, -2.0], np.float32) if low is None else np.asarray(low, np.float32)
            hi = np.array([1.0, 3.0], np.float32) if high is None else np.asarray(high, np.float32)
            self.action_space = gym.spaces.Box(lo, hi)
        self.ep, self.t, self.acc, self.done = -1, 0, 0, True
        self.log: list[tuple] = []
        self.faults: list[str] = []
        self.closed = 0
        self.frames = 0
        self.seeds: list = []
        self.tag = None

    def make_obs(self):
        return tag_obs(self.ok, self.eid, self.ep, self.t, self.acc)

    def make_info(self, kind):
        if self.ik == "none":
            return {}
        if self.ik == "stepwise" and kind == "reset":
            return {}
        d = {"e": self.eid, "k": self.ep * 1000 + self.t}
        if self.ik == "nested":
            d["n"] = {"acc": float(self.acc), "v": np.array([self.t, self.ep], np.float32)}
        return d

    def reset(self, *, seed=None, options=None):
        if self.delay:
            time.sleep(self.delay * ((self.ep + self.eid) % 3) / 2)
        self.seeds.append(seed)
        midway = not self.done
        self.ep += 1
        self.t, self.acc, self.done = 0, 0, False
        self.n, self.term, self.trunc = ep_plan(self.sd, self.eid, self.ep, self.max_len, self.p_trunc)
        o, i = self.make_obs(), self.make_info("reset")
        self.log.append(("reset", midway, seed, options, self.ep))
        return o, i

    def step(self, act):
        if self.delay:
            time.sleep(self.delay * ((self.ep * 5 + self.t * 3 + self.eid) % 4) / 3)
        if self.done:
            self.faults.append(f"env {self.eid}: step after the episode ended without reset")
        before = (self.ep, self.t, self.acc)
        r = reward(self.eid, self.ep, self.t, self.acc)
        self.acc = (self.acc * 31 + act_code(act) + 1) % MOD
        self.t += 1
        end = self.t >= self.n
        term, trunc = (self.term, self.trunc) if end else (False, False)
        self.done = end
        a = np.array(act, copy=True)
        self.log.append(("step", before, a, r, term, trunc, (self.ep, self.t, self.acc)))
        rr = r if not self.rew_dim else np.array([r * (k + 1) for k in range(self.rew_dim)])
        return self.make_obs(), rr, term, trunc, self.make_info("step")

    def render(self, **kw):
        self.frames += 1
        return ("frame", self.eid, self.ep, self.t, tuple(sorted(kw)))

    def close(self):
        self.closed += 1


def make_obs_space(kind):
    S = gym.spaces
    big = lambda n, dt: S.Box(-1e9 if dt != np.uint8 else 0, 1e9 if dt != np.uint8 else 255, (n,), dt)
    if kind in ("vec", "vec64"):
        return big(4, np.float32 if kind == "vec" else np.float64)
    if kind == "int":
        return S.Box(-(2**31), 2**31 - 2, (4,), np.int64)
    if kind == "img":
        return S.Box(0, 255, (2, 4), np.uint8)
    if kind == "discrete":
        return S.Discrete(10**9)
    if kind == "multidisc":
        return S.MultiDiscrete([1000, 1000, 1000, MOD])
    if kind == "multibin":
        return S.MultiBinary(40)
    if kind == "dict":
        return S.Dict({"x": big(4, np.float32), "sub": S.Dict({"y": S.Box(-(2**31), 2**31 - 2, (2, 2), np.int64)})})
    raise KeyError(kind)


def tag_obs(kind, e, ep, t, acc):
    c = [e, ep, t, acc]
    if kind == "vec":
        return np.array(c, np.float32)
    if kind == "vec64":
        return np.array(c, np.float64)
    if kind in ("int", "multidisc"):
        return np.array(c, np.int64)
    if kind == "img":
        return np.array([[e, ep % 256, t % 256, acc % 256], [acc // 256, ep // 256, 7, 9]], np.uint8)
    if kind == "discrete":
        return np.int64(((e * 100 + ep) * 100 + t) * MOD + acc)
    if kind == "multibin":
        return np.array([(v >> b) & 1 for v in c for b in range(10)], np.int8)
    if kind == "dict":
        return {"x": np.array(c, np.float32), "sub": {"y": np.array(c, np.int64).reshape(2, 2)}}
    raise KeyError(kind)


def steps_of(log: list[tuple]) -> list[tuple]:
    return [e for e in log if e[0] == "step"]


def info_of(ik, e, ep, t, acc):
    """What the env put into info at that point (without the env_id the vector env adds)."""
    if ik == "none":
        return {}
    d: dict[str, Any] = {"e": e, "k": ep * 1000 + t}
    if ik == "nested":
        d["n"] = {"acc": float(acc), "v": np.array([t, ep], np.float32)}
    return d


# --------------------------------------------------------------------------
def codes_of_obs(kind, obs) -> np.ndarray:
    """(n, 4) integer codes back from a batch of observations."""
    if kind == "dict":
        return np.asarray(obs["x"] if isinstance(obs, dict) else obs.x).astype(int)
    o = np.asarray(obs)
    if kind == "img":
        o = o.astype(int)
        return np.stack([o[:, 0, 0], o[:, 0, 1] + 256 * o[:, 1, 1], o[:, 0, 2], o[:, 0, 3] + 256 * o[:, 1, 0]], 1)
    if kind == "discrete":
        o = o.astype(int)
        acc, r = o % MOD, o // MOD
        return np.stack([r // 10000, (r // 100) % 100, r % 100, acc], 1)
    if kind == "multibin":
        o = o.astype(int).reshape(len(o), 4, 10)
        return (o * (1 << np.arange(10))).sum(-1)
    return o.astype(int)


def pol_act(action_type: str, codes: np.ndarray, hid: np.ndarray, n_act: int = 5) -> np.ndarray:
    """Deterministic action rule of StubPolicy (raw action, before mapping)."""
    e, ep, t, acc = codes.T
    h = np.asarray(hid).astype(int)
    if action_type == "disc":
        return ((e + 2 * ep + 3 * t + acc + 5 * h) % n_act).astype(np.int64)
    if action_type == "multi":
        z = e + 2 * ep + 3 * t + acc + 5 * h
        return np.stack([z % 3, (z // 3) % 4, (z // 5) % 2], 1).astype(np.int64)
    z = (e * 7 + ep * 3 + t * 11 + acc + 13 * h) % 97
    cols = [z / 24.0 - 2.0, ((z * 5) % 97) / 48.0 - 1.0, ((z * 7) % 97) / 32.0 - 1.5, 1.0 - ((z * 11) % 97) / 48.0]
    return np.stack(cols[:n_act], 1).astype(np.float32)


def leaves(b, pre=()):
    for k in b.get_keys():
        if isinstance(b[k], Batch):
            yield from leaves(b[k], (*pre, k))
        else:
            yield (*pre, k), b[k]


def noise_of(codes: np.ndarray) -> np.ndarray:
    return (((codes * [3, 5, 7, 11]).sum(1) % 8) / 16.0).astype(np.float32)


def dist_std(t, acc, n):
    return np.stack([1 + t, 1 + acc / 64, 2 - t % 2, 0.5 + acc % 3], -1)[..., :n]


class StubPolicy(BasePolicy):
    """Deterministic policy; optionally recurrent, optionally with a distribution and extra policy outputs.

    The hidden state counts the steps of the current episode (1 after the first step), plus the env id, so a state
    belonging to another env or episode is visible in the recorded data.
    """

    def __init__(self, action_space, kind, obs_kind, state=None, dist=None, extra=False, torch_act=False, noise=False, **kw):
        super().__init__(action_space=action_space, **kw)
        self.kind, self.obs_kind, self.state_kind = kind, obs_kind, state
        self.dist_kind, self.extra, self.torch_act, self.noise = dist, extra, torch_act, noise
        self.n_act = int(action_space.n) if kind == "disc" else action_space.shape[0]
        self.calls: list[dict] = []
        self.w = torch.nn.Parameter(torch.zeros(1))
        self.n_noise = 0
        self.busy = None  # callable: the environments with a step in flight

    def read_state(self, state, n):
        """-> (n, 2) array [env code, step counter]; zeros when there is none."""
        if state is None:
            return np.zeros((n, 2), int)
        if self.state_kind == "tensor":
            return state.detach().numpy().astype(int)
        if self.state_kind == "array":
            return np.asarray(state).astype(int)
        if self.state_kind == "batch":
            return np.stack([np.asarray(state.h[:, 0]), np.asarray(state.sub.c)], 1).astype(int)
        if self.state_kind == "dict":
            h = state["h"]
            return np.asarray(h.detach() if isinstance(h, torch.Tensor) else h).astype(int)
        raise KeyError(self.state_kind)

    def write_state(self, s):
        if self.state_kind == "tensor":
            return torch.as_tensor(s).float()
        if self.state_kind == "array":
            return s.astype(np.float64)
        if self.state_kind == "batch":
            return Batch(h=torch.as_tensor(s[:, :1]).float(), sub=Batch(c=s[:, 1].astype(np.float64)))
        if self.state_kind == "dict":
            return {"h": torch.as_tensor(s).float()}
        return None

    def forward(self, batch, state=None, **kw):
        codes = codes_of_obs(self.obs_kind, batch.obs)
        n = len(codes)
        hid = self.read_state(state, n) if self.state_kind else np.zeros((n, 2), int)
        info = batch.info
        self.calls.append(dict(busy=self.busy() if self.busy else None, codes=codes.copy(), hid=hid.copy(), none=state is None, training=self.training,
                               within=self.is_within_training_step, updating=self.updating,
                               info={"/".join(k): np.asarray(v).copy() for k, v in leaves(info)} if isinstance(info, Batch) else None))
        act = pol_act(self.kind, codes, hid[:, 1], self.n_act)
        out = Batch(act=torch.as_tensor(act) if self.torch_act else act)
        if self.state_kind:
            s = np.stack([codes[:, 0] + 1, hid[:, 1] + 1], 1)
            out.state = self.write_state(s)
        if self.extra:
            out.policy = Batch(tag=(codes[:, 3] * 2 + 1).astype(np.int64), sub=Batch(z=codes[:, :2].astype(np.float32)))
        if self.dist_kind == "cat":
            p = np.ones((n, self.n_act)) + np.eye(self.n_act)[codes[:, 3] % self.n_act] * (1 + codes[:, 2:3])
            out.dist = torch.distributions.Categorical(probs=torch.as_tensor(p))
        elif self.dist_kind == "normal":
            sd = torch.as_tensor(dist_std(codes[:, 2], codes[:, 3], self.n_act)).float()
            out.dist = torch.distributions.Independent(torch.distributions.Normal(torch.zeros(n, self.n_act), sd), 1)
        return out

    def exploration_noise(self, act, batch):
        if not self.noise:
            return act
        self.n_noise += 1
        codes = codes_of_obs(self.obs_kind, batch.obs)
        if self.kind == "box":
            return act + noise_of(codes)[:, None]
        return (act + 1) % self.n_act

    def learn(self, batch, *a, **k):
        return TrainingStats()
