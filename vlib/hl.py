"""Small worlds and random configurations for the high-level experiment interface."""
from __future__ import annotations

import contextlib
import functools
import inspect
import logging

import gymnasium as gym
import numpy as np
import torch
from tianshou.highlevel import experiment as X
from tianshou.highlevel.config import SamplingConfig
from tianshou.highlevel.env import EnvFactory, EnvFactoryRegistered, EnvMode, VectorEnvType
from tianshou.highlevel.params import policy_params as PP

logging.getLogger().setLevel(logging.CRITICAL)
LOG: list[tuple] = []  # what the environments of the current case saw


class HEnv(gym.Env):
    """Deterministic given its seed: random observations, short episodes, reward depends on the action."""

    metadata = {"render_modes": ["human", "rgb_array", "ansi"]}  # noqa: RUF012

    def __init__(self, act="disc", n=3, obs=3, high=(1.0, 1.0), length=4, bonus=0.0, own_seed=None, render_mode=None, tag=None):
        self.act, self.n, self.obs, self.length, self.bonus, self.render_mode, self.tag = act, n, obs, length, bonus, render_mode, tag
        self.observation_space = gym.spaces.Box(-10, 10, (obs,), np.float32)
        h = np.asarray(high, np.float32)
        self.action_space = gym.spaces.Discrete(n) if act == "disc" else gym.spaces.Box(-h, h, dtype=np.float32)
        self.t = 0
        if own_seed is not None:
            super().reset(seed=own_seed)
        self.first = None
        LOG.append(("make", tag, render_mode, self))

    def reset(self, *, seed=None, options=None):
        super().reset(seed=seed)
        if seed is not None:
            LOG.append(("seed", self.tag, self.render_mode, seed))
        self.t, self.end = 0, int(self.np_random.integers(2, self.length + 2))
        return self.np_random.normal(size=self.obs).astype(np.float32), {}

    def step(self, a):
        self.t += 1
        r = float(np.sum(a)) * 0.3 + float(self.np_random.normal()) + self.bonus
        return self.np_random.normal(size=self.obs).astype(np.float32), r, self.t >= self.end, False, {}

    def render(self):
        LOG.append(("render", self.tag, self.render_mode, None))
        return np.zeros((2, 2, 3), np.uint8)


if "VerifHL-v0" not in gym.registry:
    gym.register("VerifHL-v0", entry_point="vlib.hl:HEnv", reward_threshold=1.25, disable_env_checker=True, order_enforce=False)


class OwnFactory(EnvFactory):
    """A user's own environment factory; every environment seeds itself."""

    def __init__(self, persist=(), **kw):
        super().__init__(VectorEnvType.DUMMY)
        self.kw, self.persist = kw, persist

    def create_env(self, mode):
        return HEnv(tag=mode.value, own_seed={EnvMode.TRAIN: 1, EnvMode.TEST: 2, EnvMode.WATCH: 3}[mode], **self.kw)

    def create_envs(self, *a, **k):
        envs = super().create_envs(*a, **k)
        if self.persist:
            envs.set_persistence(*self.persist)
        return envs


def registered(train_seed=11, test_seed=22, **kw):
    return EnvFactoryRegistered(
        task="VerifHL-v0", train_seed=train_seed, test_seed=test_seed, venv_type=VectorEnvType.DUMMY,
        render_mode_train="rgb_array", render_mode_test="ansi", render_mode_watch="human", **kw,
    )


# name: builder, setter, params, policy class, which action spaces, family
ALGOS = {
    "pg": (X.PGExperimentBuilder, "with_pg_params", PP.PGParams, "PGPolicy", "db", "on"),
    "a2c": (X.A2CExperimentBuilder, "with_a2c_params", PP.A2CParams, "A2CPolicy", "db", "on"),
    "ppo": (X.PPOExperimentBuilder, "with_ppo_params", PP.PPOParams, "PPOPolicy", "db", "on"),
    "npg": (X.NPGExperimentBuilder, "with_npg_params", PP.NPGParams, "NPGPolicy", "db", "on"),
    "trpo": (X.TRPOExperimentBuilder, "with_trpo_params", PP.TRPOParams, "TRPOPolicy", "db", "on"),
    "dqn": (X.DQNExperimentBuilder, "with_dqn_params", PP.DQNParams, "DQNPolicy", "d", "off"),
    "iqn": (X.IQNExperimentBuilder, "with_iqn_params", PP.IQNParams, "IQNPolicy", "d", "off"),
    "ddpg": (X.DDPGExperimentBuilder, "with_ddpg_params", PP.DDPGParams, "DDPGPolicy", "b", "off"),
    "redq": (X.REDQExperimentBuilder, "with_redq_params", PP.REDQParams, "REDQPolicy", "b", "off"),
    "sac": (X.SACExperimentBuilder, "with_sac_params", PP.SACParams, "SACPolicy", "b", "off"),
    "dsac": (X.DiscreteSACExperimentBuilder, "with_sac_params", PP.DiscreteSACParams, "DiscreteSACPolicy", "d", "off"),
    "td3": (X.TD3ExperimentBuilder, "with_td3_params", PP.TD3Params, "TD3Policy", "b", "off"),
    "random": (X.RandomActionExperimentBuilder, None, None, "RandomActionPolicy", "db", "on"),
}


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def sampling(rng, **kw):
    d = {
        "num_epochs": int(rng.integers(1, 4)), "step_per_epoch": int(rng.integers(5, 30)), "batch_size": int(rng.integers(4, 12)),
        "num_train_envs": int(rng.integers(1, 4)), "num_test_envs": int(rng.integers(1, 3)), "buffer_size": int(rng.integers(40, 90)),
        "train_seed": int(rng.integers(1000)), "repeat_per_collect": int(rng.integers(1, 3)), "update_per_step": pick(rng, [0.2, 0.5, 1.0]),
    }
    d["num_test_episodes"] = d["num_test_envs"] * int(rng.integers(1, 3))
    if rng.random() < 0.5:
        d["step_per_collect"] = int(rng.integers(4, 13))
    else:
        d.update(step_per_collect=None, episode_per_collect=d["num_train_envs"] * int(rng.integers(1, 3)))
    d.update(kw)
    return SamplingConfig(**d)


@contextlib.contextmanager
def spy(cls, name="__init__", after=None):
    """Records the bound arguments of every call of cls.name made on exactly the class or below."""
    calls = []
    orig = inspect.getattr_static(cls, name) if name in cls.__dict__ else None
    fn = getattr(cls, name)
    sig = inspect.signature(fn)

    @functools.wraps(fn)
    def wrapper(self, *a, **k):
        b = sig.bind(self, *a, **k)
        b.apply_defaults()
        args = dict(b.arguments)
        args.pop("self", None)
        args.update(args.pop("kwargs", {}) or {})
        rec = {"self": self, "args": args}
        calls.append(rec)
        rec["result"] = fn(self, *a, **k)
        if after:
            after(rec)
        return rec["result"]

    setattr(cls, name, wrapper)
    try:
        yield calls
    finally:
        if orig is None:
            delattr(cls, name)
        else:
            setattr(cls, name, orig)


def layers(module):
    """Dimensions of the linear layers, in order of definition."""
    out = []
    for m in module.modules():
        if isinstance(m, torch.nn.Linear):
            out.append((m.in_features, m.out_features))
        elif type(m).__name__ == "EnsembleLinear":
            out.append(tuple(m.weight.shape[1:]))
    return out


def state_of(policy):
    return {k: v.detach().clone() for k, v in policy.state_dict().items()}


def same_state(a, b):
    return set(a) == set(b) and all(torch.equal(torch.as_tensor(a[k]), torch.as_tensor(b[k])) for k in a)
