"""Scripted turn-based multi-agent environments."""
import gymnasium as gym
import numpy as np
from pettingzoo import AECEnv


class Turns(AECEnv):
    metadata = {"name": "turns"}

    def __init__(self, seed, n, masked, kind, leave):
        super().__init__()
        self.sd, self.masked, self.leave = seed, masked, leave
        self.possible_agents = [f"p{7 * i}" for i in range(n)]
        ob = gym.spaces.Box(-1e6, 1e6, (3,), np.float32)
        self.acts = {"disc": gym.spaces.Discrete(4), "box": gym.spaces.Box(-1, 1, (2,))}[kind]
        self.obs_sp = gym.spaces.Dict({"observation": ob, "action_mask": gym.spaces.Box(0, 1, (4,), np.int8)}) if masked else ob
        self.seeds = []
        self.ep = -1

    def observation_space(self, a):
        return self.obs_sp

    def action_space(self, a):
        return self.acts

    def reset(self, seed=None, options=None):
        self.seeds.append((seed, options))
        self.ep += 1
        self.t = 0
        self.acc = 0
        self.rng = np.random.default_rng([self.sd, self.ep])
        self.agents = list(self.possible_agents)
        self.rewards = {a: 0 for a in self.agents}
        self._cumulative_rewards = {a: 0 for a in self.agents}
        self.terminations = {a: False for a in self.agents}
        self.truncations = {a: False for a in self.agents}
        self.infos = {a: {} for a in self.agents}
        self.agent_selection = self.agents[int(self.rng.integers(len(self.agents)))]

    def observe(self, agent):
        o = np.array([int(agent[1:]), self.t, self.acc], np.float32)
        if not self.masked:
            return o
        m = np.array([(self.t + int(agent[1:]) + k) % 3 != 0 for k in range(4)], np.int8)
        return {"observation": o, "action_mask": m}

    def step(self, action):
        if self.terminations[self.agent_selection] or self.truncations[self.agent_selection]:
            self._was_dead_step(action)
            return
        self.t += 1
        self.acc = (self.acc * 7 + int(np.sum(np.asarray(action) * 10)) + 1) % 997
        for a in self.agents:
            self.rewards[a] = float(self.rng.integers(-4, 5))
            self.infos[a] = {"t": self.t}
        live = [a for a in self.agents if not (self.terminations[a] or self.truncations[a])]
        if self.leave and len(live) > 1 and self.rng.random() < 0.25:
            self.terminations[live[int(self.rng.integers(len(live)))]] = True
        if self.rng.random() < 0.15:
            for a in live:
                (self.terminations if self.rng.random() < 0.5 else self.truncations)[a] = True
        go = [a for a in self.agents if not (self.terminations[a] or self.truncations[a])] or self.agents
        self.agent_selection = go[int(self.rng.integers(len(go)))]
        self._deads_step_first()

    def render(self):
        return ("frame", self.t)

    def close(self):
        self.closed = True
