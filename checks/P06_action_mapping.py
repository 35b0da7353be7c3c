"""Raw network outputs, environment actions and single-observation actions."""
from copy import deepcopy
from types import SimpleNamespace

import gymnasium as gym
import numpy as np
import torch
from tianshou.data import Batch, Collector, VectorReplayBuffer
from tianshou.env import DummyVectorEnv
from tianshou.policy import BasePolicy, ICMPolicy, MultiAgentPolicyManager
from tianshou.policy.base import RandomActionPolicy, TrainingStats, policy_within_training_step
from vlib import zoo
from vlib.core import Scenario

RULE = (
    "mapping and inverse mapping of random raw and environment actions for random bounded action spaces under every combination of "
    "bounding and scaling; actions of every policy for single observations compared with its batch of one; random policies' draws; "
    "distinct = (options, space, values)"
)
MIN = {
    "mapped": 1000, "inverted": 1000, "round_trips": 800, "outside": 300, "rejected": 20, "single_actions": 300, "policies": 36, "collected": 1000,
    "random_draws": 20000, "single_with_state": 100, "policy_mappings": 150,
}


class Plain(BasePolicy):
    """Acts with a given function of the observation."""

    def __init__(self, fn, **kw):
        super().__init__(**kw)
        self.fn = fn

    def forward(self, batch, state=None, **kw):
        return Batch(act=self.fn(batch.obs), state=state)

    def learn(self, batch, *a, **k):
        return TrainingStats()


def space_of(rng):
    shape = [(1,), (3,), (2, 2)][int(rng.integers(3))]
    if rng.random() < 0.2:
        return gym.spaces.Box(-1.0, 1.0, shape)
    lo = rng.normal(size=shape) * 10 ** rng.uniform(-1, 2)
    return gym.spaces.Box(np.asarray(lo, np.float32), np.asarray(lo + rng.uniform(0.05, 20, shape), np.float32))


def reference(x, bound, scale, lo, hi):
    x = np.asarray(x, np.float64)
    if bound == "clip":
        x = np.minimum(np.maximum(x, -1), 1)
    elif bound == "tanh":
        x = np.tanh(x)
    return lo + (x + 1) / 2 * (hi - lo) if scale else x


def s_map(ctx, rng):
    sp = space_of(rng)
    lo, hi = sp.low.astype(np.float64), sp.high.astype(np.float64)
    width = (hi - lo).max() + np.abs(lo).max()
    for _ in range(6):
        bound, scale = [None, "clip", "tanh"][int(rng.integers(3))], bool(rng.random() < 0.6)
        pol = Plain(None, action_space=sp, action_scaling=scale, action_bound_method=bound)
        B = int(rng.integers(1, 5))
        dt = [np.float32, np.float64][int(rng.integers(2))]
        x = (rng.normal(size=(B, *sp.shape)) * rng.choice([0.3, 1.0, 3.0])).astype(dt)
        if bound is None and scale:
            if rng.random() < 0.3:
                x[0] = np.sign(x[0]) * (1.001 + abs(x[0]))
                ctx.raises(lambda: pol.map_action(x), AssertionError, "unbounded-scaled", f"{x}")
                ctx.note("rejected")
            x = np.clip(x, -1, 1)
        as_tensor = bool(rng.random() < 0.4)
        arg = torch.as_tensor(x) if as_tensor else x
        keep = x.copy()
        got = pol.map_action(arg)
        what = f"space {sp}, bound {bound}, scaling {scale}, raw {x.tolist()}"
        ctx.check(isinstance(got, np.ndarray), "type", f"{what}: {type(got)}")
        ctx.equal(np.asarray(arg), keep, "input-modified", what)
        want = reference(x, bound, scale, lo, hi)
        tol = 1e-5 * (width if scale else 1.0) + 1e-6
        ctx.close(got, want, "mapped-action", what, rtol=1e-5, atol=tol)
        ctx.note("mapped", B)
        ctx.note("outside", int((abs(x) > 1).sum()))
        if bound is not None:
            l2, h2 = (lo, hi) if scale else (-np.ones_like(lo), np.ones_like(hi))
            ctx.check((got >= l2 - tol).all() and (got <= h2 + tol).all(), "out-of-range", what)
        # environment action -> raw -> environment action
        if scale:
            a = np.stack([sp.sample() for _ in range(B)]).astype(dt)
            a = np.clip(a, lo + (hi - lo) * 1e-3, hi - (hi - lo) * 1e-3)
        else:
            a = rng.uniform(-0.999, 0.999, (B, *sp.shape)).astype(dt)
        ka = a.copy()
        raw = pol.map_action_inverse(torch.as_tensor(a) if as_tensor else a)
        ctx.equal(a, ka, "input-modified", what)
        ctx.check(np.isfinite(raw).all(), "inverse-not-finite", f"{what}: {a}")
        ctx.note("inverted", B)
        back = pol.map_action(raw if bound is not None else np.clip(raw, -1, 1))
        ctx.close(back, a, "round-trip", f"{what}: environment action {a.tolist()} -> {raw.tolist()}", rtol=2e-4, atol=2e-4 * (width if scale else 1.0))
        inner = np.clip(x, -0.99, 0.99) if bound != "tanh" else np.clip(x, -2.5, 2.5)
        ctx.close(pol.map_action_inverse(pol.map_action(inner)), inner, "round-trip", f"{what}: raw {inner.tolist()}", rtol=1e-2, atol=2e-3 + 1e-5 * width / (hi - lo).min())
        ctx.note("round_trips", 2 * B)
        ctx.sig(bound, scale, sp.shape, dt.__name__, keep)
    d = gym.spaces.Discrete(4) if rng.random() < 0.5 else gym.spaces.MultiDiscrete([3, 4])
    pol = Plain(None, action_space=d)
    a = np.stack([np.asarray(d.sample()) for _ in range(3)])
    ctx.equal(pol.map_action(a), a, "discrete-action", "mapped")
    ctx.equal(pol.map_action_inverse(a), a, "discrete-action", "inverse")
    ctx.raises(lambda: Plain(None, action_space=d, action_scaling=True), ValueError, "discrete-scaling", "")


BOUNDED = ("pg_box", "a2c_box", "ppo_box", "npg_box", "trpo_box", "gail", "ddpg", "td3", "td3bc", "sac", "redq", "cql", "bcq", "bc_box", "icm", "manager")


def s_policies(ctx, rng):
    """Every policy maps with the bounding and scaling it was configured with."""
    name = BOUNDED[ctx.case % len(BOUNDED)]
    n = int(rng.integers(2, 4))
    lo = rng.normal(size=n) * 3
    sp = gym.spaces.Box(np.asarray(lo, np.float32), np.asarray(lo + rng.uniform(0.5, 9, n), np.float32))
    any_bound = name.endswith("_box") or name in ("gail", "bcq", "icm", "manager")
    bound = [None, "clip", "tanh"][int(rng.integers(3 if any_bound else 2))]
    scale = bool(rng.random() < 0.5)
    cfg = dict(action_space=sp, action_scaling=scale, action_bound_method=bound)
    if name == "icm":
        inner = zoo.build("ddpg", rng, n_act=n)
        m = torch.nn.Linear(2, 2)
        pol = ICMPolicy(policy=inner.policy, model=m, optim=torch.optim.SGD(m.parameters(), lr=0.1), lr_scale=1.0, reward_scale=0.1, forward_loss_weight=0.2, **cfg)
    elif name == "manager":
        env = SimpleNamespace(agents=["a", "b"], agent_idx={"a": 0, "b": 1}, action_space=sp, observation_space=None)
        pol = MultiAgentPolicyManager(policies=[zoo.build("ddpg", rng, n_act=n).policy for _ in "ab"], env=env, action_scaling=scale, action_bound_method=bound)
    else:
        pol = zoo.build(name, rng, masked=False, n_act=n, **cfg).policy
    what = f"{name}: bound {bound}, scaling {scale}"
    low, high = sp.low.astype(np.float64), sp.high.astype(np.float64)
    x = (rng.normal(size=(4, n)) * 2).astype(np.float32)
    if bound is None and scale:
        x[0] = np.sign(x[0]) * (1.001 + abs(x[0]))
        ctx.raises(lambda: pol.map_action(x), AssertionError, "unbounded-scaled", what)
        x = np.clip(x, -1, 1)
    ctx.close(pol.map_action(x), reference(x, bound, scale, low, high), "policy-mapping", f"{what}, raw {x.tolist()}", rtol=1e-5, atol=1e-4)
    inner = np.clip(x, -0.99, 0.99)
    ctx.close(pol.map_action_inverse(pol.map_action(inner)), inner, "round-trip", what, rtol=1e-2, atol=2e-3)
    ctx.note("policy_mappings")
    ctx.sig(name, bound, scale)


def s_single(ctx, rng):
    """compute_action(obs) is the mapped action of a batch of one."""
    name = zoo.ALL[ctx.case % len(zoo.ALL)]
    ctx.note("policies", ctx.case < len(zoo.ALL))
    it = zoo.build(name, rng, masked=False, drop=0.3)
    pol = it.policy
    pol.eval()
    for _ in range(int(rng.integers(1, 5))):
        ob = it.spec.obs(int(rng.integers(10**6)))
        step = bool(rng.random() < 0.4)
        seed = int(rng.integers(2**31))
        arg = ob.tolist() if rng.random() < 0.3 else ob
        res = []
        for k in range(2):
            np.random.seed(seed)
            torch.manual_seed(seed)
            with policy_within_training_step(pol, step), torch.no_grad():
                if k == 0:
                    res.append(pol.compute_action(deepcopy(arg)))
                else:
                    res.append(pol.map_action(pol(Batch(obs=ob[None], info=Batch())).act)[0])
        what = f"{name}, training step {step}"
        if isinstance(pol.action_space, gym.spaces.Discrete) and it.spec.kind == "disc":
            ctx.check(isinstance(res[0], int), "single-action-type", f"{what}: {type(res[0])}")
            ctx.check(0 <= res[0] < it.spec.n, "single-action-range", f"{what}: {res[0]}")
        elif it.spec.kind == "box":
            ctx.check(isinstance(res[0], np.ndarray) and res[0].shape == pol.action_space.shape, "single-action-type", f"{what}: {res[0]!r}")
        ctx.close(res[0], res[1], "single-action", what, rtol=1e-4, atol=1e-5)
        ctx.note("single_actions")
    ctx.sig(name, it.det)


def s_shapes(ctx, rng):
    """Single observations and actions of every shape."""
    obs_shape = [(), (1,), (4,), (1, 3), (2, 3, 3)][int(rng.integers(5))]
    kind = ["disc", "multi", "box"][int(rng.integers(3))]
    sp = {"disc": gym.spaces.Discrete(6), "multi": gym.spaces.MultiDiscrete([3] * int(rng.integers(1, 4)))}.get(kind) or space_of(rng)
    ash = sp.shape
    torchy = bool(rng.random() < 0.5)

    def fn(obs):
        o = np.asarray(obs, float).reshape(len(obs), -1).sum(1)
        if kind == "disc":
            a = np.floor(abs(o) * 7).astype(int) % 6
        elif kind == "multi":
            a = (np.floor(abs(o) * 7).astype(int)[:, None] + np.arange(ash[0])) % 3
        else:
            k = int(np.prod(ash))
            a = np.sin(o[:, None] * np.arange(1, k + 1)).reshape(len(obs), *ash).astype(np.float32)
        return torch.as_tensor(a) if torchy else a

    kw = dict(action_scaling=bool(rng.random() < 0.7), action_bound_method="clip") if kind == "box" else {}
    pol = Plain(fn, action_space=sp, **kw)
    ob = rng.normal(size=obs_shape)
    got = pol.compute_action(ob)
    want = pol.map_action(fn(ob[None]))[0]
    what = f"observation shape {obs_shape}, action space {sp}"
    if kind == "disc":
        ctx.check(isinstance(got, int), "single-action-type", f"{what}: {type(got)}")
        ctx.equal(got, int(want), "single-action", what)
    else:
        ctx.equal(np.shape(got), ash, "single-action-shape", what)
        ctx.close(np.asarray(got), want, "single-action", what)
    ctx.note("single_actions")
    ctx.sig("shapes", obs_shape, kind, ash, torchy)


def s_state(ctx, rng):
    """A recurrent policy asked for one observation gets the state and information that were passed in."""
    n = int(rng.integers(2, 6))
    seen = []

    class Rec(Plain):
        def forward(self, batch, state=None, **kw):
            seen.append((deepcopy(batch), deepcopy(state)))
            h = 0 if state is None else state["h"] if isinstance(state, dict) else state
            k = batch.info["k"] if batch.info is not None and "k" in batch.info else 0
            a = (np.asarray(batch.obs).reshape(len(batch.obs), -1).sum(1) + np.asarray(h).sum() * 2 + np.asarray(k)).astype(int) % n
            return Batch(act=torch.as_tensor(a) if torchy else a, state=state)

    torchy = bool(rng.random() < 0.5)
    pol = Rec(None, action_space=gym.spaces.Discrete(n))
    for _ in range(6):
        ob = rng.integers(0, 9, size=(int(rng.integers(1, 4)),)).astype(float)
        h = rng.integers(0, 5, size=(1, 2)).astype(float)
        state = [None, h, {"h": torch.as_tensor(h)}, Batch(h=h)][int(rng.integers(4))]
        h0 = 0 if state is None else h.sum()
        state = state if not isinstance(state, Batch) else {"h": state.h}
        k = int(rng.integers(0, 7))
        info = {"k": k} if rng.random() < 0.6 else None
        seen.clear()
        got = pol.compute_action(ob, info=info, state=state)
        want = int(ob.sum() + 2 * h0 + (k if info else 0)) % n
        what = f"observation {ob}, state {state}, info {info}"
        ctx.equal(len(seen), 1, "forward-calls", what)
        ctx.check(isinstance(got, int), "single-action-type", f"{what}: {type(got)}")
        ctx.equal(got, want, "single-action-state", what)
        ctx.note("single_with_state", state is not None)
        ctx.sig("state", n, ob.tolist(), str(state), k)


class Echo(gym.Env):
    """One-step episodes that remember the actions they got."""

    def __init__(self, sp):
        self.observation_space, self.action_space, self.got = gym.spaces.Box(-9, 9, (2,)), sp, []

    def reset(self, *, seed=None, options=None):
        return np.zeros(2, np.float32), {}

    def step(self, a):
        self.got.append(np.array(a, copy=True))
        return np.zeros(2, np.float32), 0.0, len(self.got) % 4 == 0, False, {}


def s_collect(ctx, rng):
    """Actions reach the environment mapped, the raw ones are stored; random policies cover the whole space."""
    sp = [gym.spaces.Discrete(int(rng.integers(2, 7))), space_of(rng), space_of(rng)][int(rng.integers(3))]
    mode = ["policy", "random", "random-policy"][int(rng.integers(3))]
    box = isinstance(sp, gym.spaces.Box)
    kw = dict(action_scaling=bool(rng.random() < 0.6), action_bound_method=["clip", "tanh"][int(rng.integers(2))]) if box else {}
    if box and mode == "random":
        kw["action_scaling"] = True  # otherwise actions outside [-1, 1] have no raw counterpart
    k = int(rng.integers(1, 4))
    envs = [Echo(sp) for _ in range(k)]
    if mode == "random-policy":
        pol = RandomActionPolicy(sp)
    else:
        draw = np.random.default_rng(int(rng.integers(2**31)))
        fn = (lambda o: draw.normal(size=(len(o), *sp.shape)).astype(np.float32) * 1.5) if box else (lambda o: draw.integers(0, sp.n, len(o)))
        pol = Plain(fn, action_space=sp, **kw)
    buf = VectorReplayBuffer(200 * k, k)
    col = Collector(pol, DummyVectorEnv([lambda e=e: e for e in envs]), buf)
    col.reset()
    col.collect(n_step=40 * k, random=mode == "random")
    for i, e in enumerate(envs):
        raw = buf.buffers[i].act[:40]
        got = np.stack(e.got)
        ctx.equal(len(got), 40, "steps", "")
        what = f"{mode}, {sp}, {kw}"
        width = 1.0 if not box else float((sp.high - sp.low).max() + abs(sp.low).max())
        ctx.close(pol.map_action(raw), got, "stored-vs-delivered", what, rtol=1e-4, atol=1e-4 * width)
        if box and mode != "policy":
            ctx.check((got >= sp.low - 1e-4 * width).all() and (got <= sp.high + 1e-4 * width).all(), "outside-action-space", what)
        if box and mode == "policy" and kw["action_scaling"]:
            ctx.check((got >= sp.low - 1e-4 * width).all() and (got <= sp.high + 1e-4 * width).all(), "outside-action-space", what)
        ctx.note("collected", 40)
    ctx.sig(mode, str(sp), k, str(kw))


def s_random(ctx, rng):
    """Uniformly random policies: every action equally likely."""
    sp = gym.spaces.Discrete(int(rng.integers(1, 8))) if rng.random() < 0.5 else space_of(rng)
    pol = RandomActionPolicy(sp)
    if isinstance(sp, gym.spaces.Box):
        sp.seed(int(rng.integers(2**31)))
    N = 1500
    out = pol(Batch(obs=np.zeros((N, 2)), info=Batch()))
    env = pol.map_action(out.act)
    ctx.note("random_draws", N)
    what = f"random policy on {sp}"
    if isinstance(sp, gym.spaces.Discrete):
        n = np.bincount(env, minlength=sp.n)
        p = 1 / sp.n
        ctx.check(len(n) == sp.n and (abs(n - N * p) <= 6.5 * np.sqrt(N * p * (1 - p)) + 1e-9).all(), "random-frequencies", f"{what}: {n}")
    else:
        u = (env.astype(float) - sp.low) / (sp.high - sp.low)
        ctx.equal(u.shape, (N, *sp.shape), "random-shape", what)
        ctx.check(u.min() >= -1e-4 and u.max() <= 1 + 1e-4, "outside-action-space", what)
        ctx.check(abs(u.mean(0) - 0.5).max() < 6.5 / np.sqrt(12 * N), "random-mean", f"{what}: {u.mean(0)}")
        ctx.check(abs(u.var(0) - 1 / 12).max() < 0.02, "random-spread", f"{what}: {u.var(0)}")
    ctx.sig("random", str(sp))


SCENARIOS = [
    Scenario("map", s_map, 160, 3000),
    Scenario("policies", s_policies, 180, 1500),
    Scenario("single", s_single, 180, 2000),
    Scenario("shapes", s_shapes, 150, 2000),
    Scenario("state", s_state, 40, 400),
    Scenario("collect", s_collect, 60, 800),
    Scenario("random", s_random, 40, 500),
]
