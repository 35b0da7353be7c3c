"""The PettingZoo adapter presents each agent's turn, mask, flags and everybody's rewards faithfully."""
import copy

import numpy as np
from tianshou.env import DummyVectorEnv, PettingZooEnv, SubprocVectorEnv
from vlib.aec import Turns
from vlib.core import Scenario, diff

RULE = (
    "scripted turn-based multi-agent environments (any turn order, masks, per-step rewards, terminations, agents leaving) "
    "run through the adapter and the vector env; every observation, mask, flag and reward vector is compared with an "
    "identical environment driven through PettingZoo's own interface; distinct = (layout, script)"
)
MIN = {"steps": 3000, "masked": 1000, "departures": 100, "reward_vectors": 3000, "resets": 500, "venv_steps": 300, "held": 3000, "seeded": 60}


def expect(env, masked, kind):
    """What the adapter must present, from the environment itself."""
    o, _, te, tr, info = env.last()
    ob = {"agent_id": env.agent_selection, "obs": o["observation"] if masked else o}
    if masked:
        ob["mask"] = [bool(x) for x in o["action_mask"]]
    elif kind == "disc":
        ob["mask"] = [True] * 4
    return ob, [float(env.rewards.get(a, 0)) for a in env.possible_agents], te, tr, info


def s_adapter(ctx, rng):
    a = (int(rng.integers(2**31)), int(rng.integers(1, 5)), bool(rng.random() < 0.5), "disc" if rng.random() < 0.7 else "box", bool(rng.random() < 0.5))
    if a[3] == "box":
        a = (*a[:2], False, *a[3:])
    env, twin = PettingZooEnv(Turns(*a)), Turns(*a)
    twin.reset()
    ctx.equal([env.agents, env.agent_idx], [twin.possible_agents, {x: i for i, x in enumerate(twin.possible_agents)}], "agents", "")
    held = []
    n_steps = 0
    for _ in range(int(rng.integers(1, 5))):
        kw = [{}, {"seed": int(rng.integers(99))}, {"options": {"q": 1}}][int(rng.integers(3))]
        o, info = env.reset(**kw)
        twin.reset(**kw)
        w = expect(twin, a[2], a[3])
        ctx.equal(o, w[0], "reset-observation", "")
        ctx.equal(info, w[4], "reset-info", "")
        ctx.equal(env.env.seeds[-1], twin.seeds[-1], "reset-arguments", "")
        ctx.note("resets")
        if rng.random() < 0.2:  # environments that cannot be seeded directly are reset with the seed
            k = int(rng.integers(999))
            env.seed(k)
            twin.reset(seed=k)
            ctx.equal([x[0] for x in env.env.seeds], [x[0] for x in twin.seeds], "seed", "")
            ctx.note("seeded")
        ctx.equal(env.render(), twin.render(), "render", "")
        while twin.agents:
            act = twin.acts.sample()
            if twin.terminations[twin.agent_selection] or twin.truncations[twin.agent_selection]:
                act = None
                ctx.note("departures")
            if act is None and len(twin.agents) == 1:
                break  # nobody left to present
            got = env.step(act)
            twin.step(act)
            w = expect(twin, a[2], a[3])
            ctx.equal(got[0], w[0], "observation", f"after {n_steps} steps")
            ctx.equal([float(x) for x in got[1]], w[1], "rewards", f"agents {twin.possible_agents}, present {twin.agents}")
            ctx.equal([bool(got[2]), bool(got[3])], [w[2], w[3]], "flags", "")
            ctx.equal(got[4], w[4], "info", "")
            held.append((got[1], list(got[1]), got[0], copy.deepcopy(got[0])))
            n_steps += 1
            ctx.note("steps")
            ctx.note("reward_vectors")
            ctx.note("masked", a[2])
            if (got[2] or got[3]) and rng.random() < 0.5:
                break
    for r, was, o, ow in held:
        ctx.equal(list(r), was, "earlier-rewards-changed", "")
        ctx.check(diff(o, ow) is None, "earlier-observation-changed", "")
        ctx.note("held")
    ctx.equal(env.render(), twin.render(), "render", "")
    env.close()
    ctx.check(env.env.closed, "close", "")
    ctx.sig(*a, n_steps)


def s_venv(ctx, rng):
    """Through a vector environment: reward matrix and agents of every environment."""
    n = int(rng.integers(1, 4))
    args = [(int(rng.integers(2**31)), int(rng.integers(2, 4)), True, "disc", False)] * n
    m = args[0][1]
    cls = DummyVectorEnv if rng.random() < 0.8 else SubprocVectorEnv
    venv = cls([lambda x=x: PettingZooEnv(Turns(*x)) for x in args])
    twins = [Turns(*x) for x in args]
    try:
        for t in twins:
            t.reset()  # the adapter resets once on construction
        obs, _ = venv.reset()
        for t in twins:
            t.reset()
        for _ in range(8):
            for i, t in enumerate(twins):
                ctx.check(diff(obs[i], expect(t, True, "disc")[0]) is None, "observation", lambda: f"{obs[i]}")
            act = np.array([int(t.acts.sample()) for t in twins])
            obs, rew, te, tr, _ = venv.step(act)
            for t, x in zip(twins, act):
                t.step(int(x))
            ws = [expect(t, True, "disc") for t in twins]
            ctx.equal(np.asarray(rew, float), np.array([w[1] for w in ws]), "rewards", "")
            ctx.equal(rew.shape, (n, m), "rewards", "shape")
            ctx.equal([te.tolist(), tr.tolist()], [[w[2] for w in ws], [w[3] for w in ws]], "flags", "")
            ctx.note("venv_steps")
            if any(w[2] or w[3] for w in ws):
                ids = [i for i in range(n) if ws[i][2] or ws[i][3]]
                sub, _ = venv.reset(ids)
                for k, i in enumerate(ids):
                    twins[i].reset()
                    obs[i] = sub[k]
    finally:
        venv.close()
    ctx.sig(n, args[0][:2], cls.__name__)


SCENARIOS = [Scenario("adapter", s_adapter, 400, 6000), Scenario("venv", s_venv, 60, 500)]
