"""Model-based parts: posterior sampling (PSRL) and intrinsic curiosity (ICM)."""
from copy import deepcopy

import gymnasium as gym
import numpy as np
import torch
from tianshou.data import Batch
from tianshou.policy import PSRLPolicy
from tianshou.policy.base import policy_within_training_step
from tianshou.policy.modelbased.psrl import PSRLModel
from torch.nn import functional as F
from vlib import zoo
from vlib.core import Scenario
from vlib.pol import Rig

RULE = (
    "random tabular experience fed to PSRL policies in arbitrary batches (priors, terminal self-loops, discounts), the posterior, every "
    "sampled model, the values and greedy actions compared with direct computations; curiosity updates on random experience compared with "
    "the documented losses and with the inner policy updated alone on the augmented rewards; distinct = (sizes, priors, experience)"
)
MIN = {
    "observations": 1500, "posteriors": 300, "unobserved_pairs": 300, "nonzero_priors": 40, "solved": 200, "greedy_states": 800, "sampled_models": 100,
    "icm_updates": 60, "icm_rewards": 300, "loops": 100,
}


def priors(rng, ns, na):
    tc = rng.choice([0.1, 0.5, 1.0, 3.0], size=(ns, na, ns)) if rng.random() < 0.5 else np.ones((ns, na, ns))
    rm = np.zeros((ns, na)) if rng.random() < 0.4 else rng.normal(size=(ns, na)) * float(rng.choice([1.0, 10.0]))
    rs = np.full((ns, na), float(rng.choice([0.5, 1.0, 3.0])))
    return tc, rm, rs


def draw(rng, ns, na, n):
    z = Batch(
        obs=rng.integers(0, ns, n), act=rng.integers(0, na, n), obs_next=rng.integers(0, ns, n), rew=rng.normal(size=n) * float(rng.choice([0.0, 1.0, 5.0])) + float(rng.choice([0.0, 3.0])),
        info=Batch(), policy=Batch(),
    )
    z.terminated = rng.random(n) < 0.2
    z.truncated = rng.random(n) < 0.1
    z.done = z.terminated | z.truncated
    return z


def s_posterior(ctx, rng):
    ns, na = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    tc, rm, rs = priors(rng, ns, na)
    keep = deepcopy((tc, rm, rs))
    eps = float(rng.choice([0.01, 1e-4]))
    loop = bool(rng.random() < 0.4)
    if rng.random() < 0.2:
        tc, keep = tc.astype(int) + 1, (tc.astype(int) + 1, *keep[1:])
    gamma = float(rng.choice([0.0, 0.5, 0.9]))
    pol = PSRLPolicy(trans_count_prior=tc, rew_mean_prior=rm, rew_std_prior=rs, action_space=gym.spaces.Discrete(na), discount_factor=gamma, epsilon=eps, add_done_loop=loop)
    ctx.note("nonzero_priors", bool((rm != 0).any()))
    data = []
    hot = rng.integers(0, 2) == 0
    for _ in range(int(rng.integers(1, 5))):
        z = draw(rng, ns, na, int(rng.integers(1, 12)))
        if hot:
            z.obs[:] = 0
        data.append(z)
        kz = deepcopy(z)
        st = pol.learn(z)
        ctx.equal(z, kz, "experience-modified", "")
        ctx.note("observations", len(z))
        allz = Batch.cat(data)
        m = pol.model
        cnt = np.zeros((ns, na, ns))
        vals = [[[] for _ in range(na)] for _ in range(ns)]
        for i in range(len(allz)):
            s, a, t = int(allz.obs[i]), int(allz.act[i]), int(allz.obs_next[i])
            cnt[s, a, t] += 1
            vals[s][a].append(float(allz.rew[i]))
            if loop and allz.done[i]:
                cnt[t, :, t] += 1
                for b in range(na):
                    vals[t][b].append(0.0)
                ctx.note("loops")
        what = f"{ns} states, {na} actions, eps {eps}, loop {loop}"
        ctx.close(np.asarray(m.trans_count, float), keep[0] + cnt, "transition-counts", what, rtol=1e-9)
        got_m, got_s = np.asarray(m.rew_mean), np.asarray(m.rew_std)
        ctx.check(np.isfinite(got_s).all() and (got_s > 0).all(), "reward-deviation", lambda: f"{what}: deviations {got_s.tolist()}, prior means {keep[1].tolist()}")
        for s in range(ns):
            for a in range(na):
                v = vals[s][a]
                w = (keep[1][s, a] * eps + sum(v)) / (eps + len(v))
                ctx.close(got_m[s, a], w, "reward-mean", f"{what}: state {s} action {a} rewards {v}, prior {keep[1][s, a]}", rtol=1e-6, atol=1e-9)
                ctx.check(got_s[s, a] <= keep[2][s, a] * (1 + 1e-9), "reward-deviation", lambda s=s, a=a, v=v: f"{what}: {got_s[s, a]} above the prior {keep[2][s, a]}; rewards {v}")
                if not v:
                    ctx.close(got_s[s, a], keep[2][s, a], "prior-lost", f"{what}: deviation of an unobserved pair", rtol=1e-6)
                    ctx.note("unobserved_pairs")
                elif len(v) >= 2 and np.var(v) > 1e-3:
                    # precision of the mean of n observations plus that of the prior, the prior weighing about eps observations
                    n = len(v)
                    mu = w
                    lo = (sum(x * x for x in v)) / (n + eps) - mu**2
                    hi = (sum(x * x for x in v) + eps * keep[1][s, a] ** 2) / (n + eps) - mu**2
                    c = [np.sqrt(1 / (k / max(r, 1e-12) + 1 / keep[2][s, a] ** 2)) for k in (n, n + eps) for r in (lo, hi) if r > 0]
                    if len(c) == 4:
                        ctx.check(min(c) * (1 - 1e-3) - 1e-5 <= got_s[s, a] <= max(c) * (1 + 1e-3) + 1e-5, "reward-deviation", f"{what}: {got_s[s, a]} not within {min(c)}..{max(c)} for rewards {v}")
        ctx.equal((tc, rm, rs), keep, "priors-modified", what)
        ctx.close(st.psrl_rew_mean, got_m.mean(), "statistics", what)
        ctx.close(st.psrl_rew_std, got_s.mean(), "statistics", what)
        ctx.note("posteriors")
    # the same experience in other batches gives the same posterior
    twin = PSRLPolicy(trans_count_prior=keep[0].copy(), rew_mean_prior=keep[1].copy(), rew_std_prior=keep[2].copy(), action_space=gym.spaces.Discrete(na), discount_factor=gamma, epsilon=eps, add_done_loop=loop)
    twin.learn(allz)
    for k in ("trans_count", "rew_mean", "rew_std"):
        ctx.close(np.asarray(getattr(twin.model, k), float), np.asarray(getattr(pol.model, k), float), "batching-matters", f"{what}: {k}", rtol=1e-5, atol=1e-6)
    ctx.sig(ns, na, eps, loop, gamma, allz.obs, allz.act)


def s_solve(ctx, rng):
    """Every sampled model is solved to the configured precision; actions are greedy in it and stable until new data arrive."""
    ns, na = int(rng.integers(1, 7)), int(rng.integers(1, 5))
    tc, rm, rs = priors(rng, ns, na)
    eps = float(rng.choice([0.01, 1e-3]))
    gamma = float(rng.choice([0.0, 0.5, 0.9, 0.97]))
    pol = PSRLPolicy(trans_count_prior=tc.copy(), rew_mean_prior=rm, rew_std_prior=rs, action_space=gym.spaces.Discrete(na), discount_factor=gamma, epsilon=eps)
    seen = []
    m = pol.model
    ot, orr = m.sample_trans_prob, m.sample_reward
    m.sample_trans_prob = lambda: (seen.append(["t", ot()]), seen[-1][1])[1]
    m.sample_reward = lambda: (seen.append(["r", orr()]), seen[-1][1])[1]
    for _ in range(int(rng.integers(1, 5))):
        seen.clear()
        obs = rng.integers(0, ns, int(rng.integers(1, 9)))
        acts = [np.asarray(pol(Batch(obs=obs, info=Batch())).act) for _ in range(3)]
        allact = np.asarray(pol(Batch(obs=np.arange(ns), info=Batch())).act)
        what = f"{ns} states, {na} actions, gamma {gamma}, eps {eps}"
        ctx.equal(sorted(k for k, _ in seen), ["r", "t"], "model-sampled-again", what)
        for a in acts:
            ctx.equal(a, allact[obs], "actions-not-stable", what)
        T, R = dict(seen)["t"], dict(seen)["r"]
        ctx.close(T.sum(-1), np.ones((ns, na)), "transition-probabilities", what, rtol=1e-5)
        ctx.check((T >= 0).all() and T.shape == (ns, na, ns) and R.shape == (ns, na), "transition-probabilities", what)
        V = np.zeros(ns)
        for _ in range(3000):
            V, old = (R + gamma * T.dot(V)).max(1), V
            if abs(V - old).max() < 1e-10:
                break
        tol = 2 * eps * abs(V).max() / (1 - gamma) + 1e-6
        ctx.check(abs(np.asarray(m.value) - V).max() <= tol, "value-iteration", f"{what}: {m.value} optimal {V}")
        Q = R + gamma * T.dot(V)
        for s in range(ns):
            ctx.check(Q[s, allact[s]] >= Q[s].max() - 2 * gamma * tol - 14 * eps, "not-greedy", f"{what}: state {s}: {Q[s]} chose {allact[s]}")
            ctx.note("greedy_states")
        ctx.note("solved")
        z = draw(rng, ns, na, 3)
        pol.learn(z)
        ctx.sig(ns, na, gamma, eps, obs)
    seen.clear()
    pol(Batch(obs=obs, info=Batch()))
    ctx.check(len(seen) == 2, "not-resampled-after-learning", "")


def s_sampling(ctx, rng):
    """Sampled models follow the posterior."""
    ns, na = int(rng.integers(2, 4)), int(rng.integers(1, 3))
    tc, rm, rs = priors(rng, ns, na)
    m = PSRLModel(tc.copy(), rm.copy(), rs.copy(), 0.9, 0.01)
    N = 400
    R = np.stack([m.sample_reward() for _ in range(N)])
    z = (R - rm) / rs
    ctx.check(abs(z.mean(0)).max() < 6.5 / np.sqrt(N) and abs(z.var(0) - 1).max() < 6.5 * np.sqrt(2 / N) + 0.05, "reward-samples", f"{z.mean(0)} {z.var(0)}")
    T = np.stack([m.sample_trans_prob() for _ in range(N)])
    a0 = tc.sum(-1, keepdims=True)
    mean = tc / a0
    var = mean * (1 - mean) / (a0 + 1)
    ctx.check((abs(T.mean(0) - mean) <= 6.5 * np.sqrt(var / N) + 1e-6).all(), "transition-samples", f"{T.mean(0)} expected {mean}")
    ctx.check((abs(T.var(0) - var) <= 0.35 * var + 0.01).all(), "transition-samples", f"variance {T.var(0)} expected {var}")
    ctx.note("sampled_models", N)
    ctx.sig(ns, na, tc, rm)


def s_curiosity(ctx, rng):
    name = "icm_ppo" if ctx.case % 2 else "icm_dqn"
    it = zoo.build(name, rng, drop=0.0)
    pol = it.policy
    pol.lr_scale, pol.reward_scale, pol.forward_loss_weight = float(rng.choice([0.5, 1.0, 2.0])), float(rng.choice([0.0, 0.01, 1.0])), float(rng.choice([0.0, 0.2, 0.7, 1.0]))
    while True:  # normalising advantages needs two rows
        rig = Rig(ctx, rng, it.spec, pol, [], kinds=it.kinds)
        rig.grow(2, 9)
        if len(rig.d.model) >= 2:
            break
    buf = rig.d.buf
    for u in range(int(rng.integers(1, 4))):
        rig.grow(0, 4)
        icm = deepcopy(pol.model)
        inner = deepcopy(pol.policy)
        stored = deepcopy(np.asarray(buf.rew))
        seen = {}
        op, ol = pol.policy.process_fn, pol.policy.learn

        def process_fn(*a, **k):
            seen.update(rew=np.array([*a, *k.values()][0].rew, copy=True), flag=pol.policy.is_within_training_step)
            return op(*a, **k)

        pol.policy.process_fn = process_fn

        def learn(batch, *a, **k):
            b = batch
            seen.update(batch=Batch(returns=b.returns.detach().clone(), adv=b.adv.detach().clone()) if name == "icm_ppo" else None)
            return ol(b, *a, **k)

        pol.policy.learn = learn
        size = 0 if name == "icm_ppo" else int(rng.integers(2, 8))
        rig.sampled.clear() if hasattr(rig, "sampled") else None
        st, idx, w = rig.update(size, **it.kw)
        del pol.policy.process_fn, pol.policy.learn
        what = f"{name}, lr scale {pol.lr_scale}, reward scale {pol.reward_scale}, forward weight {pol.forward_loss_weight}, update {u}"
        ctx.equal(np.asarray(buf.rew), stored, "stored-rewards-changed", what)
        b = buf[idx]
        as_f = lambda x: torch.as_tensor(np.asarray(x), dtype=torch.float32)  # noqa: E731
        p1, p2 = icm.feature_net(as_f(b.obs)), icm.feature_net(as_f(b.obs_next))
        oh = F.one_hot(torch.as_tensor(b.act).long(), icm.action_dim).float()
        hat = icm.forward_model(torch.cat([p1, oh], 1))
        mse = 0.5 * ((hat - p2) ** 2).sum(1)
        lg = icm.inverse_model(torch.cat([p1, p2], 1))
        inv = -torch.log_softmax(lg, -1)[torch.arange(len(idx)), torch.as_tensor(b.act).long()].mean()
        fwd = mse.mean()
        loss = ((1 - pol.forward_loss_weight) * inv + pol.forward_loss_weight * fwd) * pol.lr_scale
        ctx.close(seen["rew"], stored[idx] + pol.reward_scale * mse.detach().numpy(), "intrinsic-reward", what, rtol=1e-4, atol=1e-5)
        ctx.check(seen["flag"], "training-step-flag", what)
        ctx.note("icm_rewards", len(idx))
        for k, v in (("icm_loss", loss), ("icm_forward_loss", fwd), ("icm_inverse_loss", inv)):
            ctx.close(getattr(st, k), float(v), "statistics", f"{what}: {k}", rtol=1e-3, atol=1e-5)
        ctx.check("icm_loss" in st.get_loss_stats_dict() and len(st.get_loss_stats_dict()) > 3, "statistics", f"{what}: {sorted(st.get_loss_stats_dict())}")
        opt = type(it.optims[-1])(icm.parameters(), **{k: v for k, v in it.optims[-1].defaults.items() if k in ("lr", "momentum")})
        opt.zero_grad()
        loss.backward()
        opt.step()
        for (k, v), (_, wv) in zip(pol.model.state_dict().items(), icm.state_dict().items()):
            ctx.close(v, wv, "curiosity-update", f"{what}: {k}", rtol=1e-3, atol=2e-5)
        # the inner policy learns as it would alone from the augmented rewards
        if name == "icm_ppo":
            nb = b
            nb.rew = seen["rew"].copy()
            with policy_within_training_step(inner):
                inner.train(False)
                inner.process_fn(nb, buf, idx)
                ctx.close(seen["batch"].returns, nb.returns, "returns-without-intrinsic-reward", what, rtol=1e-3, atol=1e-4)
                ctx.close(seen["batch"].adv, nb.adv, "returns-without-intrinsic-reward", what, rtol=1e-2, atol=1e-3)
        ctx.note("icm_updates")
        ctx.sig(name, idx.tolist(), pol.reward_scale, pol.forward_loss_weight)


def s_offpolicy_reward(ctx, rng):
    """Does an off-policy inner policy learn from the intrinsic reward at all? (one fixed update)"""
    it = zoo.build("icm_dqn", np.random.default_rng(5), drop=0.0)
    pol = it.policy
    pol.reward_scale = 1.0
    r = np.random.default_rng(6)
    while True:
        rig = Rig(ctx, r, it.spec, pol, [], kinds=("single",))
        rig.grow(4, 9)
        if len(rig.d.model) >= 4:
            break
    buf = rig.d.buf
    b, idx = buf[np.arange(4)], np.arange(4)
    with policy_within_training_step(pol):
        out = pol.process_fn(b, buf, idx)
        with_r = out.returns.detach().numpy().ravel()
        pol.reward_scale = 0.0
        without = pol.process_fn(buf[idx], buf, idx).returns.detach().numpy().ravel()
    ctx.check(abs(with_r - without).max() > 1e-6, "intrinsic-reward-ignored", "DQN targets within ICMPolicy are the same with reward_scale 1 and 0")
    ctx.note("offpolicy_probe")


SCENARIOS = [
    Scenario("posterior", s_posterior, 150, 2500),
    Scenario("solve", s_solve, 100, 1500, timeout=60),
    Scenario("sampling", s_sampling, 10, 150),
    Scenario("curiosity", s_curiosity, 60, 900),
    Scenario("offpolicy_reward", s_offpolicy_reward, 1, 1),
]
