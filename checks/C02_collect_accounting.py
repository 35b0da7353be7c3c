"""Amounts collected and statistics reported by the collector, against the environments' own logs."""
import time
import warnings
from dataclasses import dataclass, field

import numpy as np
from tianshou.data import CollectStats, Collector
from checks.C01_exactly_once import Rig
from vlib import envs as E
from vlib.core import Scenario

RULE = (
    "random sequences of collects on vector envs with episodes of known plan; the requested amount, the episodes' "
    "returns and lengths, their summary statistics, action deviations and the collector's running totals are recomputed "
    "from the environments' logs; distinct = (envs, op sequence, episode plan)"
)
MIN = {"n_step": 300, "n_episode": 300, "episodes": 3000, "carried_over": 150, "fewer_than_envs": 60, "std_rows": 1500, "keep_resets": 15, "partial_resets": 6}


@dataclass(kw_only=True)
class MyStats(CollectStats):
    seen_steps: int = 0
    seen_eps: list = field(default_factory=list)

    def update_at_step_batch(self, step_batch, refresh_sequence_stats=False):
        super().update_at_step_batch(step_batch, refresh_sequence_stats)
        self.seen_steps += len(step_batch)

    def update_at_episode_done(self, episode_batch, episode_return, refresh_sequence_stats=False):
        super().update_at_episode_done(episode_batch, episode_return, refresh_sequence_stats)
        self.seen_eps.append((np.asarray(episode_batch.rew).copy(), float(episode_return)))


class Acc:
    """What each environment's current episode amounts to, as accumulated by the experience since the last clearing."""

    def __init__(self, n):
        self.ret, self.len, self.inbuf = [0.0] * n, [0] * n, [[] for _ in range(n)]

    def clear(self, i):
        self.ret[i], self.len[i] = 0.0, 0


def stat(x):
    x = np.asarray(x, float)
    return dict(mean=x.mean(), std=x.std(), max=x.max(), min=x.min())


def check_stats(ctx, rig, st, before, after, kw, acc, wall):
    n = rig.n
    logs = [E.steps_of(x) for x in rig.logs()]
    taken = [after[i] - before[i] for i in range(n)]
    total = sum(taken)
    order = sorted((k, i) for i in range(n) for k in range(taken[i]))
    eps = []
    for k, i in order:
        s = logs[i][before[i] + k]
        acc.ret[i] += s[3]
        acc.len[i] += 1
        acc.inbuf[i].append(s[3])
        if s[4] or s[5]:
            eps.append((acc.ret[i], acc.len[i], i, list(acc.inbuf[i])))
            if before[i] and logs[i][before[i] + k][1][2] >= k + 1:
                ctx.note("carried_over")
            acc.clear(i)
            acc.inbuf[i] = []
    what = f"{kw} on {n} envs"
    if "n_step" in kw:
        per = -(-kw["n_step"] // n)
        ctx.equal(taken, [per] * n, "n_step-amount", what)
        ctx.note("n_step")
    else:
        k = kw["n_episode"]
        ctx.equal(len(eps), k, "n_episode-amount", what)
        ids = [e[2] for e in eps]
        if k >= n:
            ctx.equal(sorted(set(ids)), list(range(n)), "env-without-episode", what)
        else:
            ctx.note("fewer_than_envs")
            ctx.check(len(set(ids)) == k, "unused-env", lambda: f"{what}: episodes from envs {ids}")
        open_ = [i for i in range(n) if taken[i] and not (logs[i][after[i] - 1][4] or logs[i][after[i] - 1][5])]
        ctx.equal(open_, [], "partial-episode-left", what)
        ctx.note("n_episode")
    ctx.equal(int(st.n_collected_steps), total, "steps-reported", what)
    ctx.equal(int(st.n_collected_episodes), len(eps), "episodes-reported", what)
    ctx.close(np.asarray(st.returns, float), np.array([e[0] for e in eps]), "returns", what, rtol=1e-9, atol=1e-9)
    ctx.equal(np.asarray(st.lens).astype(int), np.array([e[1] for e in eps], int), "lens", what)
    for name, vals in (("returns_stat", [e[0] for e in eps]), ("lens_stat", [e[1] for e in eps])):
        got = getattr(st, name)
        if not eps:
            ctx.check(got is None, "stat-of-nothing", name)
        else:
            for f, v in stat(vals).items():
                ctx.close(float(getattr(got, f)), float(v), "summary-stat", f"{name}.{f}", rtol=1e-6, atol=1e-9)
    ctx.check(0 <= st.collect_time <= wall + 1e-3, "collect-time", lambda: f"{st.collect_time} of {wall}")
    if st.collect_time > 0:
        ctx.close(float(st.collect_speed), total / st.collect_time, "collect-speed", what, rtol=1e-6)
    # deviations of the action distributions, one row per step in order
    if rig.dist and not kw.get("random"):
        rows = []
        for k, i in order:
            _, (ep, t, a), *_ = logs[i][before[i] + k]
            if rig.dist == "cat":
                p = np.ones(rig.pol.n_act)
                p[a % rig.pol.n_act] += 1 + t
                p /= p.sum()
                v = np.arange(rig.pol.n_act)
                rows.append([np.sqrt((p * (v - (p * v).sum()) ** 2).sum())])
            else:
                rows.append(E.dist_std(t, a, rig.pol.n_act))
        rows = np.array(rows)
        ctx.close(np.asarray(st.pred_dist_std_array, float), rows, "action-std", what, rtol=1e-4, atol=1e-4)
        ctx.equal(sorted(st.pred_dist_std_array_stat), list(range(rows.shape[1])), "action-std-stat", what)
        for d, sd in st.pred_dist_std_array_stat.items():
            for f, v in stat(rows[:, d]).items():
                ctx.close(float(getattr(sd, f)), float(v), "action-std-stat", f"{d}.{f}", rtol=1e-4, atol=1e-4)
        ctx.note("std_rows", len(rows))
    else:
        ctx.check(st.pred_dist_std_array is None and st.pred_dist_std_array_stat is None, "action-std-of-nothing", what)
    if isinstance(st, MyStats):
        ctx.equal(st.seen_steps, total, "custom-stats-steps", what)
        ctx.equal(len(st.seen_eps), len(eps), "custom-stats-episodes", what)
        for (rew, ret), e in zip(st.seen_eps, eps):
            ctx.close(ret, e[0], "custom-stats-return", what, rtol=1e-9, atol=1e-9)
            ctx.close(rew, np.array(e[3]), "custom-stats-episode", what, rtol=1e-9, atol=1e-9)
    ctx.note("episodes", len(eps))
    return total, len(eps)


def s_amounts(ctx, rng):
    ck = {"collect_stats_class": MyStats} if rng.random() < 0.4 else {}
    rig = Rig(ctx, rng, rew_dim=0, room=3, col_kw=ck)
    c = rig.col
    acc = Acc(rig.n)
    c.reset()
    steps = epis = 0
    spent = 0.0
    for _ in range(int(rng.integers(3, 9))):
        r = rng.random()
        if r < 0.12:
            keep = bool(rng.random() < 0.6)
            mid = rig.midway()
            c.reset_buffer(keep_statistics=keep)
            for i in range(rig.n):
                acc.inbuf[i] = []
                if not keep:
                    acc.clear(i)
            ctx.note("keep_resets" if keep else "partial_resets", bool(mid))
            rig.ops.append(("reset_buffer", keep))
            ctx.trace.append(rig.ops[-1])
            continue
        if r < 0.18:
            rs = bool(rng.random() < 0.5)
            c.reset(reset_stats=rs)
            acc = Acc(rig.n)
            if rs:
                steps = epis = 0
                spent = 0.0
            rig.ops.append(("reset", rs))
            continue
        if r < 0.22:
            c.reset_stat()
            steps = epis = 0
            spent = 0.0
            continue
        if r < 0.6:
            kw = {"n_step": int(rng.integers(1, 26))}
        else:
            kw = {"n_episode": int(rng.integers(1, 9))}
            if rig.midway():
                kw["n_episode"] = max(kw["n_episode"], rig.n)
        if rng.random() < 0.12 and rig.can_random():
            kw["random"] = True
        mode = rig.pol.training
        ncalls = len(rig.pol.calls)
        t0 = time.time()
        st, before, after = rig.collect(**kw)
        wall = time.time() - t0
        ctx.equal(rig.pol.training, mode, "train-mode-changed", str(kw))
        ctx.check(not any(x["training"] for x in rig.pol.calls[ncalls:]), "collects-in-train-mode", str(kw))
        ctx.equal(rig.faults(), [], "env-protocol", "environment saw")
        ds, de = check_stats(ctx, rig, st, before, after, kw, acc, wall)
        steps, epis = steps + ds, epis + de
        spent += st.collect_time
        ctx.close(float(c.collect_time), spent, "total-time", "", rtol=1e-6, atol=1e-9)
        ctx.equal(int(c.collect_step), steps, "total-steps", "")
        ctx.equal(int(c.collect_episode), epis, "total-episodes", "")
        if "n_episode" in kw:
            for lg in rig.logs():
                ctx.equal(lg[-1][0], "reset", "fresh-after-episodes", "last event of an environment after collecting episodes")
    ctx.sig(rig.n, tuple(str(o) for o in rig.ops), rig.seed)
    ctx.sample({"envs": rig.n, "ops": [str(o) for o in rig.ops], "steps": steps, "episodes": epis})


def s_mode_on_error(ctx, rng):
    """A failing environment leaves the policy in the mode it was in."""
    rig = Rig(ctx, rng, n=int(rng.integers(1, 4)), room=3)
    rig.col.reset()
    mode = rig.pol.training
    w = rig.col.env.workers[0].env
    k = int(rng.integers(0, 5))
    real = w.step
    cnt = [0]

    def bad(a):
        cnt[0] += 1
        if cnt[0] > k:
            raise RuntimeError("boom")
        return real(a)

    w.step = bad
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.raises(lambda: rig.col.collect(n_step=100), RuntimeError, "error-swallowed", "")
    ctx.equal(rig.pol.training, mode, "train-mode-changed", "after an environment error")
    ctx.sig(k, mode)


SCENARIOS = [Scenario("amounts", s_amounts, 300, 4500), Scenario("mode_on_error", s_mode_on_error, 20, 100)]


def s_splice(ctx, rng):
    """An environment is reset in the middle of a recorded episode: the next episode must stand on its own."""
    how = ["reset_env", "reset_before_collect", "fewer_episodes_than_envs"][ctx.case % 3]
    fixed = np.random.default_rng(7)
    rig = Rig(ctx, fixed, n=2, obs="vec", act="disc", info="plain", state=None, max_len=1, rew_dim=0, buf="vector", room=50, noise=False)
    for w in rig.col.env.workers:
        w.env.max_len = 1000  # long episodes, so that the reset is certainly midway
    c = rig.col
    c.reset()
    rig.mark_buffer_reset()
    rig.collect(n_step=2 * 3)
    for w in rig.col.env.workers:
        w.env.max_len = 6
    if how == "reset_env":
        c.reset_env()
        st, before, after = rig.collect(n_episode=2)
    elif how == "reset_before_collect":
        st, before, after = rig.collect(n_episode=2, reset_before_collect=True)
    else:
        for w in rig.col.env.workers:
            w.env.n = 4
        rig.collect(n_episode=1)
        st, before, after = rig.collect(n_episode=2)
    eps = []
    for i, lg in enumerate(rig.steps()):
        new = lg[before[i]:after[i]]
        eps += [len([s for s in new if s[1][0] == e]) for e in sorted({s[1][0] for s in new})]
    ctx.equal(sorted(int(x) for x in st.lens), sorted(eps), "spliced-episode", lambda: f"environments reset midway by {how}: lengths of the episodes completed afterwards")
    ctx.sig(how)


SCENARIOS.append(Scenario("splice", s_splice, 3, 3))
