"""Collection hooks see every step / finished episode exactly once and what they add lands on its own transitions."""
import warnings

import numpy as np
from checks.C01_exactly_once import Rig
from tianshou.data import Batch
from tianshou.data.collector import EpisodeRolloutHook, EpisodeRolloutHookMCReturn, EpisodeRolloutHookMerged, StepHook, StepHookAddActionDistribution
from vlib import envs as E
from vlib.core import Scenario

RULE = (
    "recording and data-adding hooks under random sequences of episode and step collects; calls, their order and their "
    "contents are compared with the environments' logs and additions are read back from the buffer per transition; "
    "distinct = (hooks, envs, buffer, op sequence)"
)
MIN = {"step_calls": 3000, "episode_calls": 1500, "additions": 2500, "mc_returns": 1500, "dists": 400, "merged": 25, "conflicts": 10, "modified_steps": 1500}


class Rec(EpisodeRolloutHook):
    def __init__(self, obs, key=None):
        self.obs, self.key, self.seen = obs, key, []

    def __call__(self, b):
        codes = E.codes_of_obs(self.obs, b.obs)
        self.seen.append((codes.copy(), np.asarray(b.rew).copy(), np.asarray(b.done).copy()))
        if self.key is None:
            return None
        return {self.key: codes[:, 2] * 1000.0 + codes[:, 1] + codes[:, 0] / 8}


class StepRec(StepHook):
    def __init__(self, obs, mode):
        self.obs, self.mode, self.rows, self.calls = obs, mode, [], 0

    def __call__(self, action_batch, rollout_batch):
        self.calls += 1
        codes = E.codes_of_obs(self.obs, rollout_batch.obs)
        assert len(action_batch.act) == len(codes)
        for k in range(len(codes)):
            self.rows.append((tuple(codes[k]), np.asarray(action_batch.act[k]).copy(), np.asarray(rollout_batch.act[k]).copy(), np.asarray(action_batch.act_normalized[k]).copy(), float(rollout_batch.rew[k])))
        if "add" in self.mode:
            rollout_batch.set_array_at_key(codes[:, 3] * 2.0 + 0.5, "extra")
        if "rew" in self.mode:
            rollout_batch.rew = rollout_batch.rew * 2.0


def episodes_since(logs, start):
    """Per env, finished episodes since `start`: list of step lists."""
    out = []
    for i, lg in enumerate(logs):
        cur = []
        for k, s in enumerate(lg):
            cur.append((i, k, s))
            if s[4] or s[5]:
                if k >= start[i]:
                    out.append(cur)
                cur = []
    return out


def s_hooks(ctx, rng):
    smode = ["none", "add", "rew", "add+rew"][int(rng.integers(4))]
    rig = Rig(ctx, rng, rew_dim=0, room=3, state=None)
    srec = StepRec(rig.obs, smode)
    kinds = ["rec", "key", "mc", "merged", "none"][int(rng.integers(5))]
    gamma = float(rng.choice([0.0, 0.5, 0.9, 1.0]))
    ra, rb = Rec(rig.obs), Rec(rig.obs, "code")
    mc = EpisodeRolloutHookMCReturn(gamma)
    hook = {"rec": ra, "key": rb, "mc": mc, "none": None,
            "merged": EpisodeRolloutHookMerged(ra, rb, mc, check_overlapping_keys=bool(rng.random() < 0.5))}[kinds]
    c = rig.col
    c.set_on_episode_done_hook(hook)
    c.set_on_step_hook(srec)
    ctx.check(c.get_on_episode_done_hook() is hook and c.get_on_step_hook() is srec, "hook-accessors", "")
    ctx.note("merged", kinds == "merged")
    c.reset()
    rig.mark_buffer_reset()
    adds = kinds in ("key", "mc", "merged")
    for _ in range(int(rng.integers(2, 6))):
        if rng.random() < 0.15:
            c.reset()
            rig.mark_buffer_reset()
            continue
        if not adds and rng.random() < 0.5:
            kw = {"n_step": int(rng.integers(1, 20))}
        else:
            k = int(rng.integers(1, 8))
            kw = {"n_episode": max(k, rig.n) if rig.midway() else k}
        if rng.random() < 0.3:
            kw["render"] = float(rng.choice([1e-12, 1e-4]))
        frames = np.array(rig.env.get_env_attr("frames"))
        n_rows, n_a, n_b, n_calls = len(srec.rows), len(ra.seen), len(rb.seen), srec.calls
        st, before, after = rig.collect(**kw)
        logs = rig.steps()
        # step hook: one call per vector step, each row one environment step, before it is stored
        rows = srec.rows[n_rows:]
        taken = [after[i] - before[i] for i in range(rig.n)]
        ctx.equal(srec.calls - n_calls, max(taken), "step-hook-calls", str(kw))
        shown = np.array(rig.env.get_env_attr("frames")) - frames
        ctx.equal(shown, np.full(rig.n, max(taken) if "render" in kw else 0), "rendered-frames", str(kw))
        ctx.note("rendered", "render" in kw)
        want = sorted((i, *logs[i][before[i] + k][1]) for i in range(rig.n) for k in range(taken[i]))
        ctx.equal(sorted(r[0] for r in rows), want, "step-hook-rows", str(kw))
        by = {(i, *s[1]): s for i in range(rig.n) for s in logs[i][before[i]:after[i]]}
        for code, a_act, r_act, a_norm, rew in rows:
            s = by[tuple(int(x) for x in code)]
            ctx.equal(a_act, r_act, "step-hook-action", "action batch vs rollout batch")
            ctx.close(a_norm.astype(float), s[2].astype(float), "step-hook-action", "normalised action vs environment", rtol=1e-6, atol=1e-6)
            ctx.equal(rew, s[3], "step-hook-reward", str(code))
        ctx.note("step_calls", srec.calls - n_calls)
        # episode hook: each finished episode once, complete and in order (as far as it is in the buffer)
        eps = episodes_since(logs, before)
        f = 2.0 if "rew" in smode else 1.0
        wanted = sorted(([(i, *s[1]) for i, k, s in ep if k >= rig.base[i]], [s[3] * f for i, k, s in ep if k >= rig.base[i]]) for ep in eps)
        for rec, n0, on in ((ra, n_a, kinds in ("rec", "merged")), (rb, n_b, kinds in ("key", "merged"))):
            if not on:
                continue
            got = sorted(([tuple(int(x) for x in r) for r in cds], [float(x) for x in rew]) for cds, rew, dn in rec.seen[n0:])
            ctx.equal(got, wanted, "episode-hook-calls", str(kw))
            for cds, rew, dn in rec.seen[n0:]:
                ctx.check(bool(dn[-1]) and not dn[:-1].any(), "episode-hook-extent", "")
            ctx.note("episode_calls", len(got))
        # what was added is found on its own transitions
        idx = np.asarray(rig.buf.sample_indices(0))
        b = rig.buf[idx]
        codes = E.codes_of_obs(rig.obs, b.obs)
        if "add" in smode:
            ctx.equal(np.asarray(b.extra, float), codes[:, 3] * 2.0 + 0.5, "step-addition", "field added by the step hook")
            ctx.note("additions", len(codes))
        rew_of = {(i, *s[1]): s[3] for i, lg in enumerate(logs) for s in lg}
        ctx.equal(np.asarray(b.rew, float), np.array([rew_of[tuple(x)] * f for x in codes.tolist()]), "step-modification", "rewards stored after the step hook")
        ctx.note("modified_steps", len(codes) if f == 2.0 else 0)
        if kinds in ("key", "merged"):
            ctx.equal(np.asarray(b["code"], float), codes[:, 2] * 1000.0 + codes[:, 1] + codes[:, 0] / 8, "episode-addition", "field added by the episode hook")
            ctx.note("additions", len(codes))
        if kinds in ("mc", "merged"):
            tab = {}
            for ep in episodes_since(logs, [0] * rig.n):
                rs = [s[3] * f for _, _, s in ep]
                g = [sum(gamma ** (j - t) * rs[j] for j in range(t, len(rs))) for t in range(len(rs))]
                for (i, k, s), v in zip(ep, g):
                    tab[(i, *s[1])] = (v, g[0])
            want = np.array([tab[tuple(x)] for x in codes.tolist()]).reshape(-1, 2)
            got = np.stack([np.asarray(b.mc_return_to_go, float), np.asarray(b.full_episode_mc_return, float)], 1)
            ctx.close(got, want, "mc-return", lambda: f"gamma={gamma}", rtol=1e-6, atol=1e-6)
            ctx.note("mc_returns", len(codes))
    ctx.sig(kinds, smode, rig.n, rig.bufkind, tuple(str(o) for o in rig.ops), rig.seed)
    ctx.sample({"hooks": [kinds, smode], "envs": rig.n, "ops": [str(o) for o in rig.ops]})


def s_conflict(ctx, rng):
    """Additions are refused where they would be wrong: overlapping keys, and step-wise collection."""
    b = Batch(obs=np.zeros((3, 4)), rew=np.arange(3.0), done=np.array([False, False, True]))
    one, two = (lambda x: {"a": np.zeros(3)}), (lambda x: {"b": np.ones(3), **({"a": np.ones(3)} if over else {})})
    over = bool(rng.random() < 0.5)
    m = EpisodeRolloutHookMerged(one, lambda x: None, two)
    if over:
        ctx.raises(lambda: m(b), KeyError, "overlap-accepted", "")
        r = EpisodeRolloutHookMerged(one, two, check_overlapping_keys=False)(b)
        ctx.equal(np.asarray(r["a"]), np.ones(3), "overlap-later-wins", "")
    else:
        ctx.equal(sorted(m(b)), ["a", "b"], "merged-keys", "")
    ctx.check(EpisodeRolloutHookMerged(lambda x: None, lambda x: None)(b) is None, "merged-none", "")
    rig = Rig(ctx, rng, rew_dim=0, room=3, max_len=3)
    rig.col.set_on_episode_done_hook(Rec(rig.obs, "code"))
    rig.col.reset()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.raises(lambda: rig.col.collect(n_step=5 * rig.n), ValueError, "addition-in-step-collect", "")
    ctx.note("conflicts")
    ctx.sig(over, rig.n, rig.obs)


def s_dist(ctx, rng):
    """The distribution-recording hook gives each stored step the distribution its own action came from."""
    act, dist = [("disc", "cat"), ("box", "normal")][int(rng.integers(2))]
    rig = Rig(ctx, rng, act=act, dist=dist, rew_dim=0, room=3, state=None)
    hook = StepHookAddActionDistribution()
    want = {}

    def spy(ab, rb):
        hook(ab, rb)
        codes = E.codes_of_obs(rig.obs, rb.obs)
        a, b = (ab.dist.probs, None) if dist == "cat" else (ab.dist.base_dist if hasattr(ab.dist, "base_dist") else ab.dist, 1)
        for k, c in enumerate(codes):
            want[tuple(int(x) for x in c)] = a[k].numpy().copy() if b is None else np.stack([a.loc[k].numpy(), a.scale[k].numpy()])

    rig.col.set_on_step_hook(spy)
    rig.col.reset()
    rig.mark_buffer_reset()
    for _ in range(int(rng.integers(1, 4))):
        kw = {"n_step": int(rng.integers(1, 12))} if rng.random() < 0.5 else {"n_episode": rig.n + int(rng.integers(0, 3))}
        rig.collect(**kw)
    b = rig.buf[np.asarray(rig.buf.sample_indices(0))]
    codes = E.codes_of_obs(rig.obs, b.obs)
    key = StepHookAddActionDistribution.ACTION_DIST_KEY
    ctx.check(key in b.get_keys(), "dist-missing", f"{type(rig.buf).__name__} holds no {key}")
    for k, c in enumerate(codes):
        d = b[key][k]
        d = getattr(d, "base_dist", d)
        got = d.probs.numpy() if dist == "cat" else np.stack([d.loc.numpy(), d.scale.numpy()])
        w = want[tuple(int(x) for x in c)]
        ctx.check(got.size == w.size and np.allclose(got.reshape(w.shape), w), "dist-of-other-step", lambda: f"{got} vs {w}")
        ctx.note("dists")
    ctx.sig(rig.n, rig.bufkind, rig.obs, act, tuple(str(o) for o in rig.ops))


SCENARIOS = [Scenario("dist", s_dist, 60, 500), Scenario("hooks", s_hooks, 220, 3500), Scenario("conflict", s_conflict, 24, 120)]
