"""Every environment step taken by the collector is recorded exactly once, complete and in order."""
import warnings

import numpy as np
import torch
from tianshou.data import AsyncCollector, Batch, CachedReplayBuffer, Collector, PrioritizedVectorReplayBuffer, ReplayBuffer, ReplayBufferManager, VectorReplayBuffer
from tianshou.data.buffer.base import MalformedBufferError
from tianshou.env import DummyVectorEnv, ShmemVectorEnv, SubprocVectorEnv
from vlib import envs as E
from vlib.bufmodel import batch_tree, prune
from vlib.core import Scenario

RULE = (
    "random sequences of collect(n_step/n_episode/random), resets and buffer resets on random vector envs, buffers and "
    "policies; the environments' own event logs are the oracle: every step must be stored exactly once with its own "
    "observation, action, reward, flags, info, policy output; distinct = (env kind, buffer, policy kind, op sequence)"
)
MIN = {"steps": 8000, "episodes": 1500, "collects": 1000, "random_collects": 60, "subproc_steps": 300, "wraps": 100, "single_env": 20, "policy_infos": 3000, "nan_runs": 30, "reset_args": 300}


class Rig:
    def __init__(self, ctx, rng, backend="dummy", **kw):
        self.ctx, self.rng = ctx, rng
        pick = lambda xs: xs[int(rng.integers(len(xs)))]
        self.n = kw.get("n", int(rng.integers(1, 6)))
        self.obs = kw.get("obs", pick(["vec", "vec", "int", "img", "dict", "discrete", "multibin"]))
        self.act = kw.get("act", pick(["disc", "disc", "box", "multi"]))
        self.info = kw.get("info", pick(["plain", "nested", "none", "stepwise"]))
        self.state = kw.get("state", pick([None, None, "array", "batch", "tensor", "dict"]))
        self.max_len = kw.get("max_len", int(rng.integers(1, 9)))
        self.rew_dim = kw.get("rew_dim", 0 if rng.random() < 0.85 else 2)
        seed = int(rng.integers(2**31))
        self.seed = seed
        delay = kw.get("delay", 0.0)
        p_trunc = float(pick([0.0, 0.4, 1.0]))
        n_act = int(rng.integers(2, 7))
        a = (seed, self.obs, self.act, self.max_len, p_trunc, self.info, self.rew_dim, delay)
        dim = int(rng.integers(1, 5))
        lim = dict(low=[-1.0, -2.0, 0.0, -3.0][:dim], high=[1.0, 3.0, 4.0, -1.0][:dim])
        fns = [lambda i=i: E.TagEnv(i, *a, n_act=n_act, **lim) for i in range(self.n)]
        self.backend = backend
        self.raw = None
        if backend == "single":
            assert self.n == 1
            self.raw = fns[0]()
            self.env = self.raw
        else:
            self.env = kw["mkenv"](fns) if "mkenv" in kw else {"dummy": DummyVectorEnv, "subproc": SubprocVectorEnv, "shmem": ShmemVectorEnv}[backend](fns)
        space = (self.raw or fns[0]()).action_space
        noise = kw.get("noise", bool(rng.random() < 0.3)) and self.act != "multi"
        bound = pick(["clip", "tanh", None]) if self.act == "box" else "clip"
        scaling = self.act == "box" and bound is not None and rng.random() < 0.6
        self.bound, self.scaling, self.noise, self.space = bound, scaling, noise, space
        dist = kw.get("dist", {"disc": pick([None, "cat"]), "box": pick([None, "normal"]), "multi": None}[self.act])
        self.dist = dist
        self.extra = kw.get("extra", bool(rng.random() < 0.5))
        self.pol = E.StubPolicy(space, self.act, self.obs, state=self.state, dist=dist, extra=self.extra, torch_act=bool(rng.random() < 0.5),
                                noise=noise, action_scaling=bool(scaling), action_bound_method=bound)
        self.pol.train(bool(rng.random() < 0.5))
        self.caps = None
        self.bufkind = kw.get("buf") or pick(["vector", "vector", "manager", "priovec", "default"] + (["plain", "plain"] if self.n == 1 else []))
        lo = (self.max_len + 1) * kw.get("room", 1)  # documented: an episode must not fill its sub-buffer
        c = int(rng.integers(lo, lo + 25))
        ign = bool(rng.random() < 0.2)
        if self.bufkind == "plain":
            self.buf, self.caps = ReplayBuffer(c, ignore_obs_next=ign), [c]
        elif self.bufkind == "vector":
            m = self.n + int(rng.integers(0, 2))
            self.buf, self.caps = VectorReplayBuffer(c * m, m, ignore_obs_next=ign), [c] * m
        elif self.bufkind == "priovec":
            self.buf, self.caps = PrioritizedVectorReplayBuffer(c * self.n, self.n, alpha=0.5, beta=0.5, ignore_obs_next=ign), [c] * self.n
        elif self.bufkind == "manager":
            self.caps = [int(x) for x in rng.integers(lo, lo + 25, size=self.n)]
            self.buf = ReplayBufferManager([ReplayBuffer(x, ignore_obs_next=ign) for x in self.caps])
        elif self.bufkind == "default":
            self.buf, ign = None, False
        self.ign = ign
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.col = kw.get("collector_cls", Collector)(self.pol, self.env, self.buf, exploration_noise=noise, **kw.get("col_kw", {}))
        self.buf = self.col.buffer
        self.caps = self.caps or [10000] * self.n
        self.base = [0] * self.n  # log position at the last buffer reset
        self.rand: list[list[bool]] = [[] for _ in range(self.n)]
        self.ops: list = []
        self.seen_calls = 0
        ctx.trace.append(("rig", backend, self.n, self.obs, self.act, self.info, self.state, self.bufkind, self.caps[:3], dist, noise, bound, bool(scaling)))

    def logs(self):
        if self.backend in ("dummy", "single"):
            return [w.env.log for w in self.col.env.workers] if self.backend == "dummy" else [self.raw.log]
        if self.backend == "script":
            return [w.env.log for w in self.col.env.workers]
        return [list(x) for x in self.col.env.get_env_attr("log")]

    def faults(self):
        if self.backend == "script":
            return [f for w in self.col.env.workers for f in w.env.faults]
        ws = [self.raw.faults] if self.raw is not None else self.col.env.get_env_attr("faults")
        return [f for w in ws for f in w]

    def inflight(self):
        """Environments whose last step has not been handed to the collector yet."""
        return [int(i) for i in self.col.env.waiting_id] if self.raw is None and self.col.env.is_async else []

    def steps(self):
        """Per environment: the steps the collector has received."""
        fl = set(self.inflight())
        return [E.steps_of(x)[: -1 if i in fl else None] for i, x in enumerate(self.logs())]

    def midway(self):
        """Environments inside an episode of which something has been recorded."""
        return [i for i, lg in enumerate(self.logs()) if lg and lg[-1][0] == "step" and not (lg[-1][4] or lg[-1][5])]

    def can_random(self):
        return self.act != "box" or self.scaling or self.bound != "tanh"

    def mark_buffer_reset(self):
        self.base = [len(x) for x in self.steps()]

    def collect(self, **kw):
        before = [len(x) for x in self.steps()]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            st = self.col.collect(**kw)
        self.ops.append(("collect", sorted(kw.items())))
        self.ctx.trace.append(self.ops[-1])
        after = [len(x) for x in self.steps()]
        for i in range(self.n):
            self.rand[i] += [bool(kw.get("random"))] * (after[i] - before[i])
        self.ctx.note("collects")
        self.ctx.note("random_collects", bool(kw.get("random")))
        self.ctx.note("steps", sum(after) - sum(before))
        if self.backend in ("subproc", "shmem"):
            self.ctx.note("subproc_steps", sum(after) - sum(before))
        return st, before, after

    # -- oracle -------------------------------------------------------------
    def expect(self, i, steps, hids, rand):
        """Stored record for one logged step of env i."""
        _, (ep, t, acc), act, r, term, trunc, (ep2, t2, acc2) = steps
        rec = {
            "rew": np.float64(r) if not self.rew_dim else np.array([r * (k + 1) for k in range(self.rew_dim)]),
            "terminated": np.bool_(term), "truncated": np.bool_(trunc), "done": np.bool_(term or trunc),
            "obs": E.tag_obs(self.obs, i, ep, t, acc), "obs_next": E.tag_obs(self.obs, i, ep2, t2, acc2),
            "info": {**E.info_of(self.info, i, ep2, t2, acc2), "env_id": i},
        }
        return rec

    def verify_info(self):
        """The info handed to the policy belongs to the observation it is handed with."""
        calls = self.pol.calls[self.seen_calls:]
        self.seen_calls = len(self.pol.calls)
        for c in calls:
            e, ep, t, acc = c["codes"].T
            info, what = c["info"], "info given to the policy"
            if self.info == "none" or info is None:
                continue
            has = np.ones(len(e), bool) if self.info != "stepwise" else t > 0
            if not has.any():
                continue
            for k, want in (("e", e), ("k", ep * 1000 + t)) + ((("n/acc", acc),) if self.info == "nested" else ()):
                self.ctx.check(k in info, "policy-info", lambda: f"{what} lacks {k}")
                self.ctx.equal(np.asarray(info[k], float)[has], want[has].astype(float), "policy-info", what)
                self.ctx.check(not np.asarray(info[k], float)[~has].any(), "policy-info", lambda: f"{what}: values of another environment where there are none ({k})")
            self.ctx.note("policy_infos", int(has.sum()))

    def mapped(self, raw):
        """What the environment must receive for a stored raw action."""
        if self.act != "box":
            return raw
        a = np.asarray(raw, np.float64)
        if self.bound == "clip":
            a = np.clip(a, -1, 1)
        elif self.bound == "tanh":
            a = np.tanh(a)
        if self.scaling:
            lo, hi = self.space.low.astype(np.float64), self.space.high.astype(np.float64)
            a = lo + (hi - lo) * (a + 1) / 2
        return a

    def verify(self):
        ctx = self.ctx
        ctx.equal(self.faults(), [], "env-protocol", "environment saw")
        self.verify_info()
        logs = self.steps()
        offs = np.concatenate([[0], np.cumsum(self.caps)])
        got_idx = [int(x) for x in np.asarray(self.buf.sample_indices(0))]
        want_idx, picks = [], []
        for i in range(self.n):
            steps = logs[i]
            fresh = len(steps) - self.base[i]
            k = min(fresh, self.caps[i])
            ctx.note("wraps", fresh > self.caps[i])
            if fresh:
                first = len(steps) - k
                for j in range(first, len(steps)):
                    want_idx.append(int(offs[i] + (j - self.base[i]) % self.caps[i]))
                    picks.append((i, j))
        ctx.equal(len(self.buf), len(picks), "stored-count", "number of stored transitions vs. environment steps")
        ctx.equal(got_idx, want_idx, "stored-slots", "indices of the stored transitions, per environment in order")
        if not picks:
            return
        # hidden state bookkeeping: position within the episode as seen by the policy
        b = self.buf[np.array(want_idx)]
        tree = batch_tree(b)
        cols = []
        for i, j in picks:
            cols.append(self.expect(i, logs[i][j], None, self.rand[i][j]))
        for k in ("rew", "terminated", "truncated", "done"):
            ctx.equal(tree[k], np.stack([c[k] for c in cols]), "stored-" + k, k)
        ks = ["obs"] + ([] if self.ign else ["obs_next"])
        for k in ks:
            want = stack_tree([c[k] for c in cols])
            ctx.equal(tree[k], want, "stored-" + k, k)
        ctx.equal(prune(tree["info"]), stack_tree([c["info"] for c in cols]), "stored-info", "info")
        ctx.note("env_id_checked", len(cols))
        # actions
        raw = tree["act"]
        got_env = np.stack([np.asarray(logs[i][j][2]) for i, j in picks])
        codes = E.codes_of_obs(self.obs, b.obs)
        for r in range(len(picks)):
            i, j = picks[r]
            if self.rand[i][j] is None:
                if self.act != "box":
                    ctx.equal(raw[r], got_env[r], "action-delivered", "policy or random")
                continue
            if self.rand[i][j]:
                ctx.check(self.space.contains(np.asarray(got_env[r]).astype(self.space.dtype)), "random-action", lambda: f"{got_env[r]} not in {self.space}")
                if self.act != "box":
                    ctx.equal(raw[r], got_env[r], "action-delivered", "random")
                elif self.bound != "clip" or self.scaling:
                    ctx.close(self.mapped(raw[r]), got_env[r].astype(float), "action-delivered", "random, mapped", rtol=1e-3, atol=1e-3)
                continue
            if self.state is None:
                want = E.pol_act(self.act, codes[r:r + 1], np.zeros(1), self.pol.n_act)[0]
                if self.noise:
                    want = want + E.noise_of(codes[r:r + 1])[0] if self.act == "box" else (want + 1) % self.pol.n_act
                ctx.close(raw[r], want, "stored-action", lambda: f"policy's action for {codes[r]}", rtol=1e-6, atol=1e-6)
            ctx.close(got_env[r].astype(float), np.asarray(self.mapped(raw[r]), float), "action-delivered", lambda: f"env {i} step {j}", rtol=1e-5, atol=1e-5)
        # policy outputs stored along
        live = np.array([self.rand[i][j] is False for i, j in picks])
        if self.extra and live.any() and "policy" in tree and "tag" in tree["policy"]:
            ctx.equal(tree["policy"]["tag"][live], (codes[live, 3] * 2 + 1), "stored-policy", "policy.tag")
            ctx.equal(tree["policy"]["sub"]["z"][live], codes[live, :2].astype(np.float32), "stored-policy", "policy.sub.z")
            ctx.note("policy_entries", int(live.sum()))
        elif self.extra and live.any():
            ctx.fail("stored-policy", f"policy outputs missing from the buffer: {list(tree.get('policy', {}))}")


def stack_tree(xs):
    if isinstance(xs[0], dict):
        return {k: stack_tree([x[k] for x in xs]) for k in xs[0]}
    return np.stack([np.asarray(x) for x in xs])


def drive(ctx, rng, rig, n_ops, splice=False):
    """splice: environments may be reset in the middle of a recorded episode while its data stays in the buffer."""
    c = rig.col
    c.reset()
    rig.mark_buffer_reset()
    for _ in range(n_ops):
        r = rng.random()
        rnd = lambda p: {"random": True} if rng.random() < p and rig.can_random() else {}
        if r < 0.42:
            rig.collect(n_step=int(rng.integers(1, 30)), **rnd(0.2))
        elif r < 0.8:
            k = int(rng.integers(1, 9))
            rig.collect(n_episode=k if splice or not rig.midway() else max(k, rig.n), **rnd(0.15))
        elif r < 0.86:
            if splice or not rig.midway():
                rig.collect(n_step=int(rng.integers(1, 12)), reset_before_collect=True)
            else:
                continue
        elif r < 0.92:
            keep = bool(rng.random() < 0.5)
            c.reset_buffer(keep_statistics=keep)
            rig.mark_buffer_reset()
            rig.ops.append(("reset_buffer", keep))
        elif r < 0.96:
            c.reset()
            rig.mark_buffer_reset()
            rig.ops.append(("reset",))
        elif splice or not rig.midway():
            c.reset_env()
            rig.ops.append(("reset_env",))
        else:
            continue
        ctx.trace.append(rig.ops[-1])
        rig.verify()
    ctx.note("episodes", sum(bool(s[4] or s[5]) for lg in rig.logs() for s in E.steps_of(lg)))
    ctx.sig(rig.backend, rig.n, rig.obs, rig.act, rig.info, rig.state, rig.bufkind, rig.dist, tuple(str(o) for o in rig.ops))
    ctx.sample({"envs": rig.n, "buffer": rig.bufkind, "caps": rig.caps, "ops": [str(o) for o in rig.ops], "steps": [len(E.steps_of(x)) for x in rig.logs()]})


def s_dummy(ctx, rng):
    rig = Rig(ctx, rng)
    drive(ctx, rng, rig, int(rng.integers(3, 9)))


def s_midway(ctx, rng):
    """Environment resets in the middle of episodes: what was and is stored stays complete and in order."""
    rig = Rig(ctx, rng, room=8)
    drive(ctx, rng, rig, int(rng.integers(3, 7)), splice=True)


def s_single(ctx, rng):
    rig = Rig(ctx, rng, backend="single", n=1)
    drive(ctx, rng, rig, int(rng.integers(3, 8)))
    ctx.note("single_env")


def s_proc(ctx, rng):
    rig = Rig(ctx, rng, backend=["subproc", "shmem"][int(rng.integers(2))], n=int(rng.integers(1, 4)), obs=["vec", "int", "img", "multibin"][int(rng.integers(4))],
              delay=0.002 if rng.random() < 0.5 else 0.0)
    try:
        drive(ctx, rng, rig, int(rng.integers(3, 6)))
    finally:
        rig.col.close()


def s_resetargs(ctx, rng):
    """Arguments for environment resets reach every reset made on behalf of the call they were given to, and no other."""
    n = int(rng.integers(1, 5))
    envs = [E.TagEnv(i, int(rng.integers(1000)), max_len=int(rng.integers(1, 6))) for i in range(n)]
    a = bool(n > 1 and rng.random() < 0.4)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        venv = DummyVectorEnv([lambda e=e: e for e in envs], **({"wait_num": int(rng.integers(1, n))} if a else {}))
        col = (AsyncCollector if a else Collector)(E.StubPolicy(envs[0].action_space, "disc", "vec"), venv, VectorReplayBuffer(50 * n, n))
        for k in range(int(rng.integers(3, 9))):
            what = ["reset", "reset_env", "collect", "collect_reset", "collect_reset", "collect_reset"][int(rng.integers(6))] if k else "reset"
            opt = {"o": k} if rng.random() < 0.6 and what != "collect" else None
            kw = {} if opt is None and rng.random() < 0.5 else {"gym_reset_kwargs": opt and {"options": opt}}
            pos = [len(e.log) for e in envs]
            if what == "reset":
                col.reset(**kw)
            elif what == "reset_env":
                col.reset_env(**kw)
                col.reset_buffer()
            else:
                req = {"n_step": n * int(rng.integers(1, 8))} if rng.random() < 0.5 else {"n_episode": n * int(rng.integers(1, 4))}
                col.collect(**req, **kw, **({"reset_before_collect": True} if what == "collect_reset" else {}))
                if what == "collect_reset":
                    col.reset_buffer()
            got = [x[3] for e, j in zip(envs, pos) for x in e.log[j:] if x[0] == "reset"]
            ctx.check(all(g == opt for g in got), "reset-arguments", lambda: f"{what} with options {opt}: environments were reset with {got}")
            ctx.note("reset_args", len(got) if opt else 0)
            ctx.trace.append((what, opt, len(got)))
    ctx.sig("resetargs", n, a, tuple(str(t) for t in ctx.trace[-8:]))


class NanEnv(E.TagEnv):
    nan_at = 0

    def step(self, act):
        o, r, te, tr, i = super().step(act)
        self.total = getattr(self, "total", 0) + 1
        return o, (float("nan") if self.total == self.nan_at else r), te, tr, i


def s_nan(ctx, rng):
    """A collection that leaves NaN in the buffer is reported, with every kind of request, unless this is switched off."""
    n, k = int(rng.integers(1, 4)), int(rng.integers(1, 12))
    envs = [NanEnv(i, int(rng.integers(100)), max_len=5) for i in range(n)]
    envs[int(rng.integers(n))].nan_at = k
    on = bool(rng.random() < 0.7)
    room = int(rng.integers(7, 12)) if rng.random() < 0.5 else 60
    col = Collector(E.StubPolicy(envs[0].action_space, "disc", "vec"), DummyVectorEnv([lambda e=e: e for e in envs]), VectorReplayBuffer(room * n, n), raise_on_nan_in_buffer=on)
    col.reset()
    for _ in range(5):
        kw = {"n_step": n * int(rng.integers(1, 5))} if rng.random() < 0.5 else {"n_episode": n * int(rng.integers(1, 3))}
        err = None
        try:
            col.collect(**kw)
        except MalformedBufferError as e:
            err = e
        has = bool(np.isnan(np.asarray(col.buffer.rew)[col.buffer.sample_indices(0)]).any())
        ctx.equal(err is not None, has and on, "nan-in-buffer", f"{kw}, raise_on_nan_in_buffer={on}")
        ctx.note("nan_runs", has)
        ctx.sig("nan", n, k, on, room, str(kw), has)
        if err:
            return


def s_reject(ctx, rng):
    """Requests that cannot be served are refused before anything is collected."""
    rig = Rig(ctx, rng, fits=True)
    c = rig.col
    ctx.raises(lambda: c.collect(n_step=4), ValueError, "collect-before-reset", "")
    c.reset()
    for kw in ({}, {"n_step": 0}, {"n_episode": 0}):
        ctx.raises(lambda: c.collect(**kw), ValueError, "bad-request-accepted", str(kw))
    ctx.equal(sum(len(E.steps_of(x)) for x in rig.logs()), 0, "stepped-on-bad-request", "")
    n = rig.n
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if n > 1:
            ctx.raises(lambda: Collector(rig.pol, rig.env, ReplayBuffer(50)), ValueError, "plain-buffer-many-envs", "")
            ctx.raises(lambda: Collector(rig.pol, rig.env, VectorReplayBuffer(50, n - 1)), ValueError, "too-few-subbuffers", "")
        ctx.raises(lambda: Collector(rig.pol, rig.env, ReplayBuffer(0)), ValueError, "empty-buffer", "")
    ctx.sig(n, rig.bufkind)


SCENARIOS = [
    Scenario("dummy", s_dummy, 260, 4000),
    Scenario("midway", s_midway, 60, 600),
    Scenario("single", s_single, 40, 500),
    Scenario("procs", s_proc, 18, 220),
    Scenario("nan", s_nan, 60, 900),
    Scenario("resetargs", s_resetargs, 80, 1000),
    Scenario("reject", s_reject, 20, 120),
]
