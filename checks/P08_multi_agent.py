"""The multi-agent manager: every agent's policy works on exactly its own rows with its own reward."""
from copy import deepcopy

import numpy as np
import torch
from tianshou.data import Batch, Collector, ReplayBuffer, VectorReplayBuffer
from tianshou.env import DummyVectorEnv, PettingZooEnv
from tianshou.policy import BasePolicy, MultiAgentPolicyManager
from tianshou.policy.base import TrainingStats, policy_within_training_step
from vlib import zoo
from vlib.aec import Turns
from vlib.core import Scenario
from vlib.pol import draws

RULE = (
    "random row-to-agent assignments (incl. absent agents), masks, reward vectors and states dispatched to recording policies, and "
    "updates of real policies on random multi-agent buffers compared with each policy trained alone on a buffer holding its own "
    "rewards; collectors on scripted turn-based environments; distinct = (agents, assignment, options)"
)
MIN = {
    "forwards": 300, "rows": 2000, "absent_agents": 60, "updates": 120, "agent_updates": 200, "nstep_updates": 20, "untouched_agents": 20, "mode_switches": 100,
    "noised_rows": 500, "collected": 1500, "unmasked_collected": 300, "stats_keys": 200, "permuted_columns": 30,
}


class Rec(BasePolicy):
    """Deterministic policy that records what it is given."""

    def __init__(self, k, n, form, masked):
        super().__init__(action_space=__import__("gymnasium").spaces.Discrete(n))
        self.k, self.n, self.form, self.masked = k, n, form, masked
        self.seen, self.processed, self.learned, self.posted, self.noised, self.flags = [], [], [], [], [], []
        self.net = torch.nn.Dropout(0.5)

    def rule(self, obs, mask=None):
        v = np.floor(np.abs(np.asarray(obs, float)).sum(-1) * 1000).astype(int) + self.k
        a = v % self.n
        if mask is not None:
            a = np.array([int(np.flatnonzero(m)[x % int(m.sum())]) for x, m in zip(v, mask)], int)
        if self.form == "box":
            return np.stack([np.sin(v * 1.0), np.cos(v * 1.0)], -1)
        return a

    def forward(self, batch, state=None, **kw):
        self.seen.append((deepcopy(batch), deepcopy(state), kw))
        self.flags.append((self.training, self.net.training, self.is_within_training_step))
        raw = batch.obs.obs if isinstance(batch.obs, Batch) else batch.obs
        a = self.rule(raw, batch.obs.mask if self.masked else None)
        if self.form == "tensor":
            a = torch.as_tensor(a)
        return Batch(act=a, state=None if self.k % 2 else Batch(h=np.full((len(raw), 1), self.k)), extra=np.full(len(raw), self.k))

    def exploration_noise(self, act, batch):
        self.noised.append((np.array(act, copy=True), deepcopy(batch)))
        return (act + 1) % self.n if self.form != "box" else act * 0.5

    def process_fn(self, batch, buffer, indices):
        self.processed.append((deepcopy(batch), np.array(buffer.rew, copy=True), indices.copy()))
        self.flags.append((self.training, self.net.training, self.is_within_training_step))
        batch.extra = np.full(len(indices), self.k)
        return batch

    def learn(self, batch, **kw):
        self.learned.append((deepcopy(batch), kw))
        self.flags.append((self.training, self.net.training, self.is_within_training_step))
        st = TrainingStats()
        st.smoothed_loss = {}
        st.train_time = float(self.k)
        st.loss = float(self.k) + 0.5
        return st


def make(rng, masked=None, form=None, mk=None):
    n = int(rng.integers(1, 5))
    masked = bool(rng.random() < 0.5) if masked is None else masked
    form = form or (["disc", "tensor"][int(rng.integers(2))] if masked else ["disc", "tensor", "box"][int(rng.integers(3))])
    turns = (int(rng.integers(2**31)), n, masked, "box" if form == "box" else "disc", bool(rng.random() < 0.5))
    env = PettingZooEnv(Turns(*turns))
    if rng.random() < 0.5:  # reward columns need not be in the order in which the agents are listed
        env.agent_idx = {a: int(i) for a, i in zip(env.agents, rng.permutation(n))}
    pols = [Rec(k, 4, form, masked) for k in range(n)] if mk is None else mk(env, n)
    return env, pols, MultiAgentPolicyManager(policies=pols, env=env), turns, form, masked


def rows_of(ids, a):
    return np.array([i for i, x in enumerate(ids) if x == a], int)


def s_forward(ctx, rng):
    env, pols, man, turns, form, masked = make(rng)
    agents = list(env.agents)
    has_mask = masked or rng.random() < 0.3
    for p in pols:
        p.masked = has_mask and form != "box"
    ctx.equal([man.policies[a] is p for a, p in zip(agents, pols)], [True] * len(pols), "assignment", "")
    ctx.equal([p.agent_id for p in pols], agents, "agent-ids", "")
    if rng.random() < 0.3:
        k = int(rng.integers(len(pols)))
        new = Rec(17 + k, 4, form, pols[k].masked)
        man.replace_policy(new, agents[k])
        pols[k] = new
    for _ in range(int(rng.integers(2, 6))):
        B = int(rng.integers(1, 10))
        ids = np.array([agents[int(rng.integers(len(agents)))] for _ in range(B)], dtype=object if rng.random() < 0.5 else None)
        obs = Batch(agent_id=ids, obs=rng.normal(size=(B, 3)))
        if has_mask and form != "box":
            m = rng.random((B, 4)) < 0.5
            m[np.arange(B), rng.integers(0, 4, B)] = True
            obs.mask = m
        b = Batch(obs=obs, info=Batch())
        full = bool(rng.random() < 0.5)
        if full:
            b.obs_next = deepcopy(obs)
            b.rew = rng.normal(size=(B, len(agents)))
        keep = deepcopy(b)
        state = None
        if rng.random() < 0.3:
            state = Batch({a: Batch(h=np.full((len(rows_of(ids, a)), 1), 100 + i)) for i, a in enumerate(agents)})
        train, step = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
        man.train(train) if rng.random() < 0.7 or not train else man.train()
        if not train and rng.random() < 0.5:
            man.eval()
        kw = {"q": 3} if rng.random() < 0.3 else {}
        for p in pols:
            p.seen.clear(), p.flags.clear(), p.noised.clear()
        with policy_within_training_step(man, step):
            out = man(b, state, **kw)
        what = f"agents {agents}, rows {ids.tolist()}, mask {has_mask}, {form}"
        ctx.equal(b, keep, "input-modified", what)
        ctx.equal(len(out.act), B, "rows", what)
        for a, p in zip(agents, pols):
            idx = rows_of(ids, a)
            ctx.check(not p.is_within_training_step, "training-step-flag", what)
            if len(idx) == 0:
                ctx.check(not p.seen, "called-without-rows", f"{what}: {a}")
                ctx.note("absent_agents")
                continue
            ctx.equal(len(p.seen), 1, "calls", f"{what}: {a}")
            got, st, k = p.seen[0]
            raw = got.obs.obs if isinstance(got.obs, Batch) else got.obs
            ctx.check(isinstance(got.obs, Batch) == hasattr(obs, "mask"), "observation-form", f"{what}: {type(got.obs)}")
            ctx.equal(raw, keep.obs.obs[idx], "other-agents-rows", f"{what}: {a}")
            if hasattr(obs, "mask"):
                ctx.equal(got.obs.mask, keep.obs.mask[idx], "other-agents-mask", f"{what}: {a}")
            if full:
                ctx.equal(got.rew, keep.rew[idx, env.agent_idx[a]], "other-agents-reward", f"{what}: {a}")
            ctx.equal(k, kw, "keyword-arguments", what)
            if state is None:
                ctx.check(st is None, "state", what)
            else:
                ctx.check(st is not None, "state", f"{what}: the state of {a} is lost")
                ctx.equal(st.h, state[a].h, "other-agents-state", f"{what}: {a}")
            ctx.equal(p.flags, [(train, train, step)], "modes", f"{what}: train {train}, step {step}")
            ctx.note("mode_switches")
            want = p.rule(keep.obs.obs[idx], keep.obs.mask[idx] if p.masked else None)
            ctx.close(np.asarray(out.act)[idx], want, "actions-mixed-up", f"{what}: {a}")
            ctx.equal(out.out[a].extra, np.full(len(idx), p.k), "outputs-mixed-up", what)
            if p.k % 2 == 0:
                ctx.equal(out.state[a].h, np.full((len(idx), 1), p.k), "states-mixed-up", what)
            else:
                ctx.check(len(out.state[a].get_keys()) == 0, "states-mixed-up", what)
        # exploration
        act = np.array(out.act)
        ka = act.copy()
        noised = man.exploration_noise(act, b)
        for a, p in zip(agents, pols):
            idx = rows_of(ids, a)
            if len(idx) == 0:
                ctx.check(not p.noised, "noised-without-rows", what)
                continue
            ctx.close(p.noised[0][0], ka[idx], "noise-rows", what)
            ctx.equal(p.noised[0][1].obs.obs, keep.obs.obs[idx], "noise-observations", what)
            ctx.close(np.asarray(noised)[idx], (ka[idx] + 1) % 4 if form != "box" else ka[idx] * 0.5, "noise-mixed-up", what)
            ctx.note("noised_rows", len(idx))
        ctx.note("forwards")
        ctx.note("rows", B)
        ctx.sig(len(agents), ids.tolist(), has_mask, form, full, state is None, train, step)


def fill(rng, agents, n_act, masked, steps, vector, box=False):
    """The same multi-agent history with reward vectors, and per agent with that agent's rewards only."""
    n = len(agents)
    k = int(rng.integers(1, 4)) if vector else 1
    size = int(rng.integers(4, 14)) * k
    bufs = [VectorReplayBuffer(size, k) if vector else ReplayBuffer(size) for _ in range(n + 1)]
    weights = rng.dirichlet(np.ones(n))

    def ob():
        d = {"agent_id": agents[int(rng.choice(n, p=weights))], "obs": rng.normal(size=3)}
        if masked:
            m = rng.random(n_act) < 0.6
            m[int(rng.integers(n_act))] = True
            d["mask"] = m
        return Batch(d)

    cur = [ob() for _ in range(k)]
    for _ in range(steps):
        rows, rew = [], rng.normal(size=(k, n))
        for i in range(k):
            nxt, te, tr = ob(), bool(rng.random() < 0.2), bool(rng.random() < 0.1)
            act = rng.uniform(-0.9, 0.9, n_act) if box else int(rng.integers(n_act)) if not masked else int(rng.choice(np.flatnonzero(cur[i].mask)))
            rows.append(Batch(obs=cur[i], act=act, terminated=te, truncated=tr, obs_next=nxt, info=Batch(), policy=Batch()))
            cur[i] = ob() if te or tr else nxt
        for j, b in enumerate(bufs):
            r = rew if j == n else rew[:, j]
            if vector:
                bt = Batch.stack(rows)
                bt.rew = r.copy()
                b.add(bt, buffer_ids=np.arange(k))
            else:
                rows[0].rew = r[0].copy() if j == n else float(r[0])
                b.add(deepcopy(rows[0]))
    return bufs[n], bufs[:n]


def s_dispatch(ctx, rng):
    """process_fn / learn / post_process_fn with recording policies."""
    env, pols, man, turns, form, masked = make(rng, form="disc")
    agents = list(env.agents)
    buf, _ = fill(rng, agents, 4, masked, int(rng.integers(2, 20)), bool(rng.random() < 0.5))
    rew = np.array(buf.rew, copy=True)
    for _ in range(int(rng.integers(1, 4))):
        for p in pols:
            p.processed.clear(), p.learned.clear(), p.flags.clear()
        sampled = []
        kw = {"q": 1} if rng.random() < 0.5 else {}
        train0 = bool(rng.random() < 0.5)
        man.train(train0)
        with draws(man, sampled), policy_within_training_step(man):
            st = man.update(int(rng.integers(1, 9)), buf, **kw)
        ctx.check(len(sampled) == 1, "samples", "")
        idx = sampled[0][0]
        full = buf[idx]
        what = f"agents {agents}, rows {full.obs.agent_id.tolist()}"
        ctx.equal(np.asarray(buf.rew), rew, "stored-rewards-changed", what)
        want_keys = {}
        for a, p in zip(agents, pols):
            i = env.agent_idx[a]
            ctx.note("permuted_columns", i != agents.index(a))
            at = rows_of(full.obs.agent_id, a)
            ctx.check(p.training == train0 and p.net.training == train0 and not p.is_within_training_step, "mode-not-restored", f"{what}: {a}")
            ctx.note("mode_switches")
            if len(at) == 0:
                ctx.check(not p.processed and not p.learned, "called-without-rows", f"{what}: {a}")
                ctx.note("untouched_agents")
                continue
            ctx.equal([len(p.processed), len(p.learned)], [1, 1], "calls", f"{what}: {a}")
            b, r, ind = p.processed[0]
            ctx.equal(ind, idx[at], "indices", f"{what}: {a}")
            ctx.equal(r, rew[:, i], "buffer-rewards-of-agent", f"{what}: {a}")
            ctx.equal(b.rew, rew[idx[at], i], "batch-rewards-of-agent", f"{what}: {a}")
            ctx.equal(b.act, full.act[at], "other-agents-rows", f"{what}: {a}")
            for o, f in ((b.obs, full.obs), (b.obs_next, full.obs_next)):
                ctx.check(isinstance(o, Batch) == masked, "observation-form", f"{what}: {type(o)}")
                ctx.equal(o.obs if masked else o, f.obs[at], "other-agents-rows", f"{what}: {a}")
            lb, lk = p.learned[0]
            ctx.equal(lk, kw, "keyword-arguments", what)
            ctx.equal(lb.extra, np.full(len(at), p.k), "learn-gets-other-batch", f"{what}: {a}")
            ctx.equal(lb.act, full.act[at], "learn-gets-other-batch", f"{what}: {a}")
            ctx.equal(p.flags, [(train0, train0, True), (True, True, True)], "modes", f"{what}: {a}")
            want_keys[f"{a}/loss"] = p.k + 0.5
        ctx.equal(dict(st.get_loss_stats_dict()), want_keys, "statistics", what)
        ctx.note("stats_keys", len(want_keys))
        ctx.note("updates")
        ctx.sig(len(agents), full.obs.agent_id.tolist(), masked)


MASKED = ["dqn", "dqn_plain", "c51", "qrdqn"]
FREE = ["dqn", "c51", "bc_disc", "pg_disc", "a2c_disc", "ppo_disc"]
BOX = ["bc_box", "pg_box", "a2c_box", "ppo_box"]


def s_learning(ctx, rng):
    """Real policies: the update of each agent equals an update of that policy alone on its own rewards."""
    kind = ["masked", "free", "box"][int(rng.integers(3))]
    n_act = int(rng.integers(2, 5)) if kind != "masked" else 4
    names = []

    def mk(env, n):
        ps = []
        for _ in range(n):
            name = str(rng.choice({"masked": MASKED, "free": FREE, "box": BOX}[kind]))
            names.append(name)
            over = dict(estimation_step=int(rng.integers(1, 4))) if name in ("dqn", "c51", "qrdqn", "dqn_plain") else {}
            p = zoo.build(name, rng, n_act=n_act, masked=False, det=True, sched=False, **over).policy
            ps.append(p)
        return ps

    env, pols, man, *_ = make(rng, masked=kind == "masked", form="box" if kind == "box" else "disc", mk=mk)
    agents = list(env.agents)
    buf, own = fill(rng, agents, n_act, kind == "masked", int(rng.integers(3, 24)), bool(rng.random() < 0.5), box=kind == "box")
    onpol = any(x.split("_")[0] in ("pg", "a2c", "ppo") for x in names)
    for u in range(int(rng.integers(1, 4))):
        twins = [deepcopy(p) for p in pols]
        size = 0 if onpol else int(rng.integers(1, 8))
        kw = dict(batch_size=None, repeat=int(rng.integers(1, 3))) if onpol else {}
        ids = np.asarray(buf[buf.sample_indices(0)].obs.agent_id)
        if onpol and any(len(rows_of(ids, a)) == 1 for a in agents):
            return  # a single row's advantage cannot be normalised
        sampled = []
        before = [zoo.tensors(p) for p in pols]
        man.train(bool(rng.random() < 0.5))
        with draws(man, sampled), policy_within_training_step(man):
            st = man.update(size, buf, **kw)
        idx = sampled[0][0]
        rows = np.asarray(buf[idx].obs.agent_id)
        stats = {}
        what = f"{names}, update {u}, rows {rows.tolist()}"
        for i, (a, p, t) in enumerate(zip(agents, pols, twins)):
            at = rows_of(rows, a)
            if len(at) == 0:
                ctx.equal(zoo.tensors(p), before[i], "absent-agent-learned", f"{what}: {a}")
                ctx.note("untouched_agents")
                continue
            mine = own[env.agent_idx[a]]
            b = mine[idx[at]]
            if kind != "masked":
                b.obs, b.obs_next = b.obs.obs, b.obs_next.obs
            with policy_within_training_step(t):
                t.train(False)
                b = t.process_fn(b, mine, idx[at])
                t.train(True)
                s = t.learn(b, **kw)
            for k, v in s.get_loss_stats_dict().items():
                stats[f"{a}/{k}"] = v
            got, want = zoo.tensors(p), zoo.tensors(t)
            for k in want:
                ctx.close(got[k], want[k], "not-as-trained-alone", f"{what}: {a} ({names[i]}) {k}", rtol=1e-4, atol=2e-5)
            ctx.note("agent_updates")
            ctx.note("nstep_updates", getattr(t, "n_step", 1) > 1)
        got = dict(st.get_loss_stats_dict())
        ctx.equal(sorted(got), sorted(stats), "statistics", what)
        for k in stats:
            ctx.close(float(got[k]), float(stats[k]), "statistics", f"{what}: {k}", rtol=1e-3, atol=1e-4)
        ctx.note("stats_keys", len(stats))
        ctx.note("updates")
        ctx.sig(names, rows.tolist(), kind)
    ctx.sample({"agents": names, "rows": rows.tolist(), "kind": kind})


def s_collect(ctx, rng):
    """Collecting in turn-based environments: each recorded action is the acting agent's own."""
    env, pols, man, turns, form, masked = make(rng)
    if form == "tensor":
        form = "disc"
        for p in pols:
            p.form = "disc"
    agents = list(env.agents)
    for p in pols:
        p.k = 2 * p.k + 1  # no states: recurrent multi-agent policies are not supported by collectors
        p.masked = form != "box"
    k = int(rng.integers(1, 4))
    buf = VectorReplayBuffer(100 * k, k)
    explore = bool(rng.random() < 0.4)
    col = Collector(man, DummyVectorEnv([lambda j=j: PettingZooEnv(Turns(turns[0] + j, *turns[1:])) for j in range(k)]), buf, exploration_noise=explore)
    col.reset()
    if rng.random() < 0.5:
        col.collect(n_step=30 * k)
    else:
        col.collect(n_episode=k * 4)
    data = buf[buf.sample_indices(0)]
    what = f"agents {agents}, {form}, mask {masked}, exploration {explore}"
    ctx.equal(data.rew.shape, (len(data), len(agents)), "reward-vectors", what)
    for a, p in zip(agents, pols):
        at = rows_of(data.obs.agent_id, a)
        if len(at) == 0:
            continue
        raw = data.obs.obs[at]
        ctx.check((raw[:, 0] == int(a[1:])).all(), "observation-of-other-agent", what)
        want = p.rule(raw, data.obs.mask[at] if p.masked else None)
        if explore:
            want = (want + 1) % 4 if form != "box" else want * 0.5
        ctx.close(data.act[at], want, "action-of-other-agent", f"{what}: {a}")
        ctx.note("collected", len(at))
        ctx.note("unmasked_collected", len(at) if form == "box" else 0)
    ctx.sig(what, k)


SCENARIOS = [
    Scenario("forward", s_forward, 150, 2000),
    Scenario("dispatch", s_dispatch, 80, 1200),
    Scenario("learning", s_learning, 120, 1500),
    Scenario("collect", s_collect, 60, 600),
]
