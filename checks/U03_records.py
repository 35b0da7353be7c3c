"""Statistics records summarise exactly what they were fed."""
import ast
import copy
import logging
import pickle
from dataclasses import asdict, dataclass, field, fields

import numpy as np
import torch
from tianshou.data import Batch, CollectStats
from tianshou.data.stats import SequenceSummaryStats, TimingStats, compute_dim_to_summary_stats
from tianshou.policy.base import TrainingStats, TrainingStatsWrapper
from tianshou.policy.multiagent.mapolicy import MapTrainingStats
from torch.distributions import Categorical, Independent, Normal
from vlib.core import Scenario

RULE = (
    "random sequences of update / refresh / time calls on collection statistics, random training statistics with plain, missing "
    "and summarised losses, wrapped to any depth and grouped per agent; every field is recomputed from the recorded inputs; "
    "distinct = (operation sequence or field layout)"
)
MIN = {
    "step_updates": 1500, "episode_updates": 700, "refreshed": 500, "stale_kept": 200, "refused": 60, "categorical": 250, "normal": 250, "no_dist": 250,
    "vector_returns": 20, "loss_dicts": 700, "wrapped": 300, "nested_wraps": 100, "writes_through": 400, "agent_groups": 100, "copies": 300, "printed": 100,
    "summaries": 400,
}
logging.getLogger("tianshou.data").setLevel(logging.CRITICAL)


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def summary(v):
    v = np.asarray(v, np.float64)
    return None if v.size == 0 else dict(mean=v.mean(), std=v.std(), max=v.max(), min=v.min())


def same_summary(ctx, got, want, kind, what):
    if want is None:
        ctx.check(got is None, kind, f"{what}: {got} for no values")
        return
    ctx.check(isinstance(got, SequenceSummaryStats), kind, f"{what}: {got!r}")
    for k, w in want.items():
        g = getattr(got, k)
        ctx.check(type(g) is float, kind, f"{what}: {k} is {type(g)}")
        ctx.close(g, float(w), kind, f"{what}: {k}", rtol=1e-6, atol=1e-6)


def s_collect(ctx, rng):
    """Collection statistics fed step by step."""
    dims = int(rng.integers(1, 4))
    kind = pick(rng, ["cat", "catlogits", "normal", "indep", "none", "mixed"])
    agents = int(rng.integers(2, 4)) if rng.random() < 0.15 else 0
    cs = CollectStats()
    other = CollectStats()
    steps, eps, rets, lens, stds = 0, 0, [], [], []
    seen = {"returns_stat": None, "lens_stat": None, "std": None}
    time_, speed = 0.0, 0.0
    ops = []
    for _ in range(int(rng.integers(2, 25))):
        op = pick(rng, ["step", "step", "step", "ep", "ep", "refresh", "time"])
        ops.append(op)
        what = f"{kind} dims {dims} agents {agents} {ops}"
        if op == "step":
            R = int(rng.integers(1, 6))
            k = kind if kind != "mixed" else pick(rng, ["normal", "none"])
            fresh = bool(rng.random() < 0.3)
            if k in ("cat", "catlogits"):
                K = dims + 1
                if k == "cat":
                    p = rng.dirichlet(np.ones(K), size=R)
                    d = Categorical(probs=torch.as_tensor(p))
                else:
                    lg = rng.normal(size=(R, K)) * 2
                    p = np.exp(lg) / np.exp(lg).sum(1, keepdims=True)
                    d = Categorical(logits=torch.as_tensor(lg))
                m = (p * np.arange(K)).sum(1, keepdims=True)
                sd = np.sqrt((p * (np.arange(K) - m) ** 2).sum(1, keepdims=True))
                ctx.note("categorical")
            elif k in ("normal", "indep"):
                sd = rng.uniform(0.01, 4, size=(R, dims))
                d = Normal(torch.as_tensor(rng.normal(size=(R, dims))), torch.as_tensor(sd))
                d = Independent(d, 1) if k == "indep" else d
                ctx.note("normal")
            else:
                d, sd = None, None
                ctx.note("no_dist")
            b = Batch(obs=np.zeros((R, 2)), act=np.zeros(R), rew=np.ones(R))
            b.dist = d
            cs.update_at_step_batch(b, **({"refresh_sequence_stats": True} if fresh else {}))
            steps += R
            if sd is not None:
                stds.append(sd)
            if fresh:
                seen["std"] = np.concatenate(stds) if stds else None
                ctx.note("refreshed")
            ctx.note("step_updates")
        elif op == "ep":
            n = int(rng.integers(1, 9))
            ret = rng.normal(size=agents) * 5 if agents else float(rng.normal() * 5)
            fresh = bool(rng.random() < 0.3)
            cs.update_at_episode_done(Batch(obs=np.zeros((n, 2)), rew=np.zeros(n)), ret, **({"refresh_sequence_stats": True} if fresh else {}))
            eps += 1
            rets.append(ret)
            lens.append(n)
            if fresh:
                seen["returns_stat"], seen["lens_stat"] = summary(rets), summary(lens)
                ctx.note("refreshed")
            ctx.note("episode_updates")
            ctx.note("vector_returns", bool(agents))
        elif op == "refresh":
            f = pick(rng, ["all", "return", "len", "std"])
            if f == "all":
                cs.refresh_all_sequence_stats()
            elif f == "return":
                cs.refresh_return_stats()
            elif f == "len":
                cs.refresh_len_stats()
            else:
                cs.refresh_std_array_stats()
            if f in ("all", "return"):
                seen["returns_stat"] = summary(rets)
            if f in ("all", "len"):
                seen["lens_stat"] = summary(lens)
            if f in ("all", "std"):
                seen["std"] = np.concatenate(stds) if stds else None
            ctx.note("refreshed")
        else:
            t = float(pick(rng, [0.0, 0.5, 3.0, 1e-3, -1.0]))
            upd = bool(rng.random() < 0.7)
            if t < 0:
                ctx.raises(lambda: cs.set_collect_time(t, upd), ValueError, "refused", what)
                ctx.note("refused")
            else:
                if upd and rng.random() < 0.5:
                    cs.set_collect_time(t)
                else:
                    cs.set_collect_time(t, update_collect_speed=upd)
                time_ = t
                if upd:
                    speed = steps / t if t else 0.0
        ctx.equal((cs.n_collected_steps, cs.n_collected_episodes), (steps, eps), "counts", what)
        ctx.close(np.asarray(cs.returns, float), np.asarray(rets, float), "returns", what, rtol=1e-12, atol=0)
        ctx.equal(np.asarray(cs.lens), np.asarray(lens, int), "lens", what)
        ctx.check(np.asarray(cs.lens).dtype.kind == "i", "lens", f"{what}: {np.asarray(cs.lens).dtype}")
        same_summary(ctx, cs.returns_stat, seen["returns_stat"], "return-summary", what)
        same_summary(ctx, cs.lens_stat, seen["lens_stat"], "length-summary", what)
        ctx.note("stale_kept", seen["lens_stat"] is not None and summary(lens) != seen["lens_stat"])
        if stds:
            ctx.close(np.asarray(cs.pred_dist_std_array, float), np.concatenate(stds), "distribution-spread", what, rtol=1e-5, atol=1e-6)
        else:
            ctx.check(cs.pred_dist_std_array is None, "distribution-spread", what)
        st = cs.pred_dist_std_array_stat
        if seen["std"] is None:
            ctx.check(st is None, "spread-summary", what)
        else:
            ctx.equal(sorted(st), list(range(seen["std"].shape[1])), "spread-summary", what)
            for j in st:
                same_summary(ctx, st[j], summary(seen["std"][:, j]), "spread-summary", f"{what} dimension {j}")
        ctx.close([cs.collect_time, cs.collect_speed], [time_, speed], "collect-time", what, rtol=1e-12, atol=0)
    ctx.equal(repr(other), repr(CollectStats()), "records-share-state", "")
    ctx.sig(kind, dims, agents, ops)
    ctx.sample({"operations": ops, "distribution": kind})


def s_auto(ctx, rng):
    """Records made from given values; free-standing summaries."""
    n = int(rng.integers(0, 8))
    r, ln = rng.normal(size=n) * 9, rng.integers(1, 50, size=n)
    kw = dict(n_collected_episodes=n, n_collected_steps=int(ln.sum()), collect_time=float(rng.uniform(0.1, 9)), collect_speed=float(rng.uniform(1, 99)))
    some = {k: v for k, v in kw.items() if rng.random() < 0.7}
    r0, l0 = r.copy(), ln.copy()
    cs = CollectStats.with_autogenerated_stats(returns=r, lens=ln, **some)
    what = f"{n} episodes, {sorted(some)}"
    ctx.equal((r, ln), (r0, l0), "input-modified", what)
    ctx.equal([getattr(cs, k) for k in kw], [some.get(k, 0) for k in kw], "given-values", what)
    ctx.equal(np.asarray(cs.returns), r0, "returns", what)
    ctx.equal(np.asarray(cs.lens), l0, "lens", what)
    same_summary(ctx, cs.returns_stat, summary(r0), "return-summary", what)
    same_summary(ctx, cs.lens_stat, summary(l0), "length-summary", what)
    keep = repr(cs)
    drop = [f for f in ("returns", "lens", "collect_time", "returns_stat", "no_such_field") if rng.random() < 0.4]
    txt = cs.pprints_asdict(exclude_fields=drop or None, indent=int(rng.integers(1, 6)))
    ctx.equal(repr(cs), keep, "printing-modified", what)
    lines = txt.split("\n")
    ctx.equal(lines[0], "CollectStats", "printed", txt)
    body = "\n".join(lines[2:])
    for f in fields(cs):
        ctx.equal(f"'{f.name}':" in body, f.name not in drop, "printed", f"{what}: {f.name}, excluded {drop}: {body}")
    ctx.note("printed")
    ts = TimingStats(**{k: float(v) for k, v in zip(("total_time", "train_time", "test_time"), rng.integers(0, 99, size=3))})
    ctx.equal(ast.literal_eval(ts.pprints_asdict().split("\n", 2)[2]), asdict(ts), "printed", "timing")
    for form in ("list", "array", "tuple", "ints", "f32"):
        v = rng.normal(size=int(rng.integers(0, 7))) * 20
        arg = {"list": list(v), "array": v, "tuple": tuple(v), "ints": [int(x) for x in v], "f32": v.astype(np.float32)}[form]
        s = SequenceSummaryStats.from_sequence(arg)
        same_summary(ctx, s, summary(arg) or dict(mean=0.0, std=0.0, max=0.0, min=0.0), "summary", f"{form} {arg}")
        ctx.note("summaries")
    rows = [list(rng.normal(size=int(rng.integers(1, 5)))) for _ in range(int(rng.integers(0, 5)))]
    got = compute_dim_to_summary_stats(rows)
    ctx.equal(list(got), list(range(len(rows))), "summary", f"{rows}")
    for k, v in got.items():
        same_summary(ctx, v, summary(rows[k]), "summary", f"row {k} of {rows}")
    ctx.sig(n, sorted(some), drop)


@dataclass(kw_only=True)
class Loss(TrainingStats):
    loss: float
    aux: float | None = None
    parts: SequenceSummaryStats | None = None
    extra: SequenceSummaryStats = field(default_factory=lambda: SequenceSummaryStats.from_sequence([1.0, 3.0]))


class Outer(TrainingStatsWrapper):
    def __init__(self, wrapped_stats, *, outer_loss, note=None):
        self.outer_loss = outer_loss
        self.note = note
        super().__init__(wrapped_stats)


class Outer2(TrainingStatsWrapper):
    def __init__(self, wrapped_stats, *, second_loss):
        self.second_loss = second_loss
        super().__init__(wrapped_stats)


def val(rng):
    """A loss, often a special one: exactly zero, huge, tiny."""
    return float(rng.normal()) if rng.random() < 0.7 else pick(rng, [0.0, 0.0, -0.0, 1e30, 1e-30])


def make(rng):
    v = [val(rng) for _ in range(4)]
    s = Loss(loss=v[0], aux=v[1] if rng.random() < 0.5 else None, train_time=float(rng.uniform(0, 9)))
    if rng.random() < 0.5:
        s.parts = SequenceSummaryStats.from_sequence(v)
    if rng.random() < 0.4:
        s.smoothed_loss = {"loss": v[2]}
    want = {"loss": v[0], "extra": 2.0}
    if s.aux is not None:
        want["aux"] = s.aux
    if s.parts is not None:
        want["parts"] = float(np.mean(v))
    if rng.random() < 0.3:
        s._hidden = 5.0
        s.added = 4.0  # set afterwards, still a statistic
        want["added"] = 4.0
    return s, want


def wrap(ctx, rng, s, want):
    """A wrapper of random depth and the losses it must report."""
    depth = int(rng.integers(0, 4))
    chain = [s]
    for k in range(depth):
        v = val(rng)
        if k % 2 == 0:
            nt = None if rng.random() < 0.5 else val(rng)
            s = Outer(s, outer_loss=v, note=nt)
            want = {**want, "outer_loss": v}
            want.pop("note", None)
            if nt is not None:
                want["note"] = nt
            elif any(isinstance(c, Outer) for c in chain):
                pass
        else:
            s = Outer2(s, second_loss=v)
            want = {**want, "second_loss": v}
        chain.append(s)
    ctx.note("wrapped", depth > 0)
    ctx.note("nested_wraps", depth > 1)
    return s, want, chain


def s_training(ctx, rng):
    """Training statistics: the losses reported for logging, alone, wrapped and per agent."""
    base, want = make(rng)
    s, want, chain = wrap(ctx, rng, base, want)
    what = f"depth {len(chain) - 1}, losses {sorted(want)}"

    def losses(obj, w, kind="losses"):
        got = obj.get_loss_stats_dict()
        ctx.close({k: float(v) for k, v in got.items()}, w, kind, what, rtol=1e-12, atol=0)
        ctx.note("loss_dicts")

    losses(s, want)
    before = {k: v for k, v in want.items()}
    for k, v in want.items():
        a = getattr(s, k)
        ctx.close(float(a.mean if isinstance(a, SequenceSummaryStats) else a), v, "read-through", f"{what}: {k}", rtol=1e-12, atol=0)
    for _ in range(int(rng.integers(1, 5))):
        op = pick(rng, ["time", "smooth", "loss", "own", "new", "copy"])
        v = val(rng)
        if op == "time":
            s.train_time = v
            ctx.equal([c.train_time for c in chain], [v] * len(chain), "written-through", f"{what}: train_time")
        elif op == "smooth":
            s.smoothed_loss = {"loss": v}
            ctx.equal([c.smoothed_loss for c in chain], [{"loss": v}] * len(chain), "written-through", f"{what}: smoothed_loss")
        elif op == "loss":
            s.loss = v
            want["loss"] = v
            ctx.equal([c.loss for c in chain], [v] * len(chain), "written-through", f"{what}: loss")
        elif op == "own" and isinstance(s, Outer | Outer2):
            k = "outer_loss" if isinstance(s, Outer) else "second_loss"
            if len(chain) < 4:  # one level of each kind
                setattr(s, k, v)
                want[k] = v
                ctx.equal(getattr(s, k), v, "own-value", what)
        elif op == "new" and len(chain) > 1:
            ctx.raises(lambda: setattr(s, "typo_loss", v), AttributeError, "new-attribute", what)
            ctx.check(not hasattr(s, "typo_loss") and not hasattr(base, "typo_loss"), "new-attribute", what)
            ctx.raises(lambda: s.typo_loss, AttributeError, "missing-attribute", what)
            ctx.note("refused")
        elif op == "copy":
            for how, c in (("copy", copy.copy(s)), ("deepcopy", copy.deepcopy(s)), ("pickle", pickle.loads(pickle.dumps(s)))):
                ctx.check(type(c) is type(s), "copy", f"{what} {how}: {type(c)}")
                losses(c, want, "copy")
                ctx.equal((c.train_time, c.smoothed_loss), (s.train_time, s.smoothed_loss), "copy", f"{what} {how}")
                if how != "copy":
                    c.loss = 77.0
                    c.train_time = -5.0
                    losses(s, want, "copy-shares-state")
                    ctx.check(s.train_time != -5.0, "copy-shares-state", f"{what} {how}")
                ctx.note("copies")
            continue
        losses(s, want)
        ctx.note("writes_through")
    if len(chain) > 1:
        ctx.check(s.wrapped_stats is chain[-2], "wrapped-object", what)
    d = asdict(s)
    ctx.equal((d["train_time"], d["smoothed_loss"]), (s.train_time, s.smoothed_loss), "as-dict", what)
    ctx.sig(len(chain), sorted(before), s.note if isinstance(s, Outer) else None)

    group, exp, times = {}, {}, []
    for k in range(int(rng.integers(1, 5))):
        a, w, _ = wrap(ctx, rng, *make(rng))
        key = pick(rng, ["player", "p/", "agent_"]) + str(k) if rng.random() < 0.7 else k
        group[key] = a
        times.append(a.train_time)
        exp.update({f"{key}/{n}": x for n, x in w.items()})
    ag = pick(rng, ["default", "max", "min", "mean"])
    keep = {k: (v.train_time, dict(v.get_loss_stats_dict())) for k, v in group.items()}
    m = MapTrainingStats(group) if ag == "default" else MapTrainingStats(group, train_time_aggregator=ag)
    what = f"{len(group)} agents, {ag}"
    ctx.close(float(m.train_time), float({"default": max, "max": max, "min": min, "mean": np.mean}[ag](times)), "time-of-agents", what, rtol=1e-12, atol=0)
    losses(m, exp, "losses-of-agents")
    ctx.equal(m.smoothed_loss, {}, "losses-of-agents", what)
    m.smoothed_loss = {"x": 1.0}
    m.train_time = -1.0
    ctx.equal({k: (v.train_time, dict(v.get_loss_stats_dict())) for k, v in group.items()}, keep, "agents-modified", what)
    ctx.raises(lambda: MapTrainingStats(group, train_time_aggregator=pick(rng, ["median", "sum", ""])), ValueError, "aggregator", what)
    ctx.note("refused")
    ctx.note("agent_groups")


SCENARIOS = [
    Scenario("collect", s_collect, 500, 8000),
    Scenario("auto", s_auto, 150, 3000),
    Scenario("training", s_training, 500, 6000),
]
