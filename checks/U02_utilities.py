"""Learning-rate schedules, optimisers, mode switches and space descriptions do exactly what they promise."""
import copy
import io
import pickle
from dataclasses import dataclass

import gymnasium as gym
import numpy as np
import torch
from tianshou.policy.base import RandomActionPolicy
from tianshou.utils import MultipleLRSchedulers
from tianshou.utils.conversion import to_optional_float
from tianshou.utils.logging import set_numerical_fields_to_precision
from tianshou.utils.optim import clone_optimizer, optim_step
from tianshou.utils.print import DataclassPPrintMixin
from tianshou.utils.progress_bar import DummyTqdm
from tianshou.utils.space_info import ActionSpaceInfo, ObservationSpaceInfo, SpaceInfo
from tianshou.utils.torch_utils import create_uniform_action_dist, policy_within_training_step, torch_train_mode
from torch import nn
from torch.optim import lr_scheduler as S
from vlib.core import Scenario

RULE = (
    "random schedules stepped, saved at a random point and resumed against an uninterrupted run; random optimisers cloned and stepped "
    "next to fresh ones; nested mode switches left normally or by exceptions; random spaces; distinct = configuration"
)
MIN = {
    "resumes": 100, "schedule_steps": 1500, "clones": 100, "optim_steps": 400, "clipped": 80, "switches": 650, "exceptions": 200,
    "spaces": 300, "dists": 100, "refused": 80,
}


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


OPTS = {
    "adam": lambda p, r: torch.optim.Adam(p, lr=r.uniform(1e-3, 1), betas=(r.uniform(0.5, 0.9), 0.99), weight_decay=pick(r, [0, 0.1]), amsgrad=bool(r.random() < 0.5)),
    "adamw": lambda p, r: torch.optim.AdamW(p, lr=r.uniform(1e-3, 1), weight_decay=r.uniform(0, 0.3), eps=1e-4),
    "sgd": lambda p, r: torch.optim.SGD(p, lr=r.uniform(1e-3, 1), momentum=r.uniform(0.1, 0.9), nesterov=bool(r.random() < 0.5)),
    "rms": lambda p, r: torch.optim.RMSprop(p, lr=r.uniform(1e-3, 1), alpha=r.uniform(0.5, 0.99), centered=bool(r.random() < 0.5), momentum=pick(r, [0, 0.5])),
    "adadelta": lambda p, r: torch.optim.Adadelta(p, lr=r.uniform(0.1, 2), rho=r.uniform(0.5, 0.95)),
    "adamax": lambda p, r: torch.optim.Adamax(p, lr=r.uniform(1e-3, 1), weight_decay=pick(r, [0, 0.1])),
    "nadam": lambda p, r: torch.optim.NAdam(p, lr=r.uniform(1e-3, 1), momentum_decay=r.uniform(1e-3, 1e-1)),
}


def params(rng, shapes=None):
    shapes = shapes or [tuple(int(v) for v in rng.integers(1, 4, size=2)) for _ in range(int(rng.integers(1, 4)))]
    return [nn.Parameter(torch.as_tensor(rng.normal(size=s).astype(np.float32))) for s in shapes]


SCHED = {
    "const": lambda o, r: S.ConstantLR(o, factor=r.uniform(0.1, 0.9), total_iters=int(r.integers(1, 8))),
    "exp": lambda o, r: S.ExponentialLR(o, gamma=r.uniform(0.5, 0.99)),
    "step": lambda o, r: S.StepLR(o, int(r.integers(1, 5)), gamma=r.uniform(0.1, 0.9)),
    "multi": lambda o, r: S.MultiStepLR(o, sorted(int(v) for v in r.integers(1, 12, size=3)), gamma=r.uniform(0.1, 0.9)),
    "lambda": lambda o, r: (lambda k: S.LambdaLR(o, lambda e: 1 / (1 + k * e)))(r.uniform(0.1, 2)),
    "cos": lambda o, r: S.CosineAnnealingLR(o, int(r.integers(2, 12))),
    "linear": lambda o, r: S.LinearLR(o, start_factor=r.uniform(0.1, 0.9), total_iters=int(r.integers(1, 8))),
}


def s_schedules(ctx, rng):
    k = int(rng.integers(0, 5))
    names = [pick(rng, list(SCHED)) for _ in range(k)]
    onames = [pick(rng, ["sgd", "adam"]) for _ in range(k)]
    seeds = [int(v) for v in rng.integers(2**31, size=k)]

    def mk():
        opts, sch = [], []
        for nm, on, sd in zip(names, onames, seeds):
            r = np.random.default_rng(sd)
            o = OPTS[on](params(r, [(2,)]), r)
            opts.append(o)
            sch.append(SCHED[nm](o, r))
        return opts, sch, MultipleLRSchedulers(*sch)

    def go(m, opts):
        for o in opts:
            o.step()
        m.step()
        ctx.note("schedule_steps", k)
        return [g["lr"] for o in opts for g in o.param_groups]

    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        T, cut = int(rng.integers(1, 15)), 0
        cut = int(rng.integers(0, T + 1))
        o1, s1, single = mk()
        want = []
        for _ in range(T):
            for o, s in zip(o1, s1):
                o.step()
                s.step()
            want.append([g["lr"] for o in o1 for g in o.param_groups])
        o2, s2, m = mk()
        got = [go(m, o2) for _ in range(cut)]
        ctx.close(got, want[:cut], "lr-sequence", f"{names}", rtol=1e-12, atol=0)
        sd = m.state_dict()
        ctx.equal(len(sd), k, "state-entries", str(names))
        if rng.random() < 0.5:
            b = io.BytesIO()
            torch.save(sd, b)
            b.seek(0)
            sd = torch.load(b)
        osd = [copy.deepcopy(o.state_dict()) for o in o2]
        keep = copy.deepcopy(sd)
        o3, s3, m3 = mk()
        for _ in range(int(rng.integers(0, 4))):
            go(m3, o3)
        m3.load_state_dict(sd)
        for o, st in zip(o3, osd):
            o.load_state_dict(st)
        ctx.equal(repr(m3.state_dict()), repr(keep), "state-not-restored", str(names))
        rest = [go(m3, o3) for _ in range(T - cut)]
        ctx.close(rest, want[cut:], "resumed-lr-sequence", f"{names} cut {cut}", rtol=1e-9, atol=0)
        ctx.note("resumes")
        if k:
            ctx.raises(lambda: m3.load_state_dict(keep[:-1]), ValueError, "wrong-number-of-states-accepted", str(names))
            ctx.note("refused")
    ctx.sig(names, onames, T, cut, seeds)


def s_clone(ctx, rng):
    name = pick(rng, list(OPTS))
    sd = int(rng.integers(2**31))
    mk = lambda ps: OPTS[name](ps, np.random.default_rng(sd))
    shapes = [tuple(int(v) for v in rng.integers(1, 4, size=2)) for _ in range(int(rng.integers(1, 4)))]
    p1 = params(rng, shapes)
    o1 = mk(p1)
    p2 = params(rng, shapes)
    p3 = [nn.Parameter(p.detach().clone()) for p in p2]

    def step(o, ps, g):
        for p, v in zip(ps, g):
            p.grad = torch.as_tensor(v)
        o.step()

    grads = [[rng.normal(size=s).astype(np.float32) for s in shapes] for _ in range(6)]
    for g in grads[: int(rng.integers(0, 4))]:
        step(o1, p1, g)
    before = [p.detach().clone() for p in p1]
    c = clone_optimizer(o1, iter(p2))
    what = f"{name} {o1.defaults}"
    ctx.check(type(c) is type(o1), "class", what)
    ctx.equal(dict(c.defaults), dict(o1.defaults), "defaults", what)
    ctx.equal([id(p) for g in c.param_groups for p in g["params"]], [id(p) for p in p2], "parameters", what)
    ctx.check(not c.state, "state-copied", what)
    fresh = mk(p3)
    for g in grads:
        step(c, p2, g)
        step(fresh, p3, g)
        ctx.equal(p2, p3, "steps-differ", what)
        ctx.note("optim_steps")
    ctx.equal(p1, before, "original-parameters-moved", what)
    # a clone may take part in the training of its own network only
    step(o1, p1, grads[0])
    ctx.equal(p2, p3, "original-moves-clone", what)

    class Mine(torch.optim.SGD):
        pass

    ctx.raises(lambda: clone_optimizer(Mine(p1, lr=0.1), iter(p2)), ValueError, "custom-optimiser-cloned", "")
    ctx.note("refused")
    ctx.note("clones")
    ctx.sig(name, sd, shapes)


def s_step(ctx, rng):
    d = int(rng.integers(1, 5))
    name = pick(rng, list(OPTS))
    sd = int(rng.integers(2**31))
    net = nn.Linear(d, 2)
    twin = copy.deepcopy(net)
    o, o2 = (OPTS[name](m.parameters(), np.random.default_rng(sd)) for m in (net, twin))
    clip = pick(rng, [None, None, 0, 0.01, 0.5, 1e6])
    for _ in range(int(rng.integers(1, 5))):
        x = torch.as_tensor(rng.normal(0, 2, size=(3, d)).astype(np.float32))
        sc = float(pick(rng, [1, 20, 1e-3]))
        for p in net.parameters():  # stale gradients must not count
            p.grad = torch.full_like(p, 5.0) if rng.random() < 0.5 else None
        kw = {} if clip is None else {"module": net, "max_grad_norm": clip}
        optim_step((net(x) ** 2).sum() * sc, o, **kw)
        gs = torch.autograd.grad((twin(x) ** 2).sum() * sc, list(twin.parameters()))
        if clip:
            norm = float(torch.sqrt(sum((g**2).sum() for g in gs)))
            gs = [g * min(1.0, clip / (norm + 1e-6)) for g in gs]
            ctx.note("clipped", norm > clip)
        for p, g in zip(twin.parameters(), gs):
            p.grad = g
        o2.step()
        for a, b in zip(net.parameters(), twin.parameters()):
            ctx.close(a, b, "optimisation-step", f"{name} clip {clip} scale {sc}", rtol=1e-4, atol=1e-5)
        ctx.note("optim_steps")
    w = [p.detach().clone() for p in net.parameters()]
    ctx.raises(lambda: optim_step((net(torch.ones(1, d)) ** 2).sum(), o, max_grad_norm=0.5), ValueError, "clip-without-module", "")
    ctx.equal(list(net.parameters()), w, "stepped-on-bad-request", "")
    ctx.note("refused")
    ctx.sig(name, sd, clip, d)


class Boom(Exception):
    pass


def s_modes(ctx, rng):
    pol = RandomActionPolicy(action_space=gym.spaces.Discrete(2))
    pol.sub = nn.Sequential(nn.Dropout(0.5), nn.Linear(1, 1))
    pol.train(bool(rng.random() < 0.5))
    pol.is_within_training_step = bool(rng.random() < 0.3)

    def state():
        ms = [m.training for m in pol.modules()]
        return ms, pol.is_within_training_step

    def nest(depth, mode, within):
        before = state()
        ctx.equal(before, ([mode] * len(before[0]), within), "mode", f"depth {depth}")
        if depth == 0:
            return
        kind, on = pick(rng, ["train", "within"]), bool(rng.random() < 0.5)
        boom = rng.random() < 0.35
        use_default = rng.random() < 0.3
        on = on or use_default
        args = () if use_default else (on,)
        cm = torch_train_mode(pol, *args) if kind == "train" else policy_within_training_step(pol, *args)
        try:
            with cm:
                nest(depth - 1, on if kind == "train" else mode, on if kind == "within" else within)
                if boom:
                    raise Boom
        except Boom:
            ctx.note("exceptions")
        else:
            ctx.check(not boom, "exception-swallowed", kind)
        ctx.equal(state(), before, "mode-not-restored", f"{kind}={on} boom {boom}")
        ctx.note("switches")
        if rng.random() < 0.4:
            nest(depth - 1, mode, within)

    nest(int(rng.integers(1, 6)), pol.training, pol.is_within_training_step)
    # an exception inside reaches the caller
    for cm in (torch_train_mode(pol, False), policy_within_training_step(pol, True)):
        def run():
            with cm:
                raise Boom

        ctx.raises(run, Boom, "exception-swallowed", "")
        ctx.note("exceptions")
    ctx.sig(state(), int(rng.integers(10**9)))


def s_spaces(ctx, rng):
    def box():
        shape = tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(1, 4))))
        lo = rng.uniform(-5, 1, size=shape).astype(np.float32)
        return gym.spaces.Box(lo, (lo + rng.uniform(0.1, 4, size=shape)).astype(np.float32))

    def disc():
        return gym.spaces.Discrete(int(rng.integers(1, 9)), start=int(pick(rng, [0, 0, 3, -2])))

    a, o = pick(rng, [box, disc])(), pick(rng, [box, disc])()
    info = SpaceInfo.from_spaces(a, o)

    class Env:
        action_space, observation_space = a, o

    for i in (info, SpaceInfo.from_env(Env), SpaceInfo(action_info=ActionSpaceInfo.from_space(a), observation_info=ObservationSpaceInfo.from_space(o))):
        if isinstance(a, gym.spaces.Box):
            want = (a.shape, float(a.low.min()), float(a.high.max()), int(np.prod(a.shape)))
        else:
            want = (int(a.n), float(a.start), float(a.start + a.n - 1), int(a.n))
        g = i.action_info
        ctx.equal((g.action_shape, g.min_action, g.max_action, g.action_dim), want, "action-space-info", str(a))
        g = i.observation_info
        want = (o.shape, int(np.prod(o.shape))) if isinstance(o, gym.spaces.Box) else (int(o.n), int(o.n))
        ctx.equal((g.obs_shape, g.obs_dim), want, "observation-space-info", str(o))
        ctx.note("spaces")
    for _ in range(20):
        v = np.asarray(a.sample(), float)
        ctx.check(v.min() >= info.action_info.min_action - 1e-6 and v.max() <= info.action_info.max_action + 1e-6, "bounds-do-not-hold", str(a))
    for bad in (gym.spaces.MultiBinary(3), gym.spaces.MultiDiscrete([2, 3]), gym.spaces.Dict({"a": gym.spaces.Discrete(2)})):
        ctx.raises(lambda: ActionSpaceInfo.from_space(bad), ValueError, "unsupported-space-accepted", str(bad))
        ctx.raises(lambda: ObservationSpaceInfo.from_space(bad), ValueError, "unsupported-space-accepted", str(bad))
        ctx.raises(lambda: create_uniform_action_dist(bad), ValueError, "unsupported-space-accepted", str(bad))
        ctx.note("refused")
    # uniform distributions over actions
    sp = gym.spaces.Discrete(int(rng.integers(1, 7))) if rng.random() < 0.4 else box()
    B = int(rng.integers(1, 7))
    torch.manual_seed(int(rng.integers(2**31)))
    d = create_uniform_action_dist(sp, B)
    s = d.sample((400,)).numpy()
    what = f"{sp} x{B}"
    ctx.equal(s.shape, (400, B, *sp.shape), "sample-shape", what)
    if isinstance(sp, gym.spaces.Discrete):
        c = np.bincount(s.reshape(-1), minlength=int(sp.n))
        p, N = 1 / int(sp.n), 400 * B
        ctx.check(len(c) == sp.n and np.abs(c - N * p).max() <= 6.5 * np.sqrt(N * p * (1 - p)) + 1e-9, "not-uniform", f"{what} {c}")
    else:
        u = (s - sp.low) / (sp.high - sp.low)
        ctx.check(u.min() >= -1e-6 and u.max() <= 1 + 1e-6, "outside-space", what)
        u = u.reshape(400, -1)
        ctx.check((np.abs(u.mean(0) - 0.5) < 6.5 * np.sqrt(1 / 12 / 400)).all(), "not-uniform", what)
        ctx.check((np.abs((u**2).mean(0) - 1 / 3) < 6.5 * np.sqrt(4 / 45 / 400)).all(), "not-uniform", what)
    ctx.note("dists")
    ctx.sig(str(a), str(o), what)


@dataclass
class Rec(DataclassPPrintMixin):
    alpha: float
    beta: str
    gamma: dict


def s_small(ctx, rng):
    x = float(rng.normal())
    ctx.close(to_optional_float(torch.tensor(x)), x, "optional-float", "", rtol=1e-6)
    ctx.check(to_optional_float(None) is None and to_optional_float(x) == x and isinstance(to_optional_float(torch.tensor([x])), float), "optional-float", "")
    p = int(rng.integers(0, 6))
    d = {"a": x, "b": 3, "c": "s", "d": {"e": x}, "f": None, "g": -x * 100}
    keep = copy.deepcopy(d)
    got = set_numerical_fields_to_precision(d, p)
    ctx.equal(d, keep, "input-modified", "")
    ctx.equal(got, {**d, "a": round(x, p), "g": round(-x * 100, p)}, "rounded-fields", f"precision {p}")
    r = Rec(x, "text", {"k": [1, 2]})
    ex = [str(v) for v in rng.permutation(["alpha", "beta", "gamma", "nope"])[: int(rng.integers(0, 4))]]
    s = r.pprints_asdict(exclude_fields=ex, indent=2)
    for f in ("alpha", "beta", "gamma"):
        ctx.check((f"'{f}'" in s) == (f not in ex), "printed-fields", f"{ex}: {s}")
    ctx.equal((r.alpha, r.beta, r.gamma), (x, "text", {"k": [1, 2]}), "input-modified", "")
    with DummyTqdm(total=10, desc="x") as t:
        tot = 0
        for _ in range(5):
            k = int(rng.integers(0, 9))
            t.update(k)
            tot += k
        t.update()
        t.set_postfix(a=1)
    ctx.equal((t.n, t.total), (tot + 1, 10), "progress", "")
    ctx.equal(pickle.loads(pickle.dumps(r)), r, "pickle", "")
    ctx.sig(x)


SCENARIOS = [
    Scenario("schedules", s_schedules, 160, 2500),
    Scenario("clone", s_clone, 120, 2500),
    Scenario("step", s_step, 140, 2500),
    Scenario("modes", s_modes, 150, 2500),
    Scenario("spaces", s_spaces, 140, 2500),
    Scenario("small", s_small, 40, 400),
]
