"""High-level experiments: every configured option reaches the agent, its networks, optimizers, buffers and trainer."""
import copy
import dataclasses
import os
import sys
import types

import numpy as np
import tianshou.policy as TP
import torch
from tianshou.data import Batch, Collector, ReplayBuffer, VectorReplayBuffer
from tianshou.exploration import GaussianNoise, OUNoise
from tianshou.highlevel.env import (
    ContinuousEnvironments,
    DiscreteEnvironments,
    EnvFactory,
    EnvFactoryRegistered,
    EnvMode,
    Environments,
    EnvPoolFactory,
    EnvType,
    VectorEnvType,
)
from tianshou.highlevel.experiment import ExperimentConfig
from tianshou.highlevel.module.actor import (
    ActorFactoryContinuousDeterministicNet,
    ActorFactoryDefault,
    ContinuousActorType,
    IntermediateModuleFactoryFromActorFactory,
    ActorFactoryContinuousGaussianNet,
    ActorFactoryDiscreteNet,
)
from tianshou.highlevel.module.critic import CriticEnsembleFactoryContinuousNet, CriticFactoryContinuousNet, CriticFactoryDiscreteNet
from tianshou.highlevel.module.intermediate import IntermediateModule, IntermediateModuleFactory
from tianshou.highlevel.optim import OptimizerFactoryAdam, OptimizerFactoryRMSprop, OptimizerFactoryTorch
from tianshou.highlevel.params.alpha import AutoAlphaFactoryDefault
from tianshou.highlevel.params.dist_fn import DistributionFunctionFactoryCategorical, DistributionFunctionFactoryIndependentGaussians
from tianshou.highlevel.params.env_param import MaxActionScaled
from tianshou.highlevel.params.lr_scheduler import LRSchedulerFactory, LRSchedulerFactoryLinear
from tianshou.highlevel.params.noise import MaxActionScaledGaussian
from tianshou.highlevel.params.policy_wrapper import PolicyWrapperFactoryIntrinsicCuriosity
from tianshou.trainer import OffpolicyTrainer, OnpolicyTrainer
from tianshou.utils.net.common import BaseActor
from torch import nn
from vlib import hl
from vlib.core import Scenario
from vlib.hl import ALGOS, LOG, layers, pick, spy

RULE = (
    "experiments of every algorithm with randomly drawn options for parameters, optimizers, schedules, networks, sampling and environments; "
    "the constructed policy, networks, optimizers, schedulers, collectors, buffers and trainers are compared with the options; distinct = algorithm/options"
)
MIN = {"agents": 150, "params": 1500, "optimizers": 200, "schedules": 60, "networks": 300, "reused_actor": 15, "buffers": 100, "trainers": 150,
       "forwards": 150, "wrapped": 5, "configs": 100, "linear_decay": 30, "env_makes": 200, "venvs": 50, "pools": 15}


class Halve(LRSchedulerFactory):
    def create_scheduler(self, optim):
        return torch.optim.lr_scheduler.LambdaLR(optim, lr_lambda=lambda k: 0.5**k)


class Features(IntermediateModuleFactory):
    def create_intermediate_module(self, envs, device):
        return IntermediateModule(nn.Sequential(nn.Linear(int(np.prod(envs.get_observation_shape())), 6), nn.Tanh()), 6)


def preprocess(hidden, activation):
    return IntermediateModuleFactoryFromActorFactory(
        ActorFactoryDefault(ContinuousActorType.UNSUPPORTED, hidden_sizes=hidden, hidden_activation=activation, discrete_softmax=False),
    )


def u(rng, a, b):
    return float(rng.uniform(a, b))


def draw_param(rng, f, sc, kind):
    """A value for the parameter and what the policy has to be given for it (None, value) or a kind to be checked apart."""
    n = f.name
    if n.endswith("lr_scheduler_factory"):
        return pick(rng, [None, Halve(), LRSchedulerFactoryLinear(sc) if sc.step_per_collect else None])
    if n.endswith("lr"):
        return u(rng, 1e-4, 1e-2)
    if n == "action_scaling":
        return pick(rng, ["default", True, False] if kind == "b" else ["default", False])
    if n == "action_bound_method":
        return pick(rng, ["clip", None])
    if n == "exploration_noise":
        return pick(rng, [None, "default", GaussianNoise(0.1, u(rng, 0.1, 1)), OUNoise(0.1, 0.3), MaxActionScaledGaussian(u(rng, 0.05, 0.9))])
    if n == "alpha":
        return pick(rng, [u(rng, 0.01, 0.9), AutoAlphaFactoryDefault(lr=u(rng, 1e-4, 1e-2))])
    if n in ("policy_noise", "noise_clip"):
        return pick(rng, [u(rng, 0.01, 0.9), MaxActionScaled(u(rng, 0.05, 0.9))])
    if n == "target_mode":
        return pick(rng, ["mean", "min"])
    if n == "dual_clip":
        return pick(rng, [None, u(rng, 1.5, 5)])
    if n == "max_grad_norm":
        return pick(rng, [None, u(rng, 0.1, 3)])
    if n == "hidden_sizes":
        return pick(rng, [(), (5,), (4, 3)])
    if n == "subset_size":
        return int(rng.integers(1, 3))
    if n == "ensemble_size":
        return int(rng.integers(2, 5))
    if f.type in ("bool", bool) or isinstance(f.default, bool):
        return bool(rng.random() < 0.5)
    if isinstance(f.default, int):
        return int(rng.integers(2, 9))
    if isinstance(f.default, float):
        return pick(rng, [u(rng, 0.05, 0.95)] * 4 + [0.999, 1.0])
    raise AssertionError(f"unknown parameter {n}")


def draw_optim(rng):
    k = pick(rng, ["none", "default", "adam", "rms", "sgd"])
    if k == "none":
        return None, torch.optim.Adam, {"betas": (0.9, 0.999), "eps": 1e-8, "weight_decay": 0}
    o = {"eps": u(rng, 1e-9, 1e-5), "weight_decay": pick(rng, [0, u(rng, 0, 0.1)])}
    if k in ("default", "adam"):
        o["betas"] = (u(rng, 0.5, 0.9), u(rng, 0.9, 0.999))
        return (o if k == "default" else OptimizerFactoryAdam(**o)), torch.optim.Adam, o
    if k == "rms":
        o.update(alpha=u(rng, 0.5, 0.99), momentum=u(rng, 0, 0.9), centered=bool(rng.random() < 0.5))
        return OptimizerFactoryRMSprop(**o), torch.optim.RMSprop, o
    o = {"momentum": u(rng, 0, 0.9), "weight_decay": u(rng, 0, 0.1)}
    return OptimizerFactoryTorch(torch.optim.SGD, **o), torch.optim.SGD, o


def check_optim(ctx, optim, lr, cls, opts, mods, msg):
    ctx.equal(type(optim), cls, "optim-class", msg)
    want = {id(p) for m in mods for p in (m.parameters() if isinstance(m, nn.Module) else [m])}
    got = [id(p) for g in optim.param_groups for p in g["params"]]
    ctx.check(len(got) == len(set(got)) and set(got) == want, "optim-params", lambda: f"{msg}: optimizer covers {len(got)} of {len(want)} parameters")
    for g in optim.param_groups:
        ctx.close(g["lr"], lr, "optim-lr", msg, rtol=1e-9)
        for k, v in opts.items():
            ctx.equal(g[k], v, "optim-option", f"{msg} {k}")
    ctx.note("optimizers")


ACT = [nn.Tanh, nn.ReLU, nn.Sigmoid, nn.ELU]


def count(m, cls):
    return sum(1 for x in m.modules() if type(x) is cls)


def last_linear(m):
    return [x for x in m.modules() if isinstance(x, nn.Linear)][-1]


def case_agent(ctx, rng):
    LOG.clear()
    algo = pick(rng, [a for a in ALGOS if a != "random"] + ["random"] * (rng.random() < 0.3))
    bcls, setter, pcls, polname, kinds, fam = ALGOS[algo]
    kind = pick(rng, kinds)
    n_act, n_obs, high = int(rng.integers(2, 5)), int(rng.integers(2, 5)), tuple([u(rng, 0.5, 3)] * int(rng.integers(1, 3)))
    envkw = {"act": "disc" if kind == "d" else "box", "n": n_act, "obs": n_obs, "high": high}
    a_dim = n_act if kind == "d" else len(high)
    sc = hl.sampling(rng, replay_buffer_ignore_obs_next=bool(rng.random() < 0.5), replay_buffer_stack_num=int(rng.integers(1, 4)),
                     replay_buffer_save_only_last_obs=bool(rng.random() < 0.3))
    watch = bool(rng.random() < 0.5)
    reg = rng.random() < 0.6
    seeds = (int(rng.integers(1000)), int(rng.integers(1000, 2000)))
    fac = hl.registered(*seeds, **envkw) if reg else hl.OwnFactory(**envkw)
    cfg = ExperimentConfig(persistence_enabled=False, watch=watch, seed=int(rng.integers(1000)), device="cpu", train=True)
    b = bcls(fac, cfg, sc)
    params = None
    given = {}
    if pcls is not None and rng.random() < 0.85:
        given = {f.name: draw_param(rng, f, sc, kind) for f in dataclasses.fields(pcls) if f.init and rng.random() < 0.8}
        if given.get("reward_normalization") and algo in ("dqn", "iqn"):
            given["estimation_step"] = 1
        params = pcls(**given)
        ctx.check(getattr(b, setter)(params) is b, "builder-chain", setter)
    elif pcls is not None:
        params = pcls()
    before = {f.name: copy.deepcopy(getattr(params, f.name)) for f in dataclasses.fields(pcls)} if params else {}
    fo, ocls, oopts = draw_optim(rng)
    if isinstance(fo, dict):
        b.with_optim_factory_default(**fo)
    elif fo is not None:
        b.with_optim_factory(fo)
    # networks -------------------------------------------------------------------------------------------
    net = {"actor": ((64, 64), nn.ReLU), "critics": [((64, 64), nn.ReLU)] * 2, "unbounded": False, "sigma": False, "reuse": [False, False]}
    hidden = lambda: tuple(int(x) for x in rng.integers(2, 8, size=int(rng.integers(1, 3))))  # noqa: E731
    is_ac = algo in ("a2c", "ppo", "npg", "trpo", "ddpg")
    dual = algo in ("sac", "dsac", "td3")
    own_actor = False
    if algo in ("dqn",) and rng.random() < 0.7:
        net["actor"] = (hidden(), pick(rng, ACT))
        if rng.random() < 0.4:
            b.with_model_factory(preprocess(*net["actor"]))
        else:
            b.with_model_factory_default(*net["actor"])
    elif algo == "iqn" and rng.random() < 0.5:
        net["actor"] = (hidden(), pick(rng, ACT))
        b.with_preprocess_network_factory(preprocess(*net["actor"]))
    elif algo not in ("dqn", "iqn", "random") and rng.random() < 0.7:
        net["actor"] = (hidden(), pick(rng, ACT))
        kw = {}
        if algo in ("pg", "a2c", "ppo", "npg", "trpo", "sac", "redq"):
            kw = {"continuous_unbounded": bool(rng.random() < 0.5), "continuous_conditioned_sigma": bool(rng.random() < 0.5)}
            net["unbounded"], net["sigma"] = kw["continuous_unbounded"], kw["continuous_conditioned_sigma"]
        if rng.random() < 0.3:  # the user's own choice of factory
            own_actor = True
            h, a = net["actor"]
            if kind == "d":
                f = ActorFactoryDiscreteNet(h, softmax_output=algo != "dsac", activation=a)
            elif algo in ("ddpg", "td3"):
                f = ActorFactoryContinuousDeterministicNet(h, a)
            else:
                f = ActorFactoryContinuousGaussianNet(h, unbounded=net["unbounded"], conditioned_sigma=net["sigma"], activation=a)
            b.with_actor_factory(f)
        else:
            b.with_actor_factory_default(net["actor"][0], net["actor"][1], **kw)
    r = rng.random()
    if is_ac:
        if r < 0.35:
            net["critics"][0] = (hidden(), pick(rng, ACT))
            b.with_critic_factory_default(*net["critics"][0])
        elif r < 0.5:
            net["critics"][0] = (hidden(), pick(rng, ACT))
            b.with_critic_factory((CriticFactoryDiscreteNet if kind == "d" else CriticFactoryContinuousNet)(net["critics"][0][0], activation=net["critics"][0][1]))
        elif r < 0.75:
            net["reuse"][0] = True
            b.with_critic_factory_use_actor()
    elif dual:
        own = rng.random() < 0.4
        cf = lambda c: (CriticFactoryDiscreteNet if kind == "d" else CriticFactoryContinuousNet)(c[0], activation=c[1])  # noqa: E731
        if r < 0.25:
            net["critics"] = [(hidden(), pick(rng, ACT))] * 2
            if own:
                b.with_common_critic_factory(cf(net["critics"][0]))
            else:
                b.with_common_critic_factory_default(*net["critics"][0])
        elif r < 0.5:
            net["critics"] = [(hidden(), pick(rng, ACT)), (hidden(), pick(rng, ACT))]
            if own:
                b.with_critic1_factory(cf(net["critics"][0])).with_critic2_factory(cf(net["critics"][1]))
            else:
                b.with_critic1_factory_default(*net["critics"][0]).with_critic2_factory_default(*net["critics"][1])
        elif r < 0.75:
            which = int(rng.integers(3))
            net["reuse"] = [which in (0, 2), which in (1, 2)]
            (b.with_critic1_factory_use_actor, b.with_critic2_factory_use_actor, b.with_common_critic_factory_use_actor)[which]()
    elif algo == "redq":
        if r < 0.5:
            net["critics"] = [(hidden(), nn.Tanh)]
            if r < 0.25:
                b.with_critic_ensemble_factory_default(net["critics"][0][0])
            else:
                b.with_critic_ensemble_factory(CriticEnsembleFactoryContinuousNet(net["critics"][0][0]))
        else:
            net["critics"] = [((64, 64), nn.Tanh)]
    wrap = None
    if algo in ("dqn", "pg", "a2c", "ppo") and kind == "d" and rng.random() < 0.25:
        wrap = {"hidden_sizes": hidden(), "lr": u(rng, 1e-4, 1e-2), "lr_scale": u(rng, 0.1, 2), "reward_scale": u(rng, 0.01, 1), "forward_loss_weight": u(rng, 0.1, 0.9)}
        b.with_policy_wrapper_factory(PolicyWrapperFactoryIntrinsicCuriosity(feature_net_factory=Features(), **wrap))
    ctx.trace.append((algo, kind, envkw, given, net, wrap, dataclasses.asdict(sc)))
    ctx.sample({"algo": algo, "space": kind, "params": repr(given)[:300], "networks": repr(net), "sampling": repr(sc)[:300]})
    # build ----------------------------------------------------------------------------------------------
    exp = b.build()
    pol_cls = getattr(TP, polname, None) or __import__("tianshou.policy.base", fromlist=[polname]).RandomActionPolicy
    trainer_cls = OnpolicyTrainer if fam == "on" else OffpolicyTrainer
    with spy(pol_cls) as made, spy(trainer_cls) as trainers, spy(Collector) as cols:
        world = exp.create_experiment_world()
    ctx.note("agents")
    ctx.sig(algo, kind, tuple(sorted(given)), str(net), ocls.__name__, bool(wrap))
    ctx.equal(len(made), 1, "policy-made", algo)
    pol, args = made[0]["self"], made[0]["args"]
    ctx.check(type(pol) is pol_cls, "policy-class", lambda: f"{type(pol)}")
    envs = world.envs
    # parameters -----------------------------------------------------------------------------------------
    max_action = high[0]
    for name, val in before.items():
        if name.endswith("lr") or name.endswith("lr_scheduler_factory") or name in ("hidden_sizes", "num_cosines"):
            ctx.check(name not in args, "param-leftover", name)
            continue
        ctx.check(name in args, "param-missing", lambda name=name: f"{algo}: {name} not given to the policy")
        got = args[name]
        ctx.note("params")
        if name == "action_scaling":
            ctx.equal(got, (kind == "b") if val == "default" else val, "param-value", f"{algo} {name}")
        elif name == "alpha" and not isinstance(val, float):
            ctx.check(isinstance(got, tuple) and len(got) == 3, "auto-alpha", lambda: f"{got}")
            ctx.equal(float(got[0]), float(-a_dim), "auto-alpha-target", algo)
            ctx.check(torch.equal(got[1].detach(), torch.zeros(1)) and got[1].requires_grad, "auto-alpha-start", algo)
            check_optim(ctx, got[2], val.lr, ocls, oopts, [got[1]], f"{algo} alpha")
        elif name in ("policy_noise", "noise_clip") and not isinstance(val, float):
            ctx.close(got, val.value * max_action, "param-value", f"{algo} {name}")
        elif name == "exploration_noise" and val is not None and not isinstance(val, str):
            g = val if not isinstance(val, MaxActionScaledGaussian) else GaussianNoise(0.0, val.std_fraction * max_action)
            ctx.equal(type(got), type(g), "noise-class", algo)
            seed = int(rng.integers(1000))
            draws = []
            for z in (got, g):
                np.random.seed(seed)
                z = copy.deepcopy(z)
                z.reset()
                draws.append(np.array([z((3,)) for _ in range(3)]))
            ctx.close(draws[0], draws[1], "noise-values", f"{algo}")
        else:
            ctx.equal(got, val, "param-value", f"{algo} {name}")
    if params is not None:
        for f in dataclasses.fields(pcls):
            if isinstance(before[f.name], (int, float, str, tuple, type(None))):
                ctx.equal(getattr(params, f.name), before[f.name], "params-modified", f.name)
    ctx.check(args["action_space"] == envs.env.action_space, "policy-action-space", algo)
    if args.get("observation_space") is not None:
        ctx.check(args["observation_space"] == envs.env.observation_space, "policy-observation-space", algo)
    # networks -------------------------------------------------------------------------------------------
    P = {k: v for k, v in before.items()}
    if algo != "random":
        check_networks(ctx, rng, algo, kind, net, args, pol, P, n_obs, a_dim, own_actor)
        check_optims(ctx, algo, args, P, ocls, oopts, sc)
        check_critics(ctx, algo, args, n_obs, a_dim)
        check_forward(ctx, rng, algo, kind, pol, n_obs, n_act, net)
    # wrapper --------------------------------------------------------------------------------------------
    if wrap is None:
        ctx.check(world.policy is pol, "world-policy", algo)
    else:
        w = world.policy
        ctx.check(isinstance(w, TP.ICMPolicy) and w.policy is pol, "wrapper", lambda: f"{type(w)}")
        for k in ("lr_scale", "reward_scale", "forward_loss_weight"):
            ctx.equal(getattr(w, k), wrap[k], "wrapper-option", k)
        check_optim(ctx, w.optim, wrap["lr"], ocls, oopts, [w.model], "icm")
        hs = list(wrap["hidden_sizes"])
        dims = [x for x in layers(w.model) if x != (n_obs, 6) or hs == [6] and False]
        for first, last in ((6 + n_act, 6), (12, n_act)):
            seq = [first, *hs, last]
            ctx.check(all(p in layers(w.model) for p in zip(seq[:-1], seq[1:], strict=True)), "wrapper-hidden", lambda seq=seq: f"{seq} not in {dims}")
        ctx.note("wrapped")
    # environments, collectors, buffers, trainer ---------------------------------------------------------
    check_envs(ctx, envs, sc, watch, reg, seeds, kind, n_act, n_obs, high)
    check_sampling(ctx, world, sc, cols, trainers, fam, algo)


def check_networks(ctx, rng, algo, kind, net, args, pol, P, n_obs, a_dim, own_actor):
    h, act = net["actor"]
    ctx.note("networks")
    if algo == "iqn":
        m = args["model"]
        ls = layers(m)
        seq = [n_obs, *h, a_dim]
        ctx.check(count(m, act) >= len(h), "iqn-activation", lambda: f"wanted {act}: {m}")
        ctx.check(all(p in ls for p in zip(seq[:-1], seq[1:], strict=True)), "iqn-preprocess", lambda: f"{ls}")
        ctx.check((P["num_cosines"], a_dim) in ls, "iqn-cosines", lambda: f"{P['num_cosines']} -> {a_dim} not in {ls}")
        seq = [a_dim, *P["hidden_sizes"], a_dim]
        ctx.check(all(p in ls for p in zip(seq[:-1], seq[1:], strict=True)), "iqn-hidden", lambda: f"{seq} not in {ls}")
        return
    actor = args["model"] if algo == "dqn" else args["actor"]
    seq = [n_obs, *h, a_dim]
    want = list(zip(seq[:-1], seq[1:], strict=True))
    if net["sigma"] and kind == "b":
        want.append((h[-1], a_dim))
    ctx.equal(sorted(layers(actor)), sorted(want), "actor-layers", f"{algo}")
    ctx.check(count(actor, act) == len(h) and not any(count(actor, c) for c in ACT if c is not act), "actor-activation", lambda: f"{algo}: wanted {len(h)} x {act}: {actor}")
    if algo in ("dqn", "pg"):
        return
    for i, name in enumerate(["critic", "critic2"]):
        if name not in args or (name == "critic2" and args[name] is None):
            continue
        c = args[name]
        with_act = algo in ("ddpg", "redq", "sac", "td3")
        out = a_dim if algo == "dsac" else 1
        if net["reuse"][i]:
            ap = {id(p) for p in actor.get_preprocess_net().parameters()}
            cp = {id(p) for p in c.parameters()}
            ctx.check(ap <= cp and len(ap) > 0, "critic-reuse", lambda: f"{algo} {name} does not share the actor's preprocessing")
            ctx.equal(sorted(layers(c)), sorted(list(zip([n_obs, *h][:-1], [n_obs, *h][1:], strict=True)) + [(h[-1] + (a_dim if with_act else 0), out)]), "critic-layers", f"{algo} {name}")
            ctx.note("reused_actor")
            continue
        ch, cact = net["critics"][i]
        seq = [n_obs + (a_dim if with_act else 0), *ch, out]
        ctx.equal(sorted(layers(c)), sorted(zip(seq[:-1], seq[1:], strict=True)), "critic-layers", f"{algo} {name}")
        ctx.check(count(c, cact) == len(ch) and not any(count(c, z) for z in ACT if z is not cact), "critic-activation", lambda: f"{algo}: {cact}: {c}")
        ctx.check(not ({id(p) for p in actor.parameters()} & {id(p) for p in c.parameters()}), "critic-shares", f"{algo} {name}")
        if algo == "redq":
            ctx.check(all(m.weight.shape[0] == P["ensemble_size"] for m in c.modules() if type(m).__name__ == "EnsembleLinear"), "ensemble-size", algo)
        ctx.note("networks")
    if args.get("critic2") is not None:
        a, b = ({id(p) for p in args[k].parameters()} for k in ("critic", "critic2"))
        shared = {id(p) for p in actor.get_preprocess_net().parameters()} if all(net["reuse"]) else set()
        ctx.check(a & b == shared, "critics-independent", algo)


def check_optims(ctx, algo, args, P, ocls, oopts, sc):
    pairs = []  # optimizer, learning rate, schedule, modules
    if algo in ("dqn", "iqn"):
        pairs.append((args["optim"], P["lr"], P["lr_scheduler_factory"], [args["model"]]))
    elif algo == "pg":
        pairs.append((args["optim"], P["lr"], P["lr_scheduler_factory"], [args["actor"]]))
    elif algo in ("a2c", "ppo", "npg", "trpo"):
        pairs.append((args["optim"], P["lr"], P["lr_scheduler_factory"], [args["actor"], args["critic"]]))
    else:
        pairs.append((args["actor_optim"], P["actor_lr"], P["actor_lr_scheduler_factory"], [args["actor"]]))
        one = algo in ("ddpg", "redq")
        pairs.append((args["critic_optim"], P["critic_lr" if one else "critic1_lr"], P[f"critic{'' if one else 1}_lr_scheduler_factory"], [args["critic"]]))
        if not one:
            pairs.append((args["critic2_optim"], P["critic2_lr"], P["critic2_lr_scheduler_factory"], [args["critic2"]]))
    for k, (o, lr, _, mods) in enumerate(pairs):
        check_optim(ctx, o, lr, ocls, oopts, mods, f"{algo} optimizer {k}")
    sched = args.get("lr_scheduler")
    if all(s is None for _, _, s, _ in pairs):
        ctx.check(sched is None, "schedule-unwanted", algo)
        return
    ctx.check(sched is not None, "schedule-missing", algo)
    ctx.note("schedules")
    total = int(np.ceil(sc.step_per_epoch / sc.step_per_collect)) * sc.num_epochs if sc.step_per_collect else None
    for o, *_ in pairs:
        o._opt_called = True  # silence the order warning of torch
    for step in range(1, 4):
        sched.step()
        for k, (o, lr, s, _) in enumerate(pairs):
            f = 1.0 if s is None else (0.5**step if isinstance(s, Halve) else max(0.0, 1 - step / total))
            ctx.close(o.param_groups[0]["lr"], lr * f, "schedule-value", f"{algo} optimizer {k} after {step} steps", rtol=1e-6, atol=1e-12)


def check_forward(ctx, rng, algo, kind, pol, n_obs, n_act, net):
    """The policy reads the network's outputs as what the network was built to produce."""
    if algo == "iqn":
        return
    actor = pol.model if algo == "dqn" else pol.actor
    with torch.no_grad():  # outputs far from uniform
        if not (net["sigma"] and kind == "b"):
            last_linear(actor).weight.mul_(20)
    seen = []
    lins = [m for m in actor.modules() if isinstance(m, nn.Linear) and m.out_features == (n_act if kind == "d" else m.out_features)]
    h = lins[-1].register_forward_hook(lambda m, i, o: seen.append(o.detach().numpy().astype(float)))
    obs = rng.normal(size=(5, n_obs)).astype(np.float32) * 3
    batch = Batch(obs=obs, info=Batch())
    pol.eval()
    try:
        with torch.no_grad():
            out = pol(batch)
    finally:
        h.remove()
    raw = seen[0]
    logp = raw - raw.max(1, keepdims=True)
    logp = logp - np.log(np.exp(logp).sum(1, keepdims=True))
    ctx.note("forwards")
    if algo == "dqn":
        ctx.close(out.logits.numpy(), raw, "q-values", "DQN's values are not the model's raw outputs", rtol=1e-4, atol=1e-4)
    elif kind == "d":
        ctx.close(np.clip(out.dist.probs.numpy(), 1e-6, 1), np.clip(np.exp(logp), 1e-6, 1), "discrete-distribution",
                  f"{algo}: distribution is not the softmax of the actor's last layer", rtol=1e-3, atol=1e-5)
    elif algo in ("pg", "a2c", "ppo", "npg", "trpo"):
        d = out.dist
        ctx.equal((tuple(d.batch_shape), tuple(d.event_shape)), ((5,), (pol.action_space.shape[0],)), "gaussian-shape", algo)
        big = np.abs(d.mean.numpy()).max() > 1
        if not net["unbounded"]:
            ctx.check(not big, "bounded-mean", lambda: f"{algo} mean {d.mean}")
        elif not net["sigma"]:
            ctx.close(d.mean.numpy(), raw, "unbounded-mean", algo, rtol=1e-4, atol=1e-4)
        if net["sigma"]:
            ctx.close(d.stddev.numpy(), np.exp(np.clip(raw, -20, 2)), "conditioned-sigma", algo, rtol=1e-4, atol=1e-6)
        else:
            ctx.check(np.ptp(d.stddev.numpy(), axis=0).max() == 0, "constant-sigma", algo)


def check_critics(ctx, algo, args, n_obs, a_dim):
    for name in ("critic", "critic2"):
        c = args.get(name)
        if c is None:
            continue
        obs, act = torch.randn(4, n_obs), torch.randn(4, a_dim)
        with torch.no_grad():
            q = c(obs, act) if algo in ("ddpg", "redq", "sac", "td3") else c(obs)
        want = {"dsac": (4, a_dim), "redq": (args.get("ensemble_size"), 4, 1)}.get(algo, (4, 1))
        ctx.equal(tuple(q.shape), want, "critic-output", f"{algo} {name}")
        if algo in ("ddpg", "redq", "sac", "td3"):
            with torch.no_grad():
                ctx.check(not torch.equal(q, c(obs, act + 1)) and not torch.equal(q, c(obs + 1, act)), "critic-inputs", f"{algo} {name}: output does not depend on both inputs")


def check_envs(ctx, envs, sc, watch, reg, seeds, kind, n_act, n_obs, high):
    made = [x for x in LOG if x[0] == "make"]
    ctx.note("env_makes", len(made))
    modes = {"train": "rgb_array", "test": "ansi", "watch": "human"}
    want = {"train": sc.num_train_envs + 1, "test": sc.num_test_envs, "watch": int(watch)}
    for m, k in want.items():
        got = sum(1 for x in made if (x[2] == modes[m] if reg else x[1] == m))
        ctx.equal(got, k, "env-count", f"{m} environments")
    ctx.equal(len(envs.train_envs), sc.num_train_envs, "train-envs")
    ctx.equal(len(envs.test_envs), sc.num_test_envs, "test-envs")
    ctx.check((envs.watch_env is not None) == watch and (not watch or len(envs.watch_env) == 1), "watch-env", f"{watch}")
    ctx.equal(envs.get_type(), EnvType.DISCRETE if kind == "d" else EnvType.CONTINUOUS, "env-type")
    ctx.equal(tuple(envs.get_observation_shape()), (n_obs,), "observation-shape")
    if kind == "d":
        ctx.equal(int(envs.get_action_shape()), n_act, "action-shape")
    else:
        ctx.equal(tuple(envs.get_action_shape()), (len(high),), "action-shape")
        ctx.close(float(envs.max_action), high[0], "max-action")
    if reg:
        got = {m: [x[3] for x in LOG if x[0] == "seed" and x[2] == modes[m]] for m in modes}
        ctx.equal(got["train"], [seeds[0] + i for i in range(sc.num_train_envs)], "train-seeds")
        ctx.equal(got["test"], [seeds[1] + i for i in range(sc.num_test_envs)], "test-seeds")


def check_sampling(ctx, world, sc, cols, trainers, fam, algo):
    tc, te = world.train_collector, world.test_collector
    ctx.check(tc.env is world.envs.train_envs and te.env is world.envs.test_envs, "collector-envs", algo)
    ctx.check(tc.policy is world.policy and te.policy is world.policy, "collector-policy", algo)
    noise = {id(c["self"]): c["args"]["exploration_noise"] for c in cols}
    ctx.check(noise[id(tc)] is True and noise[id(te)] is False, "exploration-noise", lambda: f"{noise}")
    buf = tc.buffer
    n = sc.num_train_envs
    ctx.check(type(buf) is (VectorReplayBuffer if n > 1 else ReplayBuffer), "buffer-class", lambda: f"{type(buf)}")
    ctx.equal(buf.maxsize, int(np.ceil(sc.buffer_size / n)) * n, "buffer-size")
    if n > 1:
        ctx.equal(buf.buffer_num, n, "buffer-num")
    for b in (buf.buffers if n > 1 else [buf]):
        ctx.equal(b.stack_num, sc.replay_buffer_stack_num, "stack-num")
        for k in ("ignore_obs_next", "save_only_last_obs"):
            v = b.options.get(k) if k in getattr(b, "options", {}) else getattr(b, k, None)
            ctx.equal(v, getattr(sc, f"replay_buffer_{k}"), k)
    ctx.note("buffers")
    ctx.equal(len(trainers), 1, "trainer-class", f"{algo}")
    t, a = trainers[0]["self"], trainers[0]["args"]
    ctx.check(world.trainer is t, "world-trainer")
    ctx.check(a["policy"] is world.policy and a["train_collector"] is tc and a["test_collector"] is te and a["logger"] is world.logger, "trainer-parts", algo)
    want = {"max_epoch": sc.num_epochs, "step_per_epoch": sc.step_per_epoch, "step_per_collect": sc.step_per_collect, "episode_per_collect": sc.episode_per_collect,
            "episode_per_test": sc.num_test_episodes, "batch_size": sc.batch_size, "test_in_train": False}
    if fam == "on":
        want["repeat_per_collect"] = sc.repeat_per_collect
    else:
        want["update_per_step"] = sc.update_per_step
    for k, v in want.items():
        ctx.equal(a.get(k), v, "trainer-option", f"{algo} {k}")
        ctx.equal(getattr(t, k), v, "trainer-option", f"{algo} {k}")
    ctx.note("trainers")


def case_config(ctx, rng):
    """Configuration objects: derived values, refused combinations, builder accessors."""
    import multiprocessing

    sc = hl.sampling(rng)
    ctx.equal(sc.test_seed, sc.train_seed + sc.num_train_envs, "test-seed")
    ctx.equal(hl.sampling(rng, num_train_envs=-1, step_per_collect=8, episode_per_collect=None).num_train_envs, multiprocessing.cpu_count(), "cpu-count")
    both = {"step_per_collect": 5, "episode_per_collect": 2}
    ctx.raises(lambda: hl.sampling(rng, **both), AssertionError, "both-collect-options", "both")
    ctx.raises(lambda: hl.sampling(rng, step_per_collect=None, episode_per_collect=None), AssertionError, "no-collect-option", "none")
    algo = pick(rng, list(ALGOS))
    bcls = ALGOS[algo][0]
    cfg = ExperimentConfig(persistence_enabled=False, watch=False, seed=int(rng.integers(99)))
    b = bcls(hl.OwnFactory(act="disc" if ALGOS[algo][4] != "b" else "box"), cfg, sc)
    ctx.check(b.experiment_config is cfg and b.sampling_config is sc, "builder-configs", algo)
    exp = b.with_name("abc").build()
    ctx.check(exp.config is cfg and exp.sampling_config is sc and exp.name == "abc", "experiment-configs", algo)
    want = f"exp_seed={cfg.seed}_train_seed={sc.train_seed}_test_seed={sc.test_seed}"
    ctx.equal(exp.get_seeding_info_as_str(), want, "seeding-info")
    # algorithms refuse spaces they do not support
    wrong = {"d": "box", "b": "disc"}.get(ALGOS[algo][4])
    if wrong:
        e2 = bcls(hl.OwnFactory(act=wrong), cfg, sc).build()
        ctx.raises(e2.create_experiment_world, Exception, "unsupported-space", f"{algo} with {wrong}") if algo in ("dqn", "iqn", "redq", "dsac") else None
    # schedules
    sc = hl.sampling(rng, step_per_collect=int(rng.integers(2, 12)), episode_per_collect=None)
    lr = u(rng, 1e-4, 1e-1)
    opt = torch.optim.SGD([torch.zeros(1, requires_grad=True)], lr=lr)
    s = LRSchedulerFactoryLinear(sc).create_scheduler(opt)
    total = int(np.ceil(sc.step_per_epoch / sc.step_per_collect)) * sc.num_epochs
    for k in range(total + 4):
        ctx.close(opt.param_groups[0]["lr"], lr * max(0.0, 1 - k / total), "linear-decay", f"after {k} of {total} updates", rtol=1e-6, atol=1e-12)
        opt.step()
        s.step()
        ctx.note("linear_decay")
    # distribution functions
    envs_d = hl.OwnFactory(act="disc", n=4).create_envs(1, 1)
    envs_b = hl.OwnFactory(act="box").create_envs(1, 1)
    x = torch.tensor(rng.uniform(0.1, 1, size=(3, 4)), dtype=torch.float32)
    ctx.close(DistributionFunctionFactoryCategorical(True).create_dist_fn(envs_d)(x).probs, x / x.sum(1, keepdim=True), "dist-probs")
    ctx.close(DistributionFunctionFactoryCategorical(False).create_dist_fn(envs_d)(x).probs, torch.softmax(x, 1), "dist-logits")
    loc, scale = torch.randn(3, 2), torch.rand(3, 2) + 0.1
    d = DistributionFunctionFactoryIndependentGaussians().create_dist_fn(envs_b)((loc, scale))
    a = torch.randn(3, 2)
    want = (-0.5 * ((a - loc) / scale) ** 2 - torch.log(scale) - 0.5 * np.log(2 * np.pi)).sum(1)
    ctx.close(d.log_prob(a), want, "dist-gaussian", rtol=1e-4, atol=1e-5)
    ctx.raises(lambda: DistributionFunctionFactoryCategorical().create_dist_fn(envs_b), AssertionError, "dist-needs-discrete")
    ctx.raises(lambda: DistributionFunctionFactoryIndependentGaussians().create_dist_fn(envs_d), AssertionError, "dist-needs-continuous")
    ctx.raises(lambda: MaxActionScaledGaussian(0.1).create_noise(envs_d), AssertionError, "noise-needs-continuous")
    # static construction from a factory function
    made = []
    fn = lambda mode: (made.append(mode), hl.HEnv(act="disc"))[1]  # noqa: E731
    k1, k2, w = int(rng.integers(1, 4)), int(rng.integers(1, 4)), bool(rng.random() < 0.5)
    e = Environments.from_factory_and_type(fn, EnvType.DISCRETE, VectorEnvType.DUMMY, k1, k2, w)
    ctx.equal([made.count(m) for m in (EnvMode.TRAIN, EnvMode.TEST, EnvMode.WATCH)], [k1 + 1, k2, int(w)], "factory-fn-modes")
    ctx.check(len(e.train_envs) == k1 and len(e.test_envs) == k2 and (e.watch_env is not None) == w, "factory-fn-envs")
    b0 = bcls(hl.OwnFactory(act="disc" if ALGOS[algo][4] != "b" else "box"))
    ctx.equal(b0.experiment_config, ExperimentConfig(), "default-config", algo)
    ctx.equal(b0.sampling_config, type(sc)(), "default-config", algo)
    b0.experiment_config, b0.sampling_config = cfg, sc
    e0 = b0.with_name("z").build()
    ctx.check(e0.config is cfg and e0.sampling_config is sc, "experiment-configs", algo)
    ctx.sig("config", algo, sc.num_epochs, sc.step_per_collect)
    ctx.note("configs")


class Where(hl.HEnv):
    """An environment that knows which process it lives in and what it was made for."""

    def __init__(self, mode, **kw):
        super().__init__(**kw)
        self.mode = mode.value

    @property
    def pid(self):
        return os.getpid()


def case_venvs(ctx, rng):
    """Every kind of vector environment holds what the factory makes for its purpose, where it is supposed to live, and acts the same."""
    kind = pick(rng, ["disc", "box"])
    vt = [v for v in VectorEnvType if v != VectorEnvType.RAY][ctx.case % (len(VectorEnvType) - 1)]
    k1, k2, watch = int(rng.integers(1, 4)), int(rng.integers(1, 4)), bool(rng.random() < 0.5)
    fn = lambda mode: Where(mode, act=kind, own_seed={"train": 5, "test": 6, "watch": 7}[mode.value])  # noqa: E731
    cls = ContinuousEnvironments if kind == "box" else DiscreteEnvironments
    way = int(rng.integers(3))
    if way == 0:
        e = cls.from_factory(fn, vt, k1, k2, watch)
    elif way == 1:
        e = Environments.from_factory_and_type(fn, EnvType.DISCRETE if kind == "disc" else EnvType.CONTINUOUS, vt, k1, k2, watch)
    else:

        class F(EnvFactory):
            def create_env(self, mode):
                return fn(mode)

        e = F(vt).create_envs(k1, k2, watch)
    what = f"{vt} {kind} {k1}+{k2} way {way}"
    venvs = [("train", e.train_envs, k1, 5), ("test", e.test_envs, k2, 6)] + ([("watch", e.watch_env, 1, 7)] if watch else [])
    try:
        ctx.check(type(e) is cls and e.env.mode == "train" and (e.watch_env is not None) == watch, "environments", lambda: f"{what}: {type(e)} {e.env.mode}")
        ctx.check(e.get_action_space() == e.env.action_space and e.get_observation_space() == e.env.observation_space, "environment-spaces", what)
        ctx.check({"action_shape", "state_shape"} <= set(e.info()) and (kind == "disc" or e.info()["max_action"] == 1.0), "environment-info", lambda: f"{e.info()}")
        for m, v, k, seed in venvs:
            ctx.equal(len(v), k, "env-count", f"{what} {m}")
            ctx.equal(v.get_env_attr("mode"), [m] * k, "env-mode", what)
            pids = v.get_env_attr("pid")
            if vt == VectorEnvType.DUMMY or m == "watch":
                ctx.equal(pids, [os.getpid()] * k, "env-process", f"{what} {m}")
            else:
                ctx.check(len(set(pids)) == k and os.getpid() not in pids, "env-process", lambda m=m, pids=pids: f"{what} {m}: {pids} in {os.getpid()}")
                shared = all(getattr(w, "share_memory", None) for w in v.workers)
                ctx.equal(shared, vt != VectorEnvType.SUBPROC, "env-shared-memory", f"{what} {m}")
            refs = [Where(EnvMode.TRAIN, act=kind, own_seed=seed) for _ in range(k)]
            obs, _ = v.reset()
            ctx.close(obs, np.stack([r.reset()[0] for r in refs]), "env-reset", f"{what} {m}")
            for _ in range(3):
                a = np.stack([v.action_space[0].sample() for _ in range(k)])
                o, r, te, tr, _ = v.step(a)
                w = [x.step(y) for x, y in zip(refs, a, strict=True)]
                ctx.close(o, np.stack([x[0] for x in w]), "env-step", f"{what} {m}")
                ctx.close(r, np.array([x[1] for x in w]), "env-step", f"{what} {m}")
                ctx.equal(te, np.array([x[2] for x in w]), "env-step", f"{what} {m}")
            ctx.note("venvs")
    finally:
        for _, v, _, _ in venvs:
            v.close()
    if kind == "disc":
        d = hl.HEnv(act="disc")
        ctx.raises(lambda: ContinuousEnvironments(d, None, None), ValueError, "unsupported-space", what)
    ctx.sig("venvs", vt.value, kind, k1, k2, watch, way)


def case_pool(ctx, rng):
    """With an envpool factory, vector environments come from envpool with the same task, seeds and options, without render modes."""
    made = []
    mod = types.ModuleType("envpool")
    mod.make_gymnasium = lambda *a, **k: (made.append((a, k)), hl.OwnFactory().create_venv(k["num_envs"], EnvMode.TEST))[1]
    saved = sys.modules.get("envpool")
    sys.modules["envpool"] = mod
    try:
        class Pool(EnvPoolFactory):
            def _transform_task(self, task):
                return task + suffix

        # the documented extension point of the factory, if it still is one
        suffix = pick(rng, ["", "-x"]) if hasattr(EnvPoolFactory, "_transform_task") else ""
        opts = {"length": int(rng.integers(2, 6)), **({"bonus": u(rng, 0, 1)} if rng.random() < 0.5 else {})}
        s1, s2 = int(rng.integers(1000)), int(rng.integers(1000, 2000))
        f = EnvFactoryRegistered(task="VerifHL-v0", train_seed=s1, test_seed=s2, venv_type=VectorEnvType.DUMMY, envpool_factory=Pool() if suffix else EnvPoolFactory(),
                                 render_mode_train=pick(rng, [None, "rgb_array"]), **opts)
        k1, k2, watch = int(rng.integers(1, 4)), int(rng.integers(1, 4)), bool(rng.random() < 0.5)
        e = f.create_envs(k1, k2, watch)
        want = [sorted({"task": "VerifHL-v0" + suffix, "num_envs": k, "seed": s, **opts}.items()) for k, s in [(k1, s1), (k2, s2)] + [(1, s2)] * watch]
        got = [sorted({"task": a[0] if a else k.get("task_id"), **{x: y for x, y in k.items() if x != "task_id"}}.items()) for a, k in made]
        ctx.equal(str(sorted(got)), str(sorted(want)), "envpool-options", "")
        ctx.check(len(e.train_envs) == k1 and len(e.test_envs) == k2, "envpool-envs", "")
        ctx.equal(f.make_kwargs, opts, "factory-modified", "")
        ctx.note("pools")
        ctx.sig("pool", s1, s2, k1, k2, watch, str(opts), suffix)
    finally:
        if saved is None:
            del sys.modules["envpool"]
        else:
            sys.modules["envpool"] = saved


SCENARIOS = [
    Scenario("venvs", case_venvs, 25, 300, 120),
    Scenario("pool", case_pool, 20, 200, 60),
    Scenario("agent", case_agent, 420, 4000, 60),
    Scenario("config", case_config, 120, 1000, 60),
]
