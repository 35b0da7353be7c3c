"""Every policy of the library on the library's own small networks, for monitors of what all policies share."""
from __future__ import annotations

from dataclasses import dataclass, field

import gymnasium as gym
import numpy as np
import torch
from tianshou.data import Batch, ReplayBuffer
from tianshou.exploration import GaussianNoise
from tianshou.policy import (
    A2CPolicy, BCQPolicy, BranchingDQNPolicy, C51Policy, CQLPolicy, DDPGPolicy, DiscreteBCQPolicy, DiscreteCQLPolicy, DiscreteCRRPolicy,
    DiscreteSACPolicy, DQNPolicy, FQFPolicy, GAILPolicy, ICMPolicy, ImitationPolicy, IQNPolicy, NPGPolicy, PGPolicy, PPOPolicy, QRDQNPolicy,
    RainbowPolicy, REDQPolicy, SACPolicy, TD3BCPolicy, TD3Policy, TRPOPolicy,
)
from tianshou.utils.net import continuous as C
from tianshou.utils.net import discrete as Dn
from tianshou.utils.net.common import ActorCritic, BranchingNet, EnsembleLinear, MLP, Net
from torch import nn
from torch.distributions import Categorical, Independent, Normal

from vlib.pol import DIM, PolSpec

VALUE = ["dqn", "dqn_plain", "bdq", "c51", "rainbow", "qrdqn", "iqn", "fqf"]
ONPOL = ["pg_disc", "pg_box", "a2c_disc", "a2c_box", "ppo_disc", "ppo_box", "npg_disc", "npg_box", "trpo_disc", "trpo_box"]
AC = ["ddpg", "td3", "sac", "sac_auto", "redq", "dsac", "dsac_auto"]
OFFLINE = ["bc_disc", "bc_box", "dbcq", "dcql", "dcrr", "bcq", "cql", "td3bc", "gail"]
WRAP = ["icm_dqn", "icm_ppo"]
ALL = VALUE + ONPOL + AC + OFFLINE + WRAP
DET_EVAL = ["pg_disc", "pg_box", "a2c_disc", "a2c_box", "ppo_disc", "ppo_box", "npg_disc", "npg_box", "trpo_disc", "trpo_box", "sac", "sac_auto", "redq", "dsac", "dsac_auto", "cql", "gail", "icm_ppo"]
MASKED = ["dqn", "dqn_plain", "c51", "rainbow", "qrdqn", "iqn", "fqf"]
H = [6]


@dataclass
class Item:
    name: str
    policy: object
    spec: PolSpec
    optims: list
    online: list
    targets: list
    sample: object = None  # sample size for update()
    kw: dict = field(default_factory=dict)
    kinds: tuple = ("single", "vector", "manager", "prio", "priovec")
    stochastic: bool = False
    drop: float = 0.0
    det: bool = False
    sched: object = None


class Sched:
    """A learning-rate scheduler that only counts."""

    def __init__(self):
        self.n = 0

    def step(self):
        self.n += 1


class DropNet(nn.Module):
    """feature network with dropout: its output shows whether it runs in training mode"""

    def __init__(self, n, p):
        super().__init__()
        self.net = Net(DIM, hidden_sizes=H) if n is None else Net(DIM, n, hidden_sizes=H)
        self.drop = nn.Dropout(p)
        self.output_dim = self.net.output_dim

    def forward(self, obs, state=None, info={}):  # noqa: B006
        y, s = self.net(obs, state)
        return self.drop(y), s


class SA(nn.Module):
    def __init__(self, n, drop):
        super().__init__()
        self.net = Net(DIM, n, hidden_sizes=H, concat=True)
        self.drop = nn.Dropout(drop)
        self.output_dim = self.net.output_dim

    def forward(self, obs, state=None, info={}):  # noqa: B006
        y, s = self.net(obs, state)
        return self.drop(y), s


class Disc(nn.Module):
    def __init__(self, d):
        super().__init__()
        self.m, self.device = d, "cpu"

    def forward(self, x):
        return self.m(torch.as_tensor(x, dtype=torch.float32))


def cat_logits(logits):
    return Categorical(logits=logits)


def noisy(x, y):
    return Dn.NoisyLinear(x, y, 0.3)


def ens3(x, y):
    return EnsembleLinear(3, x, y)


def indep(loc_scale):
    return Independent(Normal(*loc_scale), 1)


def box(n, lo=-2.0, hi=2.0):
    return gym.spaces.Box(lo, hi, (n,))


def build(name, rng, drop=0.0, adam=False, det=None, masked=None, sched=True, n_act=None, **over):
    """One policy with small real networks; over: keyword arguments of the policy that replace the defaults."""
    n = n_act or int(rng.integers(2, 5))
    if name in ONPOL or name in ("gail", "icm_ppo"):
        drop = 0.0  # random dropout lets ratios explode and makes the divergence's Hessian indefinite
    opts: list = []
    lr_s = Sched() if sched else None

    def opt(*nets, lr=0.0002 if name in ONPOL or name == "gail" else 0.01):
        ps = [p for m in nets for p in (m.parameters() if isinstance(m, nn.Module) else [m])]
        o = torch.optim.Adam(ps, lr=lr) if adam else torch.optim.SGD(ps, lr=lr, momentum=0.5)
        opts.append(o)
        return o

    def feat():
        return DropNet(None, drop)

    def qnet():
        return DropNet(n, drop)

    def actor_d():
        return Dn.Actor(feat(), n, softmax_output=False)

    def actor_c():
        return C.Actor(feat(), n, max_action=1.0)

    def actor_p(cond=True):
        return C.ActorProb(feat(), n, unbounded=True, conditioned_sigma=cond)

    def critic_q():
        return C.Critic(SA(n, drop))

    kind = "branch" if name == "bdq" else "box" if name.endswith("_box") or name in ("ddpg", "td3", "sac", "sac_auto", "redq", "bcq", "cql", "td3bc", "gail") else "disc"
    masked = bool(rng.random() < 0.3) if masked is None else masked
    spec = PolSpec(rng, kind, n, masked=masked and name in MASKED, branches=2)
    spec.act_dtype = np.float32
    space = spec.space()
    base = dict(action_space=space, lr_scheduler=lr_s)
    det = bool(rng.random() < 0.5) if det is None else det
    it = Item(name, None, spec, opts, [], [], sched=lr_s, drop=drop)
    tf = int(rng.choice([1, 2, 3]))
    off = dict(discount_factor=0.9, estimation_step=int(rng.integers(1, 4)), target_update_freq=tf)

    def done(policy, online, targets, **kw):
        it.policy, it.online, it.targets = policy, online, targets
        for k, v in kw.items():
            setattr(it, k, v)
        return it

    def P(cls, *d, **k):
        kw = {}
        for x in (*d, k, over):
            kw.update(x)
        return cls(**kw)

    if name in ("dqn", "dqn_plain"):
        net = qnet()
        if name == "dqn_plain":
            off["target_update_freq"] = 0
        return done(P(DQNPolicy, base, off, model=net, optim=opt(net), is_double=bool(rng.random() < 0.5)), ["model"], ["model_old"] if name == "dqn" else [])
    if name == "bdq":
        net = BranchingNet(DIM, 2, n, common_hidden_sizes=H, value_hidden_sizes=H, action_hidden_sizes=H)
        base["action_space"] = gym.spaces.MultiDiscrete([n] * 2)
        return done(P(BranchingDQNPolicy, base, off, estimation_step=1, model=net, optim=opt(net)), ["model"], ["model_old"])
    if name in ("c51", "rainbow"):
        kw = {}
        if name == "rainbow":
            lin = noisy
            kw = dict(dueling_param=({"linear_layer": lin}, {"linear_layer": lin}))
        net = Net(DIM, n, hidden_sizes=H, softmax=True, num_atoms=7, **kw)
        cls = RainbowPolicy if name == "rainbow" else C51Policy
        return done(P(cls, base, off, model=net, optim=opt(net), num_atoms=7, v_min=-2.0, v_max=2.0), ["model"], ["model_old"])
    if name in ("qrdqn", "dcql"):
        net = Net(DIM, n, hidden_sizes=H, softmax=False, num_atoms=5)
        kw = {"min_q_weight": 0.5} if name == "dcql" else {}
        return done(P(DiscreteCQLPolicy if kw else QRDQNPolicy, base, off, model=net, optim=opt(net), num_quantiles=5, **kw), ["model"], ["model_old"])
    if name == "iqn":
        net = Dn.ImplicitQuantileNetwork(feat(), n, num_cosines=4, hidden_sizes=H)
        return done(P(IQNPolicy, base, off, model=net, optim=opt(net), sample_size=5, online_sample_size=3, target_sample_size=4), ["model"], ["model_old"], stochastic=True)
    if name == "fqf":
        f = feat()
        net, fr = Dn.FullQuantileFunction(f, n, hidden_sizes=H, num_cosines=4), Dn.FractionProposalNetwork(4, f.output_dim)
        return done(
            P(FQFPolicy, base, off, model=net, optim=opt(net), fraction_model=fr, fraction_optim=opt(fr), num_fractions=4, ent_coef=0.1), ["model"], ["model_old"],
        )
    if name == "dbcq":
        net, imi = qnet(), qnet()
        return done(P(DiscreteBCQPolicy, base, off, model=net, imitator=imi, optim=opt(net, imi)), ["model", "imitator"], ["model_old"])
    if name == "dcrr":
        a, c = actor_d(), Dn.Critic(feat(), last_size=n)
        return done(
            P(DiscreteCRRPolicy, base, actor=a, critic=c, optim=opt(a, c), target_update_freq=tf), ["actor", "critic"], ["actor_old", "critic_old"],
            stochastic=True,
        )
    if name in ("bc_disc", "bc_box"):
        a = actor_d() if kind == "disc" else actor_c()
        return done(P(ImitationPolicy, base, actor=a, optim=opt(a)), ["actor"], [])
    if name.split("_")[0] in ("pg", "a2c", "ppo", "npg", "trpo", "gail"):
        algo = name.split("_")[0]
        disc = kind == "disc"
        a = actor_d() if disc else actor_p(False)
        c = Dn.Critic(feat()) if disc else C.Critic(feat())
        kw = dict(actor=a, dist_fn=cat_logits if disc else indep, deterministic_eval=det, discount_factor=0.9,
                  reward_normalization=bool(rng.random() < 0.3), action_scaling=not disc)
        common = dict(sample=0, kw=dict(batch_size=int(rng.integers(2, 8)), repeat=int(rng.integers(1, 3))), kinds=("single", "vector", "manager"), stochastic=True, det=det)
        if algo == "pg":
            return done(P(PGPolicy, base, kw, optim=opt(a)), ["actor"], [], **common)
        kw["critic"] = c
        if algo in ("npg", "trpo"):
            if algo == "npg":
                kw["actor_step_size"] = 0.001
            cls = NPGPolicy if algo == "npg" else TRPOPolicy
            return done(P(cls, base, kw, optim=opt(c), optim_critic_iters=2), ["actor", "critic"], [], **common)
        ac = ActorCritic(a, c)
        if algo == "a2c":
            return done(P(A2CPolicy, base, kw, optim=opt(ac)), ["actor", "critic"], [], **common)
        if algo == "ppo":
            return done(P(PPOPolicy, base, kw, optim=opt(ac), recompute_advantage=bool(rng.random() < 0.3)), ["actor", "critic"], [], **common)
        d = Net(DIM + n, hidden_sizes=H)
        d = nn.Sequential(nn.Linear(DIM + n, 5), nn.Tanh(), nn.Linear(5, 1))
        d.device = "cpu"

        dn = Disc(d)
        exp = ReplayBuffer(12)
        for k in range(9):
            exp.add(Batch({kk: v for kk, v in spec.rec(10**7 + k, 0, k, 0.0, k % 4 == 3, False).items() if kk != "done"}))
        return done(
            P(GAILPolicy, base, kw, optim=opt(ac), expert_buffer=exp, disc_net=dn, disc_optim=opt(dn), disc_update_num=2), ["actor", "critic", "disc_net"], [], **common,
        )
    if name == "ddpg":
        a, c = actor_c(), critic_q()
        return done(
            P(DDPGPolicy, base, actor=a, actor_optim=opt(a), critic=c, critic_optim=opt(c), tau=0.1, estimation_step=2, exploration_noise=GaussianNoise(sigma=0.1)),
            ["actor", "critic"], ["actor_old", "critic_old"],
        )
    if name in ("td3", "td3bc"):
        a, c, c2 = actor_c(), critic_q(), critic_q()
        return done(
            P(TD3BCPolicy if name == "td3bc" else TD3Policy, base, actor=a, actor_optim=opt(a), critic=c, critic_optim=opt(c), critic2=c2, critic2_optim=opt(c2), tau=0.1,
              update_actor_freq=tf), ["actor", "critic", "critic2"], ["actor_old", "critic_old", "critic2_old"],
        )

    def alpha(te):
        if name.endswith("_auto") or (name == "cql" and rng.random() < 0.5):
            la = torch.zeros(1, requires_grad=True)
            return (te, la, opt(la))
        return 0.2

    if name in ("sac", "sac_auto", "cql"):
        a, c, c2 = actor_p(), critic_q(), critic_q()
        kw = dict(actor=a, actor_optim=opt(a), critic=c, critic_optim=opt(c), critic2=c2, critic2_optim=opt(c2), tau=0.1, alpha=alpha(-float(n)))
        nets = ["actor", "critic", "critic2"], ["critic_old", "critic2_old"]
        if name == "cql":
            q = P(CQLPolicy, base, kw, num_repeat_actions=2, calibrated=False)
            return done(q, *nets, stochastic=True, det=True, kinds=("single", "vector", "manager"))
        return done(P(SACPolicy, base, kw, deterministic_eval=det), *nets, stochastic=True, det=det)
    if name == "redq":
        a = actor_p()
        lin = ens3
        c = C.Critic(Net(DIM, n, hidden_sizes=H, concat=True, linear_layer=lin), linear_layer=lin, flatten_input=False)
        return done(
            P(REDQPolicy, base, actor=a, actor_optim=opt(a), critic=c, critic_optim=opt(c), ensemble_size=3, subset_size=2, tau=0.1, alpha=0.2, actor_delay=tf,
              deterministic_eval=det), ["actor", "critic"], ["critic_old"], stochastic=True, det=det,
        )
    if name in ("dsac", "dsac_auto"):
        a, c, c2 = actor_d(), Dn.Critic(feat(), last_size=n), Dn.Critic(feat(), last_size=n)
        return done(
            P(DiscreteSACPolicy, base, actor=a, actor_optim=opt(a), critic=c, critic_optim=opt(c), critic2=c2, critic2_optim=opt(c2), tau=0.1, alpha=alpha(0.6)), ["actor", "critic", "critic2"], ["critic_old", "critic2_old"], stochastic=True, det=True,
        )
    if name == "bcq":
        c, c2 = critic_q(), critic_q()
        p = C.Perturbation(Net(DIM + n, n, hidden_sizes=H), max_action=1.0, phi=0.3)
        v = C.VAE(MLP(DIM + n, hidden_sizes=H), MLP(DIM + 2, n, hidden_sizes=H), H[0], 2, 1.0)
        return done(
            P(BCQPolicy, base, actor_perturbation=p, actor_perturbation_optim=opt(p), critic=c, critic_optim=opt(c), critic2=c2, critic2_optim=opt(c2), vae=v,
              vae_optim=opt(v), forward_sampled_times=4, num_sampled_action=3, tau=0.1), ["actor_perturbation", "critic", "critic2", "vae"],
            ["actor_perturbation_target", "critic_target", "critic2_target"], stochastic=True,
        )
    if name.startswith("icm_"):
        inner = build({"icm_dqn": "dqn", "icm_ppo": "ppo_disc"}[name], rng, drop=drop, adam=adam, det=det, masked=False, sched=False)
        spec, n = inner.spec, inner.spec.n
        m = Dn.IntrinsicCuriosityModule(nn.Sequential(nn.Linear(DIM, 4), nn.Tanh()), 4, n, hidden_sizes=[5])
        inner.optims.append(torch.optim.SGD(m.parameters(), lr=0.01))
        pol = P(ICMPolicy, dict(action_space=spec.space(), lr_scheduler=lr_s), policy=inner.policy, model=m, optim=inner.optims[-1], lr_scale=1.0, reward_scale=0.01, forward_loss_weight=0.2)
        inner.name, inner.policy, inner.sched = name, pol, lr_s
        inner.targets = ["policy." + t for t in inner.targets]
        inner.online = ["policy." + t for t in inner.online] + ["model"]
        return inner
    raise KeyError(name)


def sub(policy, path):
    for p in path.split("."):
        policy = getattr(policy, p)
    return policy


def tensors(policy):
    """Every parameter and buffer of the policy, including tensors outside the module tree (temperature)."""
    out = {k: v for k, v in policy.state_dict().items()}
    for k in ("log_alpha", "cql_log_alpha", "_alpha", "alpha"):
        v = getattr(policy, k, None)
        if isinstance(v, torch.Tensor):
            out["*" + k] = v
    return {k: v.detach().clone() for k, v in out.items() if isinstance(v, torch.Tensor)}


def obs_batch(spec, rng, rows=None, code=None):
    rows = rows or int(rng.integers(1, 6))
    os = [spec.obs(int(rng.integers(10**6))) for _ in range(rows)]
    if isinstance(os[0], dict):
        obs = Batch(obs=np.stack([o["obs"] for o in os]), mask=np.stack([o["mask"] for o in os]))
    else:
        obs = np.stack(os)
    return Batch(obs=obs, info=Batch())
