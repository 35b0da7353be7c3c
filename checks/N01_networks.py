"""Ready-made networks compute exactly what they document, for every configuration and input."""
import copy
import io
import pickle

import gymnasium as gym
import numpy as np
import torch
from tianshou.data import Batch
from tianshou.policy.base import RandomActionPolicy
from tianshou.utils.net import continuous as C
from tianshou.utils.net import discrete as Dn
from tianshou.utils.net.common import MLP, ActorCritic, BranchingNet, EnsembleLinear, Net, RandomActor, Recurrent, get_dict_state_decorator, get_output_dim
from torch import nn
from vlib.core import Scenario

RULE = (
    "networks of random configuration (sizes, activations, normalisations, dueling, atoms, concatenation, recurrence, quantiles, noise) "
    "evaluated on random inputs; outputs are recomputed in numpy float64 from the network's own parameters; distinct = configuration"
)
MIN = {
    "mlp": 200, "net": 250, "dueling": 60, "dueling_concat": 8, "atoms": 50, "heads": 300, "recurrent": 120, "stepwise": 300, "quantile_nets": 60, "branching": 60, "noisy": 60,
    "ensemble": 50, "vae": 50, "perturbation": 50, "icm": 50, "dict_obs": 300, "random_actions": 3000, "copies": 500, "refused": 80,
}


def n(x):
    return x.detach().cpu().numpy().astype(np.float64) if isinstance(x, torch.Tensor) else np.asarray(x, np.float64)


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


ACTS = {
    "relu": (nn.ReLU, None, lambda x: np.maximum(x, 0)),
    "tanh": (nn.Tanh, None, np.tanh),
    "leaky": (nn.LeakyReLU, (0.3,), lambda x: np.where(x > 0, x, 0.3 * x)),
    "elu": (nn.ELU, {"alpha": 0.7}, lambda x: np.where(x > 0, x, 0.7 * (np.exp(np.minimum(x, 0)) - 1))),
}


def lnorm(x, w, b, eps=1e-5):
    m, v = x.mean(-1, keepdims=True), x.var(-1, keepdims=True)
    return (x - m) / np.sqrt(v + eps) * w + b


def softmax(x):
    z = np.exp(x - x.max(-1, keepdims=True))
    return z / z.sum(-1, keepdims=True)


class Spec:
    """Random MLP options and the numpy function they stand for."""

    def __init__(self, rng, plain=False):
        self.hidden = [int(x) for x in rng.integers(1, 7, size=int(rng.integers(0, 4)))]
        k = len(self.hidden)
        self.kw, self.eps = {}, [1e-5] * k
        names = ["relu"] * k
        self.norm = [False] * k
        if not plain:
            mode = pick(rng, ["default", "one", "list", "same", "none"])
            if mode == "one":
                a = pick(rng, list(ACTS))
                names = [a] * k
                self.kw["activation"] = ACTS[a][0]
                if ACTS[a][1] is not None:
                    self.kw["act_args"] = ACTS[a][1]
            elif mode == "list":
                names = [pick(rng, list(ACTS)) for _ in range(k)]
                self.kw["activation"] = [ACTS[a][0] for a in names]
                self.kw["act_args"] = [ACTS[a][1] for a in names]
            elif mode == "same":  # a list of activations sharing one set of arguments
                a = pick(rng, ["leaky", "elu"])
                names = [a] * k
                self.kw["activation"] = [ACTS[a][0]] * k
                self.kw["act_args"] = ACTS[a][1]
            elif mode == "none":
                names = [None] * k
                self.kw["activation"] = None
            mode2 = pick(rng, ["no", "no", "one", "args", "list", "same"])
            if mode2 != "no":
                self.norm = [True] * k
                self.kw["norm_layer"] = nn.LayerNorm
            if mode2 == "args":
                self.kw["norm_args"] = pick(rng, [(0.1,), {"eps": 0.1}])
                self.eps = [0.1] * k
            if mode2 == "same":
                self.kw["norm_layer"] = [nn.LayerNorm] * k
                self.kw["norm_args"] = pick(rng, [(0.1,), {"eps": 0.1}])
                self.eps = [0.1] * k
            if mode2 == "list":
                self.kw["norm_layer"] = [nn.LayerNorm for _ in range(k)]
                self.eps = [float(x) for x in rng.choice([1e-5, 0.2], size=k)]
                self.kw["norm_args"] = [{"eps": e} for e in self.eps]
        self.names = names
        self.sig = (self.hidden, names, self.norm, self.eps)

    def __call__(self, module, x, out):
        """Reference: layer after layer from the module's parameters."""
        ps = [n(p) for p in module.parameters()]
        x = np.asarray(x, np.float64)
        x = x.reshape(len(x), -1)
        for i in range(len(self.hidden)):
            w, b = ps.pop(0), ps.pop(0)
            x = x @ w.T + b
            if self.norm[i]:
                x = lnorm(x, ps.pop(0), ps.pop(0), self.eps[i])
            if self.names[i]:
                x = ACTS[self.names[i]][2](x)
        if out:
            w, b = ps.pop(0), ps.pop(0)
            x = x @ w.T + b
        assert not ps, "unused parameters"
        return x


def shake(module, rng):
    """Parameters away from their initial values (norms at 1/0, sigma at 0)."""
    with torch.no_grad():
        for p in module.parameters():
            p.add_(torch.as_tensor(rng.normal(0, 0.3, size=tuple(p.shape)), dtype=p.dtype))
    return module


def wide(module, rng):
    """Outputs far outside the range of usual ones, in both directions."""
    f = float(rng.uniform(5, 60))
    with torch.no_grad():
        for p in list(module.parameters())[-2:]:
            p.mul_(f)


def make_obs(rng, shape, b=None):
    b = int(rng.integers(1, 6)) if b is None else b
    kind = pick(rng, ["f64", "f32", "int", "torch", "torch64"])
    x = rng.normal(0, 1.5, size=(b, *shape))
    if kind == "int":
        return rng.integers(-3, 4, size=(b, *shape)), kind
    if kind == "f32":
        return x.astype(np.float32), kind
    if kind.startswith("torch"):
        return torch.as_tensor(x, dtype=torch.float32 if kind == "torch" else torch.float64), kind
    return x, kind


def unchanged(ctx, obs, keep, what):
    ctx.equal(obs, keep, "input-modified", what)


def shp(rng):
    s = pick(rng, ["int", "vec", "mat", "npint"])
    if s == "int":
        k = int(rng.integers(1, 6))
        return k, (k,)
    if s == "npint":
        k = int(rng.integers(1, 6))
        return np.int64(k), (k,)
    if s == "vec":
        k = int(rng.integers(1, 6))
        return (k,), (k,)
    t = tuple(int(x) for x in rng.integers(1, 4, size=2))
    return t, t


def same_copy(ctx, module, call, want, what):
    """Copies of a network compute the same and are separate from it."""
    for how, c in (("deepcopy", copy.deepcopy(module)), ("pickle", pickle.loads(pickle.dumps(module)))):
        ctx.equal(call(c), want, "copy-differs", f"{what} {how}")
        with torch.no_grad():
            for p in c.parameters():
                p.add_(1.0)
        ctx.note("copies")
    buf = io.BytesIO()
    torch.save(module.state_dict(), buf)
    fresh = copy.deepcopy(module)
    with torch.no_grad():
        for p in fresh.parameters():
            p.mul_(0.3).add_(0.1)
    buf.seek(0)
    fresh.load_state_dict(torch.load(buf))
    ctx.equal(call(fresh), want, "copy-differs", f"{what} state_dict")
    ctx.equal(call(module), want, "copy-shares-parameters", what)
    ctx.note("copies")


TOL = dict(rtol=2e-4, atol=2e-5)


def s_mlp(ctx, rng):
    spec = Spec(rng)
    shape = tuple(int(x) for x in rng.integers(1, 4, size=int(rng.integers(1, 4))))
    flat = rng.random() < 0.8
    d_in = int(np.prod(shape)) if flat else shape[-1]
    out = int(rng.choice([0, 1, 3]))
    kw = copy.deepcopy(spec.kw)
    m = shake(MLP(d_in, out, spec.hidden, flatten_input=flat, **kw), rng)
    ctx.equal(repr(kw), repr(spec.kw), "arguments-modified", "")
    obs, kind = make_obs(rng, shape)
    keep = copy.deepcopy(obs)
    got = m(obs)
    what = f"MLP {d_in}->{spec.hidden}->{out} {spec.kw} flat {flat} obs {kind}{shape}"
    unchanged(ctx, obs, keep, what)
    x = n(keep)
    if flat:
        want = spec(m, x, out)
    else:
        want = spec(m, x.reshape(-1, d_in), out).reshape(*x.shape[:-1], -1)
    ctx.close(n(got), want, "mlp-output", what, **TOL)
    ctx.equal(m.output_dim, want.shape[-1], "output-dim", what)
    ctx.equal(get_output_dim(m, None), want.shape[-1], "output-dim", what)
    same_copy(ctx, m, lambda c: c(obs), got.detach().clone(), what)
    ctx.note("mlp")
    ctx.sig(spec.sig, shape, flat, out, kind)
    ctx.sample({"what": what})


def ref_net(spec, net, qs, vs, x, n_act, atoms, concat, soft):
    y = spec(net.model, x, not (concat or qs))
    if qs:
        q, v = qs(net.Q, y, not concat), vs(net.V, y, not concat)
        if atoms > 1:
            q, v = q.reshape(len(q), n_act, atoms), v.reshape(len(v), 1, atoms)
        y = q - q.mean(1, keepdims=True) + v
    elif atoms > 1 and not concat:
        y = y.reshape(len(y), n_act, atoms)
    return softmax(y) if soft else y


def s_net(ctx, rng):
    spec = Spec(rng)
    ss, shape = shp(rng)
    sa, ashape = shp(rng)
    n_act = int(np.prod(ashape))
    concat = bool(rng.random() < 0.2)
    atoms = 1 if concat else int(rng.choice([1, 1, 2, 5]))
    duel = bool(rng.random() < 0.45)
    soft = bool(rng.random() < 0.3)
    qs, vs = (Spec(rng), Spec(rng)) if duel else (None, None)
    if concat and duel:  # both branches end in features, of the same size
        vs = qs
    dp = ({"hidden_sizes": qs.hidden, **qs.kw}, {"hidden_sizes": vs.hidden, **vs.kw}) if duel else None
    dp0 = copy.deepcopy(dp)
    none = not duel and not concat and rng.random() < 0.15
    net = Net(ss, 0 if none else sa, spec.hidden, softmax=soft, concat=concat, num_atoms=1 if none else atoms, dueling_param=dp, **spec.kw)
    if none:
        atoms = 1
    ctx.equal(repr(dp), repr(dp0), "arguments-modified", "dueling_param")
    shake(net, rng)
    x_shape = (int(np.prod(shape)) + n_act,) if concat else shape
    obs, kind = make_obs(rng, x_shape)
    keep = copy.deepcopy(obs)
    st = pick(rng, [None, {"a": 1}, Batch(h=np.ones(3)), np.ones(2)])
    out, st2 = net(obs, st, {"info": 1})
    what = f"Net {ss}->{spec.hidden}->{sa} concat {concat} atoms {atoms} dueling {duel} softmax {soft} {spec.kw}"
    unchanged(ctx, obs, keep, what)
    ctx.check(st2 is st, "state-not-passed-on", what)
    if none:
        want = spec(net.model, n(keep), False)
        want = softmax(want) if soft else want
    else:
        want = ref_net(spec, net, qs, vs, n(keep), n_act, atoms, concat, soft)
    ctx.close(n(out), want, "net-output", what, **TOL)
    ctx.equal(int(net.output_dim), int(np.prod(want.shape[1:])), "output-dim", what)
    if duel and not soft and not concat:
        v = vs(net.V, spec(net.model, n(keep), False), True)
        ctx.close(n(out).mean(1).reshape(len(v), -1), v, "dueling-mean-is-value", what, **TOL)
    row = int(rng.integers(len(keep)))
    ctx.close(n(net(keep[row:row + 1])[0])[0], n(out)[row], "rows-influence-each-other", what, rtol=1e-4, atol=1e-5)
    same_copy(ctx, net, lambda c: c(obs)[0], out.detach().clone(), what)
    ctx.note("net")
    ctx.note("dueling", duel)
    ctx.note("dueling_concat", duel and concat)
    ctx.note("atoms", atoms > 1)
    ctx.sig(spec.sig, ss, sa, concat, atoms, duel, soft)


class Pre(nn.Module):
    """Preprocessing net that records what it is given and has a state."""

    def __init__(self, d_in, d_out, with_dim):
        super().__init__()
        self.lin = nn.Linear(d_in, d_out)
        if with_dim:
            self.output_dim = d_out
        self.seen = []

    def forward(self, obs, state=None, info=None):
        x = torch.as_tensor(np.asarray(obs) if not isinstance(obs, torch.Tensor) else obs, dtype=torch.float32).flatten(1)
        self.seen.append(state)
        h = torch.full((len(x), 2), 7.0) if state is None else state + 1
        return torch.tanh(self.lin(x)), h


def pre_ref(p, x):
    return np.tanh(x.reshape(len(x), -1) @ n(p.lin.weight).T + n(p.lin.bias))


def s_heads(ctx, rng):
    spec = Spec(rng, plain=True)
    ss, shape = shp(rng)
    sa, ashape = shp(rng)
    n_act = int(np.prod(ashape))
    feat = int(rng.integers(1, 6))
    with_dim = bool(rng.random() < 0.6)
    kind = pick(rng, ["actor", "prob", "critic", "critic_obs", "dactor", "dcritic"])
    alt = None if with_dim else feat
    if with_dim and rng.random() < 0.3:
        alt = feat
    d_in = int(np.prod(shape))
    take_act = kind == "critic" and rng.random() < 0.7
    pre = Pre(d_in + (n_act if take_act else 0), feat, with_dim)
    mx = float(pick(rng, [1.0, 2.5, 0.3]))
    okw = dict(preprocess_net_output_dim=alt)
    opt = {}
    if kind == "actor":
        m = C.Actor(pre, sa, spec.hidden, max_action=mx, **okw)
    elif kind == "prob":
        opt = dict(unbounded=bool(rng.random() < 0.5), conditioned_sigma=bool(rng.random() < 0.5))
        if opt["unbounded"]:
            mx = 1.0
        m = C.ActorProb(pre, sa, spec.hidden, max_action=mx, **opt, **okw)
    elif kind == "critic":
        m = C.Critic(pre, spec.hidden, **okw)
    elif kind == "critic_obs":
        m = C.Critic(pre, spec.hidden, apply_preprocess_net_to_obs_only=True, **okw)
    elif kind == "dactor":
        opt = dict(softmax_output=bool(rng.random() < 0.5))
        m = Dn.Actor(pre, sa, spec.hidden, **opt, **okw)
    else:
        opt = dict(last_size=int(rng.integers(1, 5)))
        m = Dn.Critic(pre, spec.hidden, **opt, **okw)
    shake(m, rng)
    if opt.get("conditioned_sigma") and rng.random() < 0.5:
        wide(m.sigma, rng)
    obs, ok = make_obs(rng, shape)
    keep, x = copy.deepcopy(obs), n(obs)
    B = len(x)
    st = torch.as_tensor(rng.normal(size=(B, 2)).astype(np.float32)) if rng.random() < 0.5 else None
    st0 = None if st is None else st.clone()
    what = f"{kind} {ss}->{feat}->{spec.hidden}->{sa} {opt} max_action {mx} state {st is not None} obs {ok}"
    f = pre_ref(pre, x) if not take_act else None
    hid = np.full((B, 2), 7.0) if st is None else n(st) + 1
    if kind in ("actor", "prob", "dactor"):
        pre.seen.clear()
        out, h = m(obs, st)
        ctx.check(pre.seen[0] is st, "state-not-passed-on", what)
        ctx.close(n(h), hid, "state-not-returned", what)
        ctx.equal(m.get_output_dim(), n_act, "output-dim", what)
        ctx.check(m.get_preprocess_net() is pre, "preprocess-net", what)
        if kind == "actor":
            ctx.close(n(out), mx * np.tanh(spec(m.last, f, True)), "actor-output", what, **TOL)
        elif kind == "dactor":
            y = spec(m.last, f, True)
            ctx.close(n(out), softmax(y) if opt["softmax_output"] else y, "actor-output", what, **TOL)
        else:
            mu, sd = out
            y = spec(m.mu, f, True)
            ctx.close(n(mu), y if opt["unbounded"] else mx * np.tanh(y), "actor-mean", what, **TOL)
            if opt["conditioned_sigma"]:
                want = np.exp(np.clip(spec(m.sigma, f, True), -20, 2))
            else:
                want = np.broadcast_to(np.exp(n(m.sigma_param)).reshape(1, -1), mu.shape)
            ctx.close(np.log(n(sd)), np.log(want), "actor-sigma", what, rtol=2e-4, atol=1e-3)
            ctx.check(bool((sd > 0).all()), "sigma-not-positive", what)
        out0 = out
        same_copy(ctx, m, lambda c: c(obs, st)[0], tuple(o.detach().clone() for o in out0) if kind == "prob" else out0.detach().clone(), what)
    elif kind.startswith("critic"):
        act = rng.uniform(-1, 1, size=(B, *ashape)) if take_act else None
        if act is not None and rng.random() < 0.5:
            act = torch.as_tensor(act)
        a0 = copy.deepcopy(act)
        out = m(obs, act)
        ctx.equal(act, a0, "input-modified", what)
        z = x.reshape(B, -1)
        if take_act:
            z = np.concatenate([z, n(a0).reshape(B, -1)], 1)
        ctx.close(n(out), spec(m.last, pre_ref(pre, z), True), "critic-output", f"{what} act {take_act}", **TOL)
        ctx.equal(out.shape, (B, 1), "critic-shape", what)
        same_copy(ctx, m, lambda c: c(obs, act), out.detach().clone(), what)
    else:
        pre.seen.clear()
        out = m(obs, state=st) if st is not None or rng.random() < 0.5 else m(obs)
        ctx.check(pre.seen[0] is st, "state-not-passed-on", what)
        ctx.close(n(out), spec(m.last, f, True), "critic-output", what, **TOL)
        ctx.equal(m.output_dim, opt["last_size"], "output-dim", what)
        same_copy(ctx, m, lambda c: c(obs, state=st), out.detach().clone(), what)
    unchanged(ctx, obs, keep, what)
    ctx.equal(None if st is None else st, st0, "state-modified", what)
    ctx.note("heads")
    # misfits are refused
    bad = Pre(d_in, feat, True)
    ctx.raises(lambda: C.Actor(bad, sa, preprocess_net_output_dim=feat + 1), ValueError, "mismatch-accepted", what)
    ctx.raises(lambda: Dn.Critic(Pre(d_in, feat, False)), ValueError, "missing-dim-accepted", what)
    ctx.note("refused", 2)
    if rng.random() < 0.3 and kind in ("actor", "dactor"):
        cr = C.Critic(pre, (), **okw) if kind == "actor" else Dn.Critic(pre, **okw)
        ac = ActorCritic(m, cr)
        want = {id(p) for p in [*m.parameters(), *cr.parameters()]}
        got = [id(p) for p in ac.parameters()]
        ctx.equal(sorted(got), sorted(want), "actor-critic-parameters", what)
    ctx.sig(kind, ss, sa, spec.sig, opt, mx, st is None, ok, with_dim, alt is None)


def lstm_ref(mod, x, state):
    """x: (B, L, d); state: None or (h, c) as (B, layers, H). Returns outputs of the last layer and the state."""
    ps = {k: n(v) for k, v in mod.named_parameters()}
    L, H, B = mod.num_layers, mod.hidden_size, len(x)
    h = np.zeros((B, L, H)) if state is None else n(state[0]).copy()
    c = np.zeros((B, L, H)) if state is None else n(state[1]).copy()
    sg = lambda v: 1 / (1 + np.exp(-v))
    outs = []
    for t in range(x.shape[1]):
        z = x[:, t]
        for k in range(L):
            g = z @ ps[f"weight_ih_l{k}"].T + ps[f"bias_ih_l{k}"] + h[:, k] @ ps[f"weight_hh_l{k}"].T + ps[f"bias_hh_l{k}"]
            i, f, gg, o = np.split(g, 4, axis=1)
            c[:, k] = sg(f) * c[:, k] + sg(i) * np.tanh(gg)
            h[:, k] = sg(o) * np.tanh(c[:, k])
            z = h[:, k]
        outs.append(z.copy())
    return np.stack(outs, 1), h, c


def s_recurrent(ctx, rng):
    kind = pick(rng, ["rec", "prob", "critic"])
    d, A = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    layers, H = int(rng.integers(1, 4)), int(rng.integers(1, 6))
    B, L = int(rng.integers(1, 5)), int(rng.integers(1, 7))
    x = rng.normal(size=(B, L, d))
    what = f"{kind} d {d} A {A} layers {layers} H {H} B {B} L {L}"
    ctx.note("recurrent")
    if kind == "critic":
        take = bool(rng.random() < 0.5)
        m = shake(C.RecurrentCritic(layers, (d,), (A,) if take else (0,), hidden_layer_size=H), rng)
        act = rng.uniform(-1, 1, size=(B, A)) if take else None
        got = m(x, act)
        z = lstm_ref(m.nn, x, None)[0][:, -1]
        if take:
            z = np.concatenate([z, act], 1)
        ctx.close(n(got), z @ n(m.fc2.weight).T + n(m.fc2.bias), "recurrent-critic", what, **TOL)
        ctx.sig(what, take)
        return
    opt = {}
    mx = 1.0
    if kind == "rec":
        m = Recurrent(layers, pick(rng, [d, (d,)]), A, hidden_layer_size=H)
        pre = lambda v: v @ n(m.fc1.weight).T + n(m.fc1.bias)
    else:
        opt = dict(unbounded=bool(rng.random() < 0.5), conditioned_sigma=bool(rng.random() < 0.5))
        mx = float(pick(rng, [1.0, 2.0])) if not opt["unbounded"] else 1.0
        m = C.RecurrentActorProb(layers, (d,), (A,), hidden_layer_size=H, max_action=mx, **opt)
        pre = lambda v: v
    shake(m, rng)
    if opt.get("conditioned_sigma") and rng.random() < 0.5:
        wide(m.sigma, rng)

    def head(z):
        if kind == "rec":
            return [z @ n(m.fc2.weight).T + n(m.fc2.bias)]
        mu = z @ n(m.mu.weight).T + n(m.mu.bias)
        mu = mu if opt["unbounded"] else mx * np.tanh(mu)
        sd = np.exp(np.clip(z @ n(m.sigma.weight).T + n(m.sigma.bias), -20, 2)) if opt["conditioned_sigma"] else np.broadcast_to(np.exp(n(m.sigma_param)).reshape(1, -1), mu.shape)
        return [mu, sd]

    flat = lambda o: [n(v) for v in (o if isinstance(o, tuple) else (o,))]
    st = None
    if rng.random() < 0.5:
        mk = lambda: torch.as_tensor(rng.normal(size=(B, layers, H)).astype(np.float32))
        st = {"hidden": mk(), "cell": mk()}
        if rng.random() < 0.5:
            st = Batch(st)
    st0 = copy.deepcopy(st)
    xin = x if rng.random() < 0.5 else torch.as_tensor(x, dtype=torch.float32)
    out, new = m(xin, st)
    zs, h, c = lstm_ref(m.nn, pre(x), None if st is None else (st0["hidden"], st0["cell"]))
    for g, w in zip(flat(out), head(zs[:, -1]), strict=True):
        ctx.close(g, w, "recurrent-output", what, **TOL)
    ctx.close(n(new["hidden"]), h, "recurrent-state", what, **TOL)
    ctx.close(n(new["cell"]), c, "recurrent-state", what, **TOL)
    ctx.check(not new["hidden"].requires_grad and not new["cell"].requires_grad, "state-carries-gradient", what)
    if st is not None:
        ctx.equal(st["hidden"], st0["hidden"], "state-modified", what)
        ctx.equal(st["cell"], st0["cell"], "state-modified", what)
    # step after step, with the state handed back
    cur = copy.deepcopy(st0)
    for t in range(L):
        o, cur = m(x[:, t], cur)
        for g, w in zip(flat(o), head(zs[:, t]), strict=True):
            ctx.close(g, w, "stepwise-differs-from-sequence", f"{what} step {t}", **TOL)
        ctx.note("stepwise")
    ctx.close(n(cur["hidden"]), h, "stepwise-differs-from-sequence", what, **TOL)
    # every row on its own
    r = int(rng.integers(B))
    o, _ = m(x[r:r + 1], None if st0 is None else {k: st0[k][r:r + 1] for k in ("hidden", "cell")})
    for g, w in zip(flat(o), flat(out), strict=True):
        ctx.close(g[0], w[r], "rows-influence-each-other", what, **TOL)
    if kind == "rec":
        ctx.raises(lambda: m(x, {"hidden": torch.zeros(B, layers, H)}), ValueError, "incomplete-state-accepted", what)
        ctx.note("refused")
    same_copy(ctx, m, lambda q: q(x, st)[0], tuple(v.detach().clone() for v in out) if kind == "prob" else out.detach().clone(), what)
    ctx.sig(what, st is None, opt)


def s_quantile(ctx, rng):
    spec = Spec(rng, plain=True)
    d, A, feat = (int(v) for v in rng.integers(1, 5, size=3))
    nc, B, K = int(rng.integers(1, 7)), int(rng.integers(1, 5)), int(rng.integers(2, 7))
    fqf = bool(rng.random() < 0.5)
    pre = Pre(d, feat, True)
    m = shake((Dn.FullQuantileFunction if fqf else Dn.ImplicitQuantileNetwork)(pre, A, spec.hidden, num_cosines=nc), rng)
    x = rng.normal(size=(B, d))
    f = pre_ref(pre, x)
    what = f"{'fqf' if fqf else 'iqn'} {d}->{feat}->{spec.hidden}->{A} cosines {nc} B {B} K {K}"

    def quant(taus):
        cos = np.cos(n(taus)[..., None] * np.pi * np.arange(1, nc + 1))
        e = np.maximum(cos @ n(m.embed_model.net[0].weight).T + n(m.embed_model.net[0].bias), 0)
        z = (f[:, None, :] * e).reshape(-1, feat)
        return spec(m.last, z, True).reshape(B, -1, A).transpose(0, 2, 1)

    st = torch.as_tensor(rng.normal(size=(B, 2)).astype(np.float32)) if rng.random() < 0.5 else None
    hid = np.full((B, 2), 7.0) if st is None else n(st) + 1
    kw = {} if st is None else {"state": st}
    if not fqf:
        (q, taus), h = m(x, K, **kw)
        ctx.equal(tuple(taus.shape), (B, K), "tau-shape", what)
        ctx.check(bool(((taus >= 0) & (taus < 1)).all()), "tau-range", what)
        ctx.close(n(q), quant(taus), "quantiles", what, rtol=5e-4, atol=5e-5)
        (q2, t2), _ = m(x, K + 1, **kw)
        ctx.equal(tuple(t2.shape), (B, K + 1), "tau-shape", what)
        ctx.check(not np.array_equal(n(t2)[:, :K], n(taus)), "taus-not-fresh", what)
        ctx.check(B * K == 1 or len(np.unique(n(taus))) > 1, "taus-not-independent", what)
    else:
        prop = shake(Dn.FractionProposalNetwork(K, feat), rng)
        train = bool(rng.random() < 0.5)
        m.train(train)
        (q, fr, qt), h = m(x, prop, **kw)
        p = softmax(f @ n(prop.net.weight).T + n(prop.net.bias))
        taus = np.concatenate([np.zeros((B, 1)), np.cumsum(p, 1)], 1)
        ctx.close(n(fr.taus), taus, "fractions", what, **TOL)
        ctx.close(n(fr.tau_hats), (taus[:, 1:] + taus[:, :-1]) / 2, "fraction-midpoints", what, **TOL)
        ctx.close(n(fr.entropies), -(p * np.log(p)).sum(1), "fraction-entropy", what, **TOL)
        ctx.close(n(q), quant(fr.tau_hats), "quantiles", what, rtol=5e-4, atol=5e-5)
        ctx.check((qt is not None) == train, "quantiles-at-fractions", what)
        if train:
            ctx.close(n(qt), quant(fr.taus[:, 1:-1]), "quantiles-at-fractions", what, rtol=5e-4, atol=5e-5)
            ctx.check(not qt.requires_grad, "fraction-quantiles-carry-gradient", what)
        # fractions are proposed from frozen features, the midpoints do not train the proposals
        gp = torch.autograd.grad(fr.entropies.sum() + fr.taus.sum(), [*pre.parameters(), *prop.parameters()], allow_unused=True, retain_graph=True)
        ctx.check(all(g is None for g in gp[:2]), "proposal-trains-features", what)
        gq = torch.autograd.grad(q.sum(), [*prop.parameters()], allow_unused=True)
        ctx.check(all(g is None or not bool(g.any()) for g in gq), "quantiles-train-proposal", what)
        # given fractions are used as they are
        t = np.sort(rng.random((B, K + 1)), 1).astype(np.float32)
        mine = Batch(taus=torch.as_tensor(t), tau_hats=torch.as_tensor((t[:, 1:] + t[:, :-1]) / 2), entropies=torch.zeros(B))
        (q3, fr3, _), _ = m(x, prop, fractions=mine, **kw)
        ctx.check(fr3 is mine, "given-fractions-ignored", what)
        ctx.close(n(q3), quant(mine.tau_hats), "given-fractions-ignored", what, rtol=5e-4, atol=5e-5)
    ctx.close(n(h), hid, "state-not-returned", what)
    ctx.note("quantile_nets")
    ctx.sig(what, spec.sig)


def s_branching(ctx, rng):
    cs, vs, as_ = Spec(rng, plain=True), Spec(rng, plain=True), Spec(rng, plain=True)
    ss, shape = shp(rng)
    nb, k = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    act = pick(rng, ["relu", "tanh", None])
    for s in (cs, vs, as_):
        s.names = [act] * len(s.hidden)
    none = lambda s: None if not s.hidden and rng.random() < 0.5 else s.hidden
    m = shake(BranchingNet(ss, nb, k, none(cs), none(vs), none(as_), activation=ACTS[act][0] if act else None), rng)
    obs, ok = make_obs(rng, shape)
    keep = copy.deepcopy(obs)
    st = pick(rng, [None, {"q": 1}])
    out, s2 = m(obs, st)
    what = f"branching {ss} {cs.hidden} {vs.hidden} {as_.hidden} x{nb}x{k} {act}"
    ctx.check(s2 is st, "state-not-passed-on", what)
    unchanged(ctx, obs, keep, what)
    z = cs(m.common, n(keep), False)
    v = vs(m.value, z, True)
    a = np.stack([as_(b, z, True) for b in m.branches], 1)
    ctx.close(n(out), v[:, None] + a - a.mean(2, keepdims=True), "branching-output", what, **TOL)
    ctx.close(n(out).mean(2), np.broadcast_to(v, (len(v), nb)), "branch-mean-is-value", what, **TOL)
    same_copy(ctx, m, lambda c: c(obs)[0], out.detach().clone(), what)
    ctx.note("branching")
    ctx.sig(what)


def s_layers(ctx, rng):
    # noisy layers
    i, o, B = (int(v) for v in rng.integers(1, 7, size=3))
    m = Dn.NoisyLinear(i, o, float(pick(rng, [0.5, 0.1, 1.0])))
    s0 = m.sigma / np.sqrt(i)
    ctx.close(n(m.sigma_W), np.full((o, i), s0), "noisy-initial-sigma", "")
    ctx.check(bool((m.mu_W.abs() <= 1 / np.sqrt(i) + 1e-6).all()), "noisy-initial-weights", "")
    shake(m, rng)
    x = torch.as_tensor(rng.normal(size=(B, i)).astype(np.float32))
    what = f"noisy {i}->{o}"
    m.eval()
    ctx.close(n(m(x)), n(x) @ n(m.mu_W).T + n(m.mu_bias), "noise-in-evaluation", what, **TOL)
    m.train()
    last = None
    for _ in range(3):
        m.sample()
        w = n(m.mu_W) + n(m.sigma_W) * np.outer(n(m.eps_q), n(m.eps_p))
        b = n(m.mu_bias) + n(m.sigma_bias) * n(m.eps_q)
        y = m(x)
        ctx.close(n(y), n(x) @ w.T + b, "noisy-output", what, **TOL)
        ctx.equal(m(x), y, "noise-changes-without-sampling", what)
        if last is not None:
            ctx.check(not torch.equal(last, y), "noise-not-resampled", what)
        last = y
    same_copy(ctx, m, lambda c: c(x), last.detach().clone(), what)
    big = Dn.NoisyLinear(3000, 1)
    e = n(big.eps_p)  # sign(z) sqrt|z|: second moment E|z| = 0.798, fourth moment 1
    ctx.check(abs((e**2).mean() - 0.79788) < 6.5 * 0.603 / np.sqrt(3000) and abs(e.mean()) < 6.5 * 0.893 / np.sqrt(3000) and abs((e**4).mean() - 1) < 6.5 * np.sqrt(2 / 3000),
              "noise-distribution", f"{e.mean()} {(e**2).mean()} {(e**4).mean()}")
    ctx.note("noisy")
    # ensembles
    E_, bias = int(rng.integers(1, 5)), bool(rng.random() < 0.7)
    m = EnsembleLinear(E_, i, o, bias)
    k = 1 / np.sqrt(i) + 1e-6
    ctx.check(all(bool((p.abs() <= k).all()) for p in m.parameters()), "ensemble-initial-weights", "")
    shake(m, rng)
    x = torch.as_tensor(rng.normal(size=(E_, B, i) if rng.random() < 0.5 else (B, i)).astype(np.float32))
    got = n(m(x))
    for e in range(E_):
        xe = n(x if x.dim() == 2 else x[e])
        ctx.close(got[e], xe @ n(m.weight[e]) + (n(m.bias_weights[e]) if bias else 0), "ensemble-member", f"{E_} {i}->{o}", **TOL)
    ctx.note("ensemble")
    ctx.sig(i, o, B, E_, bias, x.dim())


class Rec1(nn.Module):
    def __init__(self, m):
        super().__init__()
        self.m, self.seen = m, []

    def forward(self, x):
        self.seen.append(x.detach().clone())
        return self.m(x)


def s_bcq(ctx, rng):
    sd, ad, hd, ld = (int(v) for v in rng.integers(1, 5, size=4))
    B = int(rng.integers(1, 40))
    mx = float(pick(rng, [1.0, 2.0, 0.4]))
    enc, dec = MLP(sd + ad, hd, [4]), Rec1(MLP(sd + ld, ad, [4]))
    v = shake(C.VAE(enc, dec, hd, ld, mx), rng)
    s = torch.as_tensor(rng.normal(0, 2, size=(B, sd)).astype(np.float32))
    a = torch.as_tensor(rng.uniform(-mx, mx, size=(B, ad)).astype(np.float32))
    rec, mean, std = v(s, a)
    what = f"vae s {sd} a {ad} hidden {hd} latent {ld} max {mx} B {B}"
    z = n(enc(torch.cat([s, a], -1)))
    ctx.close(n(mean), z @ n(v.mean.weight).T + n(v.mean.bias), "vae-mean", what, **TOL)
    ctx.close(n(std), np.exp(np.clip(z @ n(v.log_std.weight).T + n(v.log_std.bias), -4, 15)), "vae-std", what, rtol=1e-3, atol=1e-4)
    seen = n(dec.seen[-1])
    ctx.equal(seen[:, :sd], n(s), "vae-decoder-state", what)
    eps = (seen[:, sd:] - n(mean)) / n(std)
    ctx.check(np.abs(eps).max() < 7, "vae-latent-not-from-posterior", what)
    ctx.check(eps.size < 20 or 0.1 < eps.std() < 3, "vae-latent-not-from-posterior", what)
    ctx.close(n(rec), mx * np.tanh(n(dec.m(dec.seen[-1]))), "vae-reconstruction", what, **TOL)
    lat = torch.as_tensor(rng.normal(0, 3, size=(B, ld)).astype(np.float32))
    l0 = lat.clone()
    ctx.close(n(v.decode(s, lat)), mx * np.tanh(n(dec.m(torch.cat([s, l0], -1)))), "vae-decode", what, **TOL)
    ctx.equal(lat, l0, "input-modified", what)
    y = v.decode(s)
    zz = n(dec.seen[-1])[:, sd:]
    ctx.check(np.abs(zz).max() <= 0.5, "vae-latent-not-clipped", what)
    ctx.check(zz.size < 40 or (np.abs(zz) == 0.5).mean() > 0.2, "vae-latent-not-normal", what)
    ctx.check(np.abs(n(y)).max() <= mx + 1e-6, "vae-action-out-of-range", what)
    ctx.note("vae")
    phi = float(pick(rng, [0.05, 0.5, 1.0]))
    p = shake(C.Perturbation(Net(sd + ad, ad, [5]), mx, phi=phi), rng)
    s0, a0 = s.clone(), a.clone()
    out = p(s, a)
    ctx.equal(a, a0, "input-modified", what)
    ctx.equal(s, s0, "input-modified", what)
    net = n(p.preprocess_net(torch.cat([s, a], -1))[0])
    ctx.close(n(out), np.clip(n(a) + phi * mx * np.tanh(net), -mx, mx), "perturbation", what, **TOL)
    ctx.check(np.abs(n(out) - n(a)).max() <= phi * mx + 1e-5 and np.abs(n(out)).max() <= mx + 1e-6, "perturbation-range", what)
    ctx.note("perturbation")
    # curiosity
    fd, A = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    hs = Spec(rng, plain=True)
    feat = MLP(sd, fd, [3])
    icm = shake(Dn.IntrinsicCuriosityModule(feat, fd, A, hs.hidden), rng)
    s1, s2 = rng.normal(size=(B, sd)), rng.normal(size=(B, sd))
    act = rng.integers(0, A, size=B)
    if rng.random() < 0.5:
        act = torch.as_tensor(act)
    loss, hat = icm(s1, act, s2)
    f1, f2 = n(feat(s1)), n(feat(s2))
    pred = hs(icm.forward_model, np.concatenate([f1, np.eye(A)[np.asarray(act)]], 1), True)
    ctx.close(n(loss), 0.5 * ((pred - f2) ** 2).sum(1), "curiosity-loss", f"icm {sd} {fd} {A}", rtol=1e-3, atol=1e-4)
    ctx.close(n(hat), hs(icm.inverse_model, np.concatenate([f1, f2], 1), True), "curiosity-inverse-model", f"icm {sd} {fd} {A}", **TOL)
    ctx.note("icm")
    ctx.sig(sd, ad, hd, ld, B, mx, phi, fd, A, hs.sig)


def s_dict(ctx, rng):
    ks = [str(v) for v in rng.permutation(["b", "a", "zz", "c"])[: int(rng.integers(1, 5))]]
    shapes = {}
    for k in ks:
        s = tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(0, 4))))
        shapes[k] = s[0] if len(s) == 1 and rng.random() < 0.5 else s
    full = {k: ((s,) if isinstance(s, int) else s) for k, s in shapes.items()}
    use = [str(v) for v in rng.permutation(ks)[: int(rng.integers(1, len(ks) + 1))]]
    deco, total = get_dict_state_decorator(shapes, use)
    ctx.equal(total, sum(int(np.prod(full[k])) for k in use), "flattened-size", f"{shapes} {use}")
    seen = []

    class Probe(nn.Module):
        def forward(self, obs, *a, **kw):
            seen.append((obs, a, kw))
            return obs

    m = deco(Probe)()
    for _ in range(4):
        B = None if rng.random() < 0.4 else int(rng.integers(1, 5))
        kind = pick(rng, ["np", "np32", "torch"])
        obs = {}
        for k in rng.permutation(ks):
            v = np.asarray(rng.normal(size=((B, *full[k]) if B is not None else full[k])))
            obs[str(k)] = v if kind == "np" else v.astype(np.float32) if kind == "np32" else torch.as_tensor(v, dtype=torch.float32)
        keep = copy.deepcopy(obs)
        arg = obs if rng.random() < 0.5 or any(np.ndim(v) == 0 for v in obs.values()) else Batch(obs)
        got = m(arg, "state", x=3)
        what = f"{shapes} use {use} batch {B} {kind} {type(arg).__name__}"
        ctx.equal((seen[-1][1], seen[-1][2]), (("state",), {"x": 3}), "arguments", what)
        ctx.equal(dict(obs), keep, "input-modified", what)
        rows = [n(keep[k]).reshape(-1) if B is None else n(keep[k]).reshape(B, -1) for k in use]
        ctx.close(n(got), np.concatenate(rows, -1), "dict-observation", what)
        ctx.check(got.dtype == torch.float32, "dict-observation-dtype", what)
        ctx.note("dict_obs")
    plain = rng.normal(size=(3, total)).astype(np.float32)
    ctx.close(n(m(plain)), plain, "plain-observation", "")
    net = deco(Net)(total, 3, [4])
    o = {k: rng.normal(size=(2, *full[k])) for k in ks}
    ctx.close(n(net(o)[0]), n(net(np.concatenate([o[k].reshape(2, -1) for k in use], 1).astype(np.float32))[0]), "dict-observation", "Net", **TOL)
    ctx.sig(shapes, use)


def s_random(ctx, rng):
    if rng.random() < 0.5:
        k = int(rng.integers(1, 8))
        sp = gym.spaces.Discrete(k)
    else:
        shape = tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(1, 3))))
        lo = rng.uniform(-3, 0, size=shape).astype(np.float32)
        sp = gym.spaces.Box(lo, (lo + rng.uniform(0.1, 4, size=shape)).astype(np.float32))
    sp.seed(int(rng.integers(2**31)))
    np.random.seed(int(rng.integers(2**31)))
    a = RandomActor(sp)
    disc = isinstance(sp, gym.spaces.Discrete)
    ctx.equal(a.is_discrete, disc, "is-discrete", "")
    ctx.equal(a.get_output_dim(), int(sp.n) if disc else int(np.prod(sp.shape)), "output-dim", str(sp))
    obs = rng.normal(size=(int(rng.integers(1, 60)), 2))
    st = pick(rng, [None, {"h": 1}])
    out, s2 = a(obs, st)
    ctx.check(s2 is st, "state-not-passed-on", "")
    what = f"{sp} {len(obs)}"
    if disc:
        ctx.close(out, np.full((len(obs), sp.n), 1 / sp.n), "uniform-probabilities", what)
    else:
        ctx.check(all(sp.contains(v) for v in out), "illegal-random-action", what)
    pol = RandomActionPolicy(action_space=sp)
    res = pol(Batch(obs=obs, info=Batch()), st)
    ctx.check((res.state is st) if st is None else (dict(res.state) == st), "state-not-passed-on", "")
    acts = np.asarray(res.act)
    ctx.equal(len(acts), len(obs), "rows", what)
    mapped = np.asarray(pol.map_action(acts))
    ctx.check(all(sp.contains(v) for v in mapped.astype(sp.dtype)), "illegal-random-action", what)
    ctx.note("random_actions", len(acts))
    big = np.asarray(pol(Batch(obs=np.zeros((1500, 1)), info=Batch())).act)
    ctx.note("random_actions", len(big))
    if disc:
        c = np.bincount(big, minlength=int(sp.n))
        p = 1 / sp.n
        ctx.check(len(c) == sp.n and np.abs(c - 1500 * p).max() <= 6.5 * np.sqrt(1500 * p * (1 - p)) + 1e-9, "not-uniform", f"{what}: {c}")
    else:
        m = np.asarray(pol.map_action(big)).reshape(1500, -1)
        u = (m - sp.low.reshape(-1)) / (sp.high - sp.low).reshape(-1)
        ctx.check((np.abs(u.mean(0) - 0.5) < 6.5 * np.sqrt(1 / 12 / 1500)).all() and (np.abs((u**2).mean(0) - 1 / 3) < 6.5 * np.sqrt(4 / 45 / 1500)).all(), "not-uniform", f"{what}: {u.mean(0)}")
    ctx.raises(lambda: RandomActionPolicy(action_space=gym.spaces.MultiDiscrete([2, 2])), (NotImplementedError, ValueError), "unsupported-space-accepted", "")
    ctx.note("refused")
    ctx.sig(str(sp), len(obs))


SCENARIOS = [
    Scenario("mlp", s_mlp, 240, 4000),
    Scenario("net", s_net, 300, 5000),
    Scenario("heads", s_heads, 360, 5000),
    Scenario("recurrent", s_recurrent, 150, 2000),
    Scenario("quantile", s_quantile, 80, 1500),
    Scenario("branching", s_branching, 80, 1500),
    Scenario("layers", s_layers, 80, 1200),
    Scenario("bcq", s_bcq, 70, 1200),
    Scenario("dict", s_dict, 100, 1500),
    Scenario("random", s_random, 80, 800),
]
