"""Computing actions: free of side effects, row by row, in evaluation mode, deterministic when asked for."""
from copy import deepcopy

import numpy as np
import torch
from tianshou.data import Batch
from tianshou.policy.base import policy_within_training_step
from torch.distributions import Categorical
from vlib import zoo
from vlib.core import Scenario
from vlib.pol import as_t

RULE = (
    "forward passes of every policy of the library on its own networks (with dropout, action masks, several batch sizes, in and "
    "outside training steps, in both modes); parameters, gradients, inputs and modes are compared before and after, every network "
    "evaluation's mode is recorded, rows are compared with single-row calls, and drawn actions with the reported distribution; "
    "distinct = (policy, options, rows, mode, training step)"
)
MIN = {
    "forwards": 1500, "policies": 36, "eval_mode_evals": 5000, "row_comparisons": 800, "deterministic_modes": 150, "sampled_actions": 60000,
    "masked_rows": 150, "dropout_visible": 60,
}
SQUASH = ("sac", "sac_auto", "redq", "cql")


def mode_act(name, out):
    """The most probable action according to the distribution that came with the action."""
    d = out.dist
    if isinstance(d, Categorical):
        return d.probs.argmax(-1)
    m = d.base_dist.loc
    return torch.tanh(m) if name in SQUASH else m


def is_discrete(it):
    return it.spec.kind in ("disc", "branch")


def snapshot(it):
    pol = it.policy
    grads = {n: None if p.grad is None else p.grad.clone() for n, p in pol.named_parameters()}
    return zoo.tensors(pol), grads, {n: m.training for n, m in pol.named_modules()}, [deepcopy(o.state_dict()) for o in it.optims]


def same(ctx, it, before, what):
    after = snapshot(it)
    ctx.equal(after[0], before[0], "forward-changed-parameters", what)
    for n, g in before[1].items():
        h = after[1][n]
        ctx.check((g is None) == (h is None) and (g is None or torch.equal(g, h)), "forward-changed-gradients", f"{what}: {n}")
    ctx.equal(after[2], before[2], "forward-changed-modes", what)


def logits(out):
    if "dist" in out.get_keys():
        d = out.dist
        return (d.logits,) if isinstance(d, Categorical) else (d.base_dist.loc, d.base_dist.scale)
    lg = out.get("logits", None)
    return None if lg is None else lg if isinstance(lg, tuple | list) else (lg,)


def s_forward(ctx, rng):
    name = zoo.ALL[ctx.case % len(zoo.ALL)]
    ctx.note("policies", ctx.case < len(zoo.ALL))
    drop = float(rng.choice([0.0, 0.5]))
    it = zoo.build(name, rng, drop=drop)
    pol = it.policy
    evals: list = []
    for n, m in pol.named_modules():
        if n:
            m.register_forward_pre_hook(lambda mod, args, q=n: evals.append((q, mod.training)))
    if rng.random() < 0.5:
        for p in pol.parameters():
            p.grad = torch.ones_like(p)
    for _ in range(int(rng.integers(2, 6))):
        train, step = bool(rng.random() < 0.4), bool(rng.random() < 0.5)
        pol.train(train)
        b = zoo.obs_batch(it.spec, rng)
        keep = deepcopy(b)
        before = snapshot(it)
        evals.clear()
        what = f"{name}, {len(b.obs)} rows, training mode {train}, training step {step}"
        with policy_within_training_step(pol, step), torch.set_grad_enabled(bool(rng.random() < 0.5)):
            out = pol(b)
        ctx.note("forwards")
        same(ctx, it, before, what)
        ctx.check(pol.is_within_training_step is False, "training-step-flag", what)
        ctx.equal(b, keep, "forward-changed-input", what)
        ctx.check(len(evals) > 0, "no-network-evaluated", what)
        if not train:
            for q, tr in evals:
                ctx.check(not tr, "train-mode-in-evaluation", f"{what}: {q}")
            ctx.note("eval_mode_evals", len(evals))
        act = np.asarray(out.act.detach() if isinstance(out.act, torch.Tensor) else out.act)
        ctx.equal(len(act), len(b.obs), "rows", what)
        if name == "iqn":
            ctx.equal(out.logits.shape[2], pol.online_sample_size if train else pol.sample_size, "quantile-samples", what)
        if it.spec.masked:
            m = b.obs.mask
            ctx.check(all(m[i, int(a)] for i, a in enumerate(act)), "masked-action-chosen", f"{what}: {act} {m}")
            ctx.note("masked_rows", len(act))
        if is_discrete(it):
            ctx.check(act.dtype.kind in "iu" and act.min() >= 0 and act.max() < it.spec.n, "action-range", f"{what}: {act}")
        if "dist" in out.get_keys():
            m = mode_act(name, out)
            det = it.det and not step
            if det:
                ctx.close(act, m, "not-deterministic", f"{what}: deterministic evaluation", rtol=1e-5, atol=1e-6)
                ctx.note("deterministic_modes")
        if not train:
            # outputs of a row do not depend on the other rows or on the order
            perm = rng.permutation(len(b.obs))
            with policy_within_training_step(pol, step), torch.no_grad():
                outs = [pol(b[[int(i)]]) for i in perm]
            for i, o in zip(perm, outs):
                lg, lo = logits(out), logits(o)
                if lg is not None and name not in ("iqn", "bcq"):
                    for a, c in zip(lg, lo):
                        ctx.close(c[0], a[i], "row-dependence", f"{what}: logits of row {i}", rtol=1e-4, atol=1e-5)
                    ctx.note("row_comparisons")
                if not it.stochastic or (it.det and not step):
                    if is_discrete(it) and lg is not None and name not in ("fqf",):
                        # ties and rounding: the logits decide
                        if np.ndim(lg[0]) == 2 and act.ndim == 1 and name != "dbcq":
                            v = np.asarray(lg[0].detach() if isinstance(lg[0], torch.Tensor) else lg[0])[i]
                            ctx.close(v[int(o.act[0])], v[act[i]], "row-dependence", f"{what}: action {o.act[0]} instead of {act[i]} of row {i}, values {v}", rtol=1e-4, atol=1e-5)
                            ctx.note("row_choices")
                    else:
                        ctx.close(np.asarray(o.act.detach() if isinstance(o.act, torch.Tensor) else o.act)[0], act[i], "row-dependence", f"{what}: action of row {i}", rtol=1e-4, atol=1e-5)
                    ctx.note("row_comparisons")
        elif drop and name not in ("rainbow", "bdq", "c51", "qrdqn", "dcql", "redq", "bcq"):
            ctx.note("dropout_visible", any(tr for q, tr in evals))
        ctx.sig(name, drop, len(b.obs), train, step, it.det)
    ctx.sample({"policy": name, "deterministic_eval": it.det, "evaluations": len(evals)})


def s_sampling(ctx, rng):
    """Drawn actions follow the distribution; deterministic evaluation only outside training steps."""
    names = [n for n in zoo.ALL if n in zoo.DET_EVAL or n == "dcrr"]
    name = names[ctx.case % len(names)]
    it = zoo.build(name, rng, drop=0.0)
    pol = it.policy
    train = bool(rng.random() < 0.5)
    pol.train(train)
    one = zoo.obs_batch(it.spec, rng, rows=1)
    N = 1500
    big = Batch(obs=np.repeat(one.obs, N, axis=0), info=Batch())
    for step in (False, True):
        with policy_within_training_step(pol, step), torch.no_grad():
            out = pol(big)
        act = as_t(out.act)
        what = f"{name}, deterministic_eval {it.det}, training mode {train}, training step {step}"
        if it.det and not step:
            ctx.close(act, mode_act(name, out), "not-deterministic", what, rtol=1e-5, atol=1e-6)
            ctx.note("deterministic_modes")
            continue
        ctx.note("sampled_actions", N)
        if isinstance(out.dist, Categorical):
            p = out.dist.probs[0].double().numpy()
            n = np.bincount(act.numpy().astype(int), minlength=len(p))
            lim = 6.5 * np.sqrt(N * p * (1 - p)) + 3
            ctx.check((abs(n - N * p) <= lim).all(), "sampling-frequencies", f"{what}: {n} expected {N * p}")
        else:
            d = out.dist.base_dist
            a = act.double()
            if name in SQUASH:
                ctx.check(bool((a.abs() <= 1).all()), "squashed-range", what)
                a = torch.atanh(a.clamp(-1 + 1e-7, 1 - 1e-7))
            z = (a - d.loc.double()) / d.scale.double()
            if name in SQUASH and float((act.abs() > 0.9999).float().mean()) > 0.001:
                ctx.note("saturated")
                continue
            ctx.check(float(z.mean(0).abs().max()) < 6.5 / np.sqrt(N), "sampling-mean", f"{what}: {z.mean(0)}")
            ctx.check(float((z.std(0) - 1).abs().max()) < 6.5 / np.sqrt(2 * N) + 0.01, "sampling-spread", f"{what}: {z.std(0)}")
            if z.shape[1] > 1:
                c = np.corrcoef(z.T.numpy())
                ctx.check(abs(c - np.eye(len(c))).max() < 6.5 / np.sqrt(N), "sampling-correlation", f"{what}: {c}")
        ctx.check(float((act[1:] - act[:1]).abs().max()) > 0 or (isinstance(out.dist, Categorical) and float(out.dist.probs[0].max()) > 0.98), "not-sampled", what)
        ctx.sig(name, it.det, train, step, one.obs)


SCENARIOS = [
    Scenario("forward", s_forward, 576, 7200),
    Scenario("sampling", s_sampling, 80, 1500),
]
