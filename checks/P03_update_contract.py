"""What every policy's update has in common: protocol, modes, isolation, repeatability."""
import random
import time
from copy import deepcopy

import numpy as np
import torch
from tianshou.data import Batch
from tianshou.policy.base import TrainingStats, policy_within_training_step
from vlib import zoo
from vlib.bufmodel import storage
from vlib.core import Scenario, diff
from vlib.pol import Rig

RULE = (
    "real updates of every policy of the library (its own networks with dropout) on random experience in every buffer class; "
    "hooks record the order of the update's steps, the mode of every network at every evaluation, learning-rate steps, and "
    "buffer contents; twins (deep copies, restored parameters) are updated with the same random numbers; distinct = "
    "(policy, seed-drawn options, ring states, indices)"
)
MIN = {
    "updates": 400, "policies": 30, "refused_updates": 100, "train_mode_evals": 3000, "target_evals": 600, "twin_updates": 200, "restored": 100,
    "eval_before": 100, "interleaved_forwards": 100,
}


def flat(b, pre=""):
    out = {}
    for k in b.get_keys():
        v = b[k]
        if isinstance(v, Batch):
            out.update(flat(v, pre + k + "."))
        else:
            out[pre + k] = np.array(v, copy=True)
    return out


def opt_state(it):
    return [deepcopy(o.state_dict()) for o in it.optims]


def seed_all(s):
    random.seed(s)
    np.random.seed(s)
    torch.manual_seed(s)


def modes(policy):
    return {n: m.training for n, m in policy.named_modules()}


def draw(ctx, rng, **kw):
    name = zoo.ALL[int(rng.integers(len(zoo.ALL)))] if "name" not in kw else kw.pop("name")
    it = zoo.build(name, rng, drop=float(rng.choice([0.0, 0.3])), adam=bool(rng.random() < 0.5), **kw)
    while True:  # normalising advantages needs two rows
        rig = Rig(ctx, rng, it.spec, it.policy, [], kinds=it.kinds)
        rig.grow(2, 9)
        if len(rig.d.model) >= 2:
            break
    return it, rig


def size_of(it, rng):
    return it.sample if it.sample is not None else int(rng.choice([1, 2, 3, 4, 5, 6]))


def prepare(it, rig):
    if it.name == "cql":
        it.policy.process_buffer(rig.d.buf)


def s_contract(ctx, rng):
    name = zoo.ALL[ctx.case % len(zoo.ALL)]
    it, rig = draw(ctx, rng, name=name)
    ctx.note("policies", ctx.case < len(zoo.ALL))
    pol, buf = it.policy, rig.d.buf
    log: list = []
    evals: list = []
    phase = [None]
    watched = {}
    for role, paths in (("online", it.online), ("target", it.targets)):
        for p in paths:
            for n, m in zoo.sub(pol, p).named_modules():
                watched[id(m)] = (role, f"{p}.{n}")
                m.register_forward_pre_hook(lambda mod, args, r=role, q=f"{p}.{n}": evals.append((phase[0], r, q, mod.training)))

    def spy(fname):
        orig = getattr(pol, fname)

        def f(*a, **k):
            was, phase[0] = phase[0], fname
            if fname == "learn":
                a, k = (a[:1] or (k["batch"],)), {n: v for n, v in k.items() if n != "batch"}
                log.append((fname, pol.updating, a, k))
            else:
                # (batch, buffer, indices), however they are passed
                log.append((fname, pol.updating, [*a, *k.values()], {}))
            try:
                r = orig(*a, **k)
            finally:
                phase[0] = was
            log.append((fname + ":end", pol.updating, r, None))
            return r

        setattr(pol, fname, f)

    for f in ("process_fn", "learn", "post_process_fn"):
        spy(f)
    orig_step = it.sched.step
    it.sched.step = lambda: (log.append(("sched", pol.updating, None, None)), orig_step())[1]
    for u in range(int(rng.integers(1, 4))):
        rig.grow(0, 3)
        size = size_of(it, rng)
        train_before = bool(rng.random() < 0.5)
        pol.train(train_before)
        ctx.note("eval_before", not train_before)
        what = f"{name}, buffer {rig.d.kind}, update {u}"
        # outside a training step: refused without effect
        before, state, content, nsched = zoo.tensors(pol), opt_state(it), flat(storage(buf)), it.sched.n
        log.clear()
        ctx.raises(lambda: pol.update(size, buf, **it.kw), RuntimeError, "update-outside-training-step", what)
        ctx.equal(zoo.tensors(pol), before, "refused-update-changed-parameters", what)
        ctx.check(not log and it.sched.n == nsched and not pol.updating, "refused-update-ran", what)
        ctx.note("refused_updates")
        m0 = modes(pol)
        evals.clear()
        rig.sampled.clear()
        t0 = time.time()
        st, idx, w = rig.update(size, **it.kw)
        wall = time.time() - t0
        seq = [e[0] for e in log]
        want = ["process_fn", "process_fn:end", "learn", "learn:end", "post_process_fn", "post_process_fn:end", "sched"]
        ctx.equal(seq, want, "update-order", what)
        ctx.check(all(e[1] for e in log[:6]), "updating-flag", f"{what}: {[(e[0], e[1]) for e in log]}")
        ctx.check(not pol.updating, "updating-flag", f"{what}: still set afterwards")
        pf = log[0][2]
        ctx.check(pf[1] is buf, "process_fn-arguments", what)
        ctx.equal(np.asarray(pf[2]), idx, "process_fn-indices", what)
        ctx.check(log[2][2][0] is log[1][2], "learn-arguments", f"{what}: learn does not get the processed batch")
        ctx.check({k: v for k, v in log[2][3].items()} == it.kw, "learn-arguments", f"{what}: {log[2][3]}")
        ctx.check(log[4][2][0] is log[1][2] and log[4][2][1] is buf, "post_process_fn-arguments", what)
        ctx.equal(np.asarray(log[4][2][2]), idx, "post_process_fn-indices", what)
        ctx.check(isinstance(st, TrainingStats) or hasattr(st, "wrapped_stats"), "stats-type", f"{what}: {type(st)}")
        ctx.check(0 <= st.train_time <= wall + 1e-3, "train-time", f"{what}: {st.train_time} of {wall}")
        ctx.equal(modes(pol), m0 if name != "rainbow" else {**m0, **{k: v for k, v in modes(pol).items() if k.startswith("model_old")}}, "mode-not-restored", what)
        for ph, role, q, tr in evals:
            if role == "target":
                ctx.note("target_evals")
                if name != "rainbow":
                    ctx.check(not tr, "target-in-train-mode", f"{what}: {q} during {ph}")
            elif ph == "learn":
                ctx.note("train_mode_evals")
                ctx.check(tr, "online-in-eval-mode", f"{what}: {q} during learn")
            else:
                ctx.check(tr == train_before, "processing-mode", f"{what}: {q} during {ph}: training={tr}, before the update {train_before}")
        ctx.equal(it.sched.n, nsched + 1, "lr-scheduler", what)
        after = flat(storage(buf))
        d = diff(after, content)
        ctx.check(d is None, "buffer-modified", lambda d=d: f"{what}: {d}")
        ctx.check(it.drop > 0 or any(not torch.equal(a, b) for a, b in zip(zoo.tensors(pol).values(), before.values())), "nothing-learned", what)
        ctx.sig(name, idx.tolist(), rig.d.kind, tuple((len(r.items), r.ptr) for r in rig.d.model.rings))
        ctx.note("updates")
    before = zoo.tensors(pol)
    with policy_within_training_step(pol):
        r = pol.update(0, None, **it.kw)
    ctx.check(isinstance(r, TrainingStats), "stats-type", "update without a buffer")
    ctx.equal(zoo.tensors(pol), before, "update-without-buffer", name)
    ctx.sample({"policy": name, "buffer": rig.d.kind, "stored": len(rig.d.model), "evaluations": len(evals)})


def run_updates(it_pol, buf, plan, kw, inter=None):
    for s, size in plan:
        if inter is not None:
            inter()
        seed_all(s)
        with policy_within_training_step(it_pol):
            it_pol.train()
            it_pol.update(size, buf, **kw)


def plain(rig):
    """Remove the observers, so that deep copies are ordinary buffers."""
    buf = rig.d.buf
    buf.__dict__.pop("sample", None)
    buf.__dict__.pop("update_weight", None)
    return buf


def s_twins(ctx, rng):
    """The same experience, parameters and random numbers give the same update; twins never influence each other."""
    name = zoo.ALL[ctx.case % len(zoo.ALL)]
    it, rig = draw(ctx, rng, name=name)
    buf = plain(rig)
    pol = it.policy
    plan = [(int(rng.integers(2**31)), size_of(it, rng)) for _ in range(int(rng.integers(1, 5)))]
    head = int(rng.integers(0, 2))
    run_updates(pol, buf, [(7 + k, size_of(it, rng)) for k in range(head)], it.kw)
    twin, tbuf = deepcopy(pol), deepcopy(buf)
    start = zoo.tensors(pol)
    what = f"{name}, buffer {rig.d.kind}, {head}+{len(plan)} updates"
    ctx.equal(zoo.tensors(twin), start, "copy-differs", what)
    run_updates(pol, buf, plan, it.kw)
    end = zoo.tensors(pol)
    ctx.equal(zoo.tensors(twin), start, "copy-shares-parameters", f"{what}: updating the original changed its copy")
    obs = [zoo.obs_batch(it.spec, rng) for _ in plan]

    def forward():
        o = obs[int(rng.integers(len(obs)))]
        twin.train(bool(rng.random() < 0.5))
        with torch.no_grad():
            twin(o)
        ctx.note("interleaved_forwards")

    run_updates(twin, tbuf, plan, it.kw, forward)
    ctx.equal(zoo.tensors(twin), end, "update-not-repeatable", f"{what}: same experience, parameters and random numbers")
    ctx.equal(zoo.tensors(pol), end, "copy-shares-parameters", f"{what}: updating the copy changed the original")
    ctx.equal(flat(storage(tbuf)), flat(storage(buf)), "buffers-differ", what)
    ctx.note("twin_updates", len(plan))
    # saved parameters restore the policy's behaviour in a fresh instance
    ctx.check(all("*" in k or k in pol.state_dict() for k in end), "state-dict", what)
    sd = {k: v.clone() for k, v in pol.state_dict().items()}
    fresh = twin
    with torch.no_grad():
        for p in fresh.parameters():
            p.add_(torch.randn(p.shape) * 0.1)
    fresh.load_state_dict(sd)
    o = obs[0]
    for p in (pol, fresh):
        p.eval()
    acts = []
    for p in (pol, fresh):
        seed_all(3)
        with torch.no_grad():
            acts.append(p(o).act)
    ctx.equal(acts[1], acts[0], "restored-policy-acts-differently", what)
    ctx.note("restored")
    ctx.sig(name, [p[0] for p in plan], rig.d.kind)


def natural(fn):
    """NPG and TRPO divide by zero if the policy gradient vanishes (tiny symmetric batches): not judged here."""

    def run(ctx, rng):
        try:
            fn(ctx, rng)
        except ValueError as e:
            if zoo.ALL[ctx.case % len(zoo.ALL)].startswith(("npg", "trpo")) and "Expected parameter" in str(e):
                ctx.note("vanishing_gradient")
                return
            raise

    return run


SCENARIOS = [
    Scenario("contract", natural(s_contract), 180, 2500),
    Scenario("twins", natural(s_twins), 150, 2200),
]
