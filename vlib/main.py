"""Runs one property's scenarios in forked shards, merges what the monitors saw."""
from __future__ import annotations

import glob
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time

from vlib import core


def load(prop: str):
    (path,) = glob.glob(os.path.join(core.VERIF, "checks", f"{prop}_*.py"))
    return importlib.import_module("checks." + os.path.basename(path)[:-3])


def known_findings(prop: str) -> list[dict]:
    with open(os.path.join(core.VERIF, "known_findings.json")) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == prop]


def match_known(k: dict, v: dict) -> bool:
    return (
        v["type"] == "violation"
        and v["kind"] == k["kind"]
        and v["scenario"] == k["scenario"]
        and all(s in v["msg"] for s in k.get("contains", []))
    )


def shard_main(mod, prop, tier, seed, shard, nshards, out, deadline):
    ctx = core.Ctx(prop, tier, seed)
    issues: list[dict] = []
    ran: dict[str, int] = {}
    known = known_findings(prop)
    nviol = 0
    # round-robin over scenarios so that a time cap starves none of them
    queues = []
    for si, sc in enumerate(mod.SCENARIOS):
        n = sc.quick if tier == "quick" else sc.thorough
        if sc.solo:
            idx = list(range(n)) if (si % nshards) == shard else []
        else:
            idx = [i for i in range(n) if (i + si) % nshards == shard]
        queues.append((sc, idx))
    total = sum(len(q) for _, q in queues)
    done = 0
    pos = [0] * len(queues)
    stop = False
    scen_time: dict[str, float] = {}
    while done < total and not stop:
        # pick the scenario with the smallest completed fraction
        best, bf = None, 2.0
        for k, (sc, q) in enumerate(queues):
            if pos[k] < len(q):
                f = pos[k] / len(q)
                if f < bf:
                    best, bf = k, f
        sc, q = queues[best]
        i = q[pos[best]]
        pos[best] += 1
        done += 1
        t_case = time.monotonic()
        r = core.run_case(ctx, sc, i)
        scen_time[sc.name] = scen_time.get(sc.name, 0.0) + time.monotonic() - t_case
        ran[sc.name] = ran.get(sc.name, 0) + 1
        if r is not None:
            r.update(scenario=sc.name, case=i, seed=seed, tier=tier, property=prop)
            r["known"] = next((k["id"] for k in known if match_known(k, r)), None)
            issues.append(r)
            if r["type"] in ("violation", "timeout") and r["known"] is None:
                nviol += 1
                if nviol >= 3:
                    stop = True
        if time.monotonic() > deadline:
            break
    with open(out + ".tmp", "w") as f:
        json.dump(
            {
                "issues": issues,
                "ran": ran,
                "planned": total,
                "counters": ctx.counters,
                "sigs": sorted(ctx.sigs),
                "samples": ctx.samples,
                "time": scen_time,
            },
            f,
        )
    os.rename(out + ".tmp", out)
    cover_dump(prop)


# -- debugging aid (VERIF_COVER=dir): which lines of tianshou did the workloads reach --
def cover_start() -> None:
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "verif")
    root = core.REPO + "/tianshou/"

    def hit(code, line):
        if code.co_filename.startswith(root):
            COVER.add((code.co_filename[len(root) :], line))
        return mon.DISABLE

    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, hit)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


COVER: set = set()


def cover_dump(prop: str) -> None:
    d = os.environ.get("VERIF_COVER")
    if d:
        with open(os.path.join(d, f"{prop}-{os.getpid()}.json"), "w") as f:
            json.dump(sorted(COVER), f)


def spawn(fn) -> int:
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        rc = 0
        try:
            os.setsid()
            fn()
        except BaseException:  # noqa: BLE001
            import traceback

            traceback.print_exc()
            rc = 7
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(rc)
    return pid


def reap(pids: set[int], until: float) -> set[int]:
    """Wait for the given children; returns those that had to be killed."""
    left = set(pids)
    while left and time.monotonic() < until:
        for p in list(left):
            r, _ = os.waitpid(p, os.WNOHANG)
            if r:
                left.discard(p)
                killpg(p)
        time.sleep(0.02)
    for p in left:
        killpg(p)
        try:
            os.waitpid(p, 0)
        except ChildProcessError:
            pass
    return left


def killpg(p: int) -> None:
    try:
        os.killpg(p, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def replay(path: str) -> int:
    with open(path) as f:
        v = json.load(f)
    mod = load(v["property"])
    ctx = core.Ctx(v["property"], v["tier"], v["seed"])
    sc = next(s for s in mod.SCENARIOS if s.name == v["scenario"])
    r = core.run_case(ctx, sc, v["case"])
    print(json.dumps(r, indent=1))
    return 0 if r is None else 1


def main() -> int:
    import logging

    logging.disable(logging.CRITICAL)
    t0 = time.monotonic()
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay(args[1])
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = os.environ.get("VERIF_ONLY")  # debugging aid: one scenario
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cap = 420.0 if tier == "quick" else float(os.environ.get("VERIF_CAP", "3000"))

    import torch

    torch.set_num_threads(1)
    if os.environ.get("VERIF_COVER"):
        cover_start()
    import tianshou

    if not os.path.abspath(tianshou.__file__).startswith(core.REPO + "/"):
        print("ERROR: tianshou not imported from /repo")
        return 3
    mod = load(prop)
    if only:
        mod.SCENARIOS = [s for s in mod.SCENARIOS if s.name in only.split(",")]
    nsh = int(os.environ.get("VERIF_SHARDS", "0")) or getattr(mod, "SHARDS", 6)
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    os.environ["VERIF_SCRATCH"] = work
    issues: list[dict] = []
    counters: dict[str, int] = {}
    sigs: set[str] = set()
    samples: list = []
    ran: dict[str, int] = {}
    times: dict[str, float] = {}
    planned = 0
    lost = []
    try:
        pids = {}
        for s in range(nsh):
            out = os.path.join(work, f"shard{s}.json")
            pids[
                spawn(lambda s=s, out=out: shard_main(mod, prop, tier, seed, s, nsh, out, t0 + cap))
            ] = s
        killed = reap(set(pids), t0 + cap + 240)
        for p, s in pids.items():
            f = os.path.join(work, f"shard{s}.json")
            if not os.path.exists(f):
                lost.append(s)
                continue
            with open(f) as fh:
                d = json.load(fh)
            issues += d["issues"]
            planned += d["planned"]
            for k, n in d["counters"].items():
                counters[k] = counters.get(k, 0) + n
            for k, n in d["ran"].items():
                ran[k] = ran.get(k, 0) + n
            for k, n in d["time"].items():
                times[k] = times.get(k, 0) + n
            sigs |= set(d["sigs"])
            for smp in d["samples"]:
                if sum(1 for x in samples if x["scenario"] == smp["scenario"]) < 2:
                    samples.append(smp)
        # a case that made no progress is only a violation if a fresh process,
        # given the same case again, makes no progress either
        for n_to, v in enumerate([v for v in issues if v["type"] == "timeout"]):
            if n_to >= 2:
                break
            sc = next(s for s in mod.SCENARIOS if s.name == v["scenario"])
            out = os.path.join(work, "confirm.json")

            def again(sc=sc, v=v, out=out):
                r = core.run_case(core.Ctx(prop, tier, seed), sc, v["case"])
                with open(out, "w") as fh:
                    json.dump(r, fh)

            p = spawn(again)
            reap({p}, time.monotonic() + sc.timeout + 30)
            r = None
            if os.path.exists(out):
                with open(out) as fh:
                    r = json.load(fh)
                os.remove(out)
                if r is not None and r["type"] == "timeout":
                    v["type"] = "violation"
                    v["msg"] += " (twice, in separate processes)"
            else:
                v["type"] = "violation"
                v["msg"] += " (twice, in separate processes)"
    finally:
        shutil.rmtree(work, ignore_errors=True)

    os.makedirs(os.path.join(core.VERIF, "evidence", "replay"), exist_ok=True)
    known = known_findings(prop)
    seen_known = {v["known"] for v in issues if v.get("known")}
    viol = [v for v in issues if v["type"] == "violation" and not v.get("known")]
    harness = [v for v in issues if v["type"] == "harness"]
    incon = [v for v in issues if v["type"] in ("inconclusive", "timeout")]
    missing = {}
    if not only:
        for k, n in getattr(mod, "MIN", {}).items():
            if counters.get(k, 0) < n:
                missing[k] = (counters.get(k, 0), n)
        for sc in mod.SCENARIOS:
            if ran.get(sc.name, 0) == 0:
                missing[sc.name] = (0, 1)

    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": sum(ran.values()),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:12],
            "scenarios": ran,
            "scenario_cpu_s": {k: round(v, 2) for k, v in times.items()},
            "planned": planned,
            "observed": dict(sorted(counters.items())),
            "inconclusive_cases": len(incon),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(viol),
    }
    evf = os.path.join(core.VERIF, "evidence", f"{prop}.json")
    with open(evf + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(evf + ".tmp", evf)

    for k in known:
        if k["id"] in seen_known:
            print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
    if viol:
        for n, v in enumerate(viol[:5]):
            rp = os.path.join(core.VERIF, "evidence", "replay", f"{prop}-{n}.json")
            with open(rp, "w") as f:
                json.dump(v, f, indent=1)
            print(f"VIOLATION property={prop} replay={rp}")
            print(f"   {v['scenario']}#{v['case']} [{v['kind']}] {v['msg'][:1500]}")
        return 1
    print(
        f"{prop} {tier}: {sum(ran.values())} executions, {len(sigs)} distinct, "
        f"{counters.get('assertions', 0)} monitor assertions, {ev['wall_s']}s",
    )
    if harness:
        print(f"ERROR: {len(harness)} harness errors\n{harness[0]['scenario']}#{harness[0]['case']}\n{harness[0]['msg']}")
        return 3
    if lost:
        print(f"ERROR: shards {lost} gave no result")
        return 4
    if missing:
        print(f"INCONCLUSIVE: the deciding monitors saw too little: {missing}")
        return 2
    if len(incon) > max(2, 0.02 * sum(ran.values())):
        print(f"INCONCLUSIVE: {len(incon)} undecided cases, e.g. {incon[0]}")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
