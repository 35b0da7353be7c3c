"""Run-time monitoring core: contexts, violations, counters, known findings."""
from __future__ import annotations

import hashlib
import json
import os
import random
import re
import signal
import sys
import time
import traceback
import zlib
from dataclasses import dataclass, field
from typing import Any, Callable

import numpy as np

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The monitor observed an execution that refutes the property."""

    def __init__(self, kind: str, msg: str) -> None:
        super().__init__(f"[{kind}] {msg}")
        self.kind = kind
        self.msg = msg


class Inconclusive(Exception):
    """The case could not be decided (environment trouble, not the code)."""


class CaseTimeout(BaseException):
    pass


@dataclass
class Scenario:
    name: str
    fn: Callable[["Ctx", np.random.Generator], None]
    quick: int
    thorough: int
    timeout: int = 150
    # True: never shard, all cases run in one shard (e.g. Ray)
    solo: bool = False


@dataclass
class Ctx:
    prop: str
    tier: str
    seed: int
    scenario: str = ""
    case: int = 0
    counters: dict[str, int] = field(default_factory=dict)
    sigs: set[str] = field(default_factory=set)
    samples: list[Any] = field(default_factory=list)
    trace: list[Any] = field(default_factory=list)

    # -- coverage ---------------------------------------------------------
    def note(self, key: str, n: int = 1) -> None:
        self.counters[key] = self.counters.get(key, 0) + int(n)

    def sig(self, *parts: Any) -> None:
        """Record a distinct, non-trivial observed case/state signature."""
        h = hashlib.blake2b(repr((self.scenario, parts)).encode(), digest_size=8).hexdigest()
        self.sigs.add(h)

    def sample(self, obj: Any, limit: int = 2) -> None:
        """Keep up to `limit` written-out samples per scenario."""
        if sum(1 for s in self.samples if s.get("scenario") == self.scenario) < limit:
            self.samples.append(
                {"scenario": self.scenario, "case": self.case, "what": _jsonable(obj)},
            )

    # -- verdicts ---------------------------------------------------------
    def fail(self, kind: str, msg: str = "") -> None:
        raise Violation(kind, msg)

    def check(self, cond: Any, kind: str, msg: Any = "") -> None:
        self.counters["assertions"] = self.counters.get("assertions", 0) + 1
        if not bool(cond):
            raise Violation(kind, str(msg() if callable(msg) else msg)[:2000])

    def equal(self, got: Any, want: Any, kind: str, msg: Any = "") -> None:
        self.counters["assertions"] = self.counters.get("assertions", 0) + 1
        d = diff(got, want)
        if d is not None:
            raise Violation(kind, f"{msg() if callable(msg) else msg}: {d}"[:2000])

    def close(
        self, got: Any, want: Any, kind: str, msg: Any = "", rtol: float = 1e-5, atol: float = 1e-6,
    ) -> None:
        self.counters["assertions"] = self.counters.get("assertions", 0) + 1
        d = diff(got, want, rtol=rtol, atol=atol)
        if d is not None:
            raise Violation(kind, f"{msg() if callable(msg) else msg}: {d}"[:2000])

    def raises(self, fn: Callable[[], Any], exc: Any, kind: str, msg: str = "") -> None:
        self.counters["assertions"] = self.counters.get("assertions", 0) + 1
        try:
            r = fn()
        except exc:
            return
        raise Violation(kind, f"{msg}: expected {exc}, got result {r!r}"[:2000])


def _jsonable(o: Any) -> Any:
    try:
        json.dumps(o)
        return o
    except Exception:
        if isinstance(o, dict):
            return {str(k): _jsonable(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [_jsonable(v) for v in o]
        if isinstance(o, np.ndarray):
            return o.tolist() if o.size < 64 else f"array{o.shape}{o.dtype}"
        if isinstance(o, np.generic):
            return o.item()
        return repr(o)[:300]


def _to_np(x: Any) -> Any:
    if type(x).__module__.startswith("torch") and hasattr(x, "detach"):
        return x.detach().cpu().numpy()
    return x


def diff(got: Any, want: Any, rtol: float = 0.0, atol: float = 0.0, path: str = "") -> str | None:
    """None if equal (NaN == NaN), otherwise a short description."""
    got, want = _to_np(got), _to_np(want)
    if isinstance(want, dict):
        if not hasattr(got, "keys") and hasattr(got, "get_keys"):
            got = {k: got[k] for k in got.get_keys()}
        if set(got.keys()) != set(want.keys()):
            return f"{path}: keys {sorted(map(str, got.keys()))} != {sorted(map(str, want.keys()))}"
        for k in want:
            d = diff(got[k], want[k], rtol, atol, f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            return f"{path}: shape {g.shape} != {w.shape} (got {g!r:.200}, want {w!r:.200})"
        if g.dtype == object or w.dtype == object:
            for i, (a, b) in enumerate(zip(g.ravel().tolist(), w.ravel().tolist())):
                d = diff(a, b, rtol, atol, f"{path}[{i}]")
                if d:
                    return d
            return None
        if g.dtype.kind in "OSU" or w.dtype.kind in "OSU":
            ok = bool(np.array_equal(g, w))
        else:
            ok = bool(
                np.allclose(g.astype(np.float64), w.astype(np.float64), rtol=rtol, atol=atol, equal_nan=True)
                if (rtol or atol)
                else np.array_equal(g, w, equal_nan=(g.dtype.kind == "f" and w.dtype.kind == "f")),
            )
        return None if ok else f"{path}: got {np.array2string(g, threshold=40)} want {np.array2string(w, threshold=40)}"
    if isinstance(want, (list, tuple)):
        if len(got) != len(want):
            return f"{path}: len {len(got)} != {len(want)}: {got!r:.200} vs {want!r:.200}"
        for i, (a, b) in enumerate(zip(got, want)):
            d = diff(a, b, rtol, atol, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(want, (float, np.floating)) or isinstance(got, (float, np.floating)):
        try:
            g, w = float(got), float(want)
        except Exception:
            return f"{path}: got {got!r} want {want!r}"
        if g == w or (g != g and w != w) or abs(g - w) <= atol + rtol * abs(w):
            return None
        return f"{path}: got {g!r} want {w!r}"
    try:
        ok = bool(got == want)
    except Exception as e:  # noqa: BLE001
        return f"{path}: cannot compare {got!r:.100} and {want!r:.100}: {e!r}"
    return None if ok else f"{path}: got {got!r:.300} want {want!r:.300}"


# ---------------------------------------------------------------------------
def case_rng(prop: str, scenario: str, seed: int, i: int) -> np.random.Generator:
    key = zlib.crc32(f"{prop}/{scenario}".encode())
    return np.random.default_rng([seed & 0xFFFFFFFF, key, i])


def _alarm(signum: int, frame: Any) -> None:
    raise CaseTimeout()


def repo_frame(tb: Any) -> str | None:
    """Deepest frame inside the checked code, if the exception passed through it."""
    found = None
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(REPO + "/tianshou"):
            found = f"{os.path.relpath(fr.filename, REPO)}:{fr.name}"
    return found


MALFORMED = (AttributeError, TypeError, LookupError, ValueError, ZeroDivisionError)


def run_case(ctx: Ctx, sc: Scenario, i: int) -> dict | None:
    """Run one case; returns a violation/issue dict or None."""
    import torch

    ctx.scenario, ctx.case, ctx.trace = sc.name, i, []
    rng = case_rng(ctx.prop, sc.name, ctx.seed, i)
    g = int(rng.integers(2**31 - 1))
    random.seed(g)
    np.random.seed(g)
    torch.manual_seed(g)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(sc.timeout)
    try:
        sc.fn(ctx, rng)
        return None
    except Violation as v:
        return {"type": "violation", "kind": v.kind, "msg": v.msg, "trace": _jsonable(ctx.trace[-60:])}
    except CaseTimeout:
        return {"type": "timeout", "kind": "no-progress", "msg": f"case exceeded {sc.timeout}s"}
    except Inconclusive as e:
        return {"type": "inconclusive", "kind": "inconclusive", "msg": str(e)}
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa: BLE001
        fr = repo_frame(e.__traceback__)
        txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if fr is not None:
            return {
                "type": "violation",
                "kind": f"crash:{type(e).__name__}",
                "msg": f"{type(e).__name__}: {str(e)[:300]} in {fr}",
                "trace": [txt, _jsonable(ctx.trace[-60:])],
            }
        if isinstance(e, MALFORMED) and not re.search(r"attribute '_[a-z]", str(e)):
            # the monitor could not read a result as what it must be (None, a missing key, another type or shape)
            at = traceback.extract_tb(e.__traceback__)[-1]
            return {
                "type": "violation",
                "kind": "malformed-result",
                "msg": f"{type(e).__name__}: {str(e)[:300]} when reading a result in {os.path.basename(at.filename)}: {(at.line or '')[:120]}",
                "trace": [txt, _jsonable(ctx.trace[-60:])],
            }
        return {"type": "harness", "kind": "harness-error", "msg": txt}
    finally:
        signal.alarm(0)
