"""Registry of sub-checks and the generated-input driver."""

from __future__ import annotations

import hashlib
import json
import os
import signal
import time
import traceback
import warnings
from dataclasses import dataclass, field
from typing import Any, Callable

REGISTRY: dict[str, list["Sub"]] = {}


class Violation(AssertionError):
    """The property does not hold for the case at hand.

    signature identifies a specific known finding (see known_findings.txt).
    """

    def __init__(self, msg: str, signature: str | None = None) -> None:
        super().__init__(msg)
        self.signature = signature


class Skip(Exception):
    """The case is outside the property's domain (counted as not evaluated)."""


class Hang(BaseException):
    """A single case took longer than CASE_LIMIT seconds."""


CASE_LIMIT = 100.0
JOURNAL: str | None = None  # file that holds the case being evaluated, if set


def _alarm(signum, frame):
    raise Hang(f"the case did not finish within {CASE_LIMIT:.0f} s")


class _Abort(BaseException):
    """Stop shrinking, or generation, because the time budget is used up."""


@dataclass
class Sub:
    prop: str
    name: str
    strategy: Callable[[], Any]
    check: Callable[[dict], Any]
    rule: str
    quick: int
    thorough: int
    shards: int = 1
    doc: str = ""


def sub(prop: str, *, strategy, rule: str, quick: int = 150, thorough: int | None = None, shards: int = 1):
    """Register a sub-check: ``check(case)`` raises on violation, returns whether non-trivial."""

    def deco(fn):
        s = Sub(prop, fn.__name__, strategy, fn, rule, quick, thorough or quick * 25, shards, (fn.__doc__ or "").strip())
        REGISTRY.setdefault(prop, [])
        assert all(t.name != s.name for t in REGISTRY[prop]), s.name
        REGISTRY[prop].append(s)
        return fn

    return deco


@dataclass
class Result:
    sub: str
    shard: int
    evaluations: int = 0
    skipped: int = 0
    over_budget: int = 0
    nontrivial: set = field(default_factory=set)
    samples: list = field(default_factory=list)
    known: dict = field(default_factory=dict)
    failure: dict | None = None
    error: str | None = None
    wall: float = 0.0


def jsonable(x):
    """Plain-data copy of a case."""
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, (np.integer, int)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        return float(x)
    raise TypeError(f"case contains {type(x)}")


def digest(case) -> str:
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def shorten(x, n: int = 12):
    """A readable sample of a case."""
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    if isinstance(x, list):
        y = [shorten(v, n) for v in x[:n]]
        return y + [f"... {len(x) - n} more"] if len(x) > n else y
    if isinstance(x, float):
        return float(f"{x:.6g}")
    return x


def known_signatures(prop: str) -> dict[str, str]:
    """Signatures of recorded (unrepaired) findings of a property."""
    path = os.path.join(os.environ.get("VERIF_HOME", "/verif"), "known_findings.txt")
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("known: "):
                    head, _, text = line[len("known: "):].partition(" :: ")
                    kv = dict(t.split("=", 1) for t in head.split())
                    if kv.get("property") == prop:
                        out[kv["signature"]] = text.strip()
    return out


def evaluate(s: Sub, case: dict):
    if JOURNAL is not None:
        with open(JOURNAL, "w") as f:
            json.dump(case, f)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import numpy as np

        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
            with np.errstate(all="ignore"):
                return s.check(case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)


def run_sub(prop: str, name: str, shard: int, nshards: int, seed: int, tier: str, budget: float, shrink_budget: float = 45.0) -> Result:
    """Drive one sub-check with generated cases; shrink the first failure."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    s = next(t for t in REGISTRY[prop] if t.name == name)
    res = Result(name, shard)
    n = s.quick if tier == "quick" else s.thorough
    n = max(1, -(-n // nshards))
    known = known_signatures(prop)
    t0 = time.monotonic()
    state: dict[str, Any] = {"fail": None, "t_fail": None, "size": None}

    def body(case):
        case = jsonable(case)
        now = time.monotonic()
        if state["t_fail"] is None:
            if now - t0 > budget:
                res.over_budget += 1
                raise _Abort
        elif now - state["t_fail"] > shrink_budget:
            raise _Abort
        try:
            nontrivial = evaluate(s, case)
        except Skip:
            if state["t_fail"] is None:
                res.skipped += 1
            hypothesis.reject()
        except Hang as e:
            res.evaluations += 1
            if state["fail"] is None:
                state["fail"] = {"case": case, "error": f"did not terminate: {e}", "traceback": traceback.format_exc()[-4000:]}
            raise _Abort from e
        except Exception as e:  # noqa: BLE001
            sig = getattr(e, "signature", None)
            if sig is not None and sig in known:
                res.known[sig] = known[sig]
                res.evaluations += 1
                return
            txt = json.dumps(case, sort_keys=True)
            if state["t_fail"] is None:
                state["t_fail"] = now
                res.evaluations += 1
            if state["size"] is None or len(txt) <= state["size"]:
                state["size"] = len(txt)
                state["fail"] = {
                    "case": case,
                    "error": f"{type(e).__name__}: {e}"[:2000],
                    "traceback": traceback.format_exc()[-4000:],
                }
            raise
        if state["t_fail"] is None:
            res.evaluations += 1
            if nontrivial:
                d = digest(case)
                if d not in res.nontrivial:
                    res.nontrivial.add(d)
                    if len(res.samples) < 2:
                        res.samples.append({"sub": name, "case": shorten(case)})

    test = given(s.strategy())(body)
    test = hypothesis.seed(seed * 1000003 + shard * 7919 + int(hashlib.sha1(f"{prop}/{name}".encode()).hexdigest()[:8], 16))(test)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        print_blob=False,
        report_multiple_bugs=False,
        verbosity=Verbosity.quiet,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.explicit, Phase.generate, Phase.target, Phase.shrink),
    )(test)
    try:
        test()
    except _Abort:
        pass
    except Exception as e:  # noqa: BLE001
        if state["fail"] is None:
            res.error = "".join(traceback.format_exception(e))[-4000:]
    res.failure = state["fail"]
    res.wall = time.monotonic() - t0
    return res
