"""Command line: run one property check, replay a failing case, or a self-test."""

from __future__ import annotations

import concurrent.futures
import importlib
import json
import multiprocessing
import os
import pkgutil
import re
import signal
import sys
import tempfile
import time
import traceback

from . import bootstrap

HOME = os.environ.get("VERIF_HOME", "/verif")
TOTAL_BUDGET = {"quick": 240.0, "thorough": 780.0}


def load(prop: str | None) -> None:
    """Import the check modules (only the property's own one, if given)."""
    import vf.checks as pkg

    for m in pkgutil.iter_modules(pkg.__path__):
        if prop is None or prop.lower() in m.name.split("_"):
            importlib.import_module(f"vf.checks.{m.name}")


def _init() -> None:
    bootstrap.setup()


def _task(args):
    prop, name, shard, nshards, seed, tier, budget = args
    from . import core

    bootstrap.setup()
    try:
        bootstrap.import_glass()
        load(prop)
        return core.run_sub(prop, name, shard, nshards, seed, tier, budget)
    except Exception:  # noqa: BLE001
        r = core.Result(name, shard)
        r.error = traceback.format_exc()[-4000:]
        return r


def _crashed(rc):
    """Ended by its own doing: not by a kill from outside (memory, time)."""
    return rc not in (0, -signal.SIGKILL, -signal.SIGTERM, -signal.SIGINT, -signal.SIGHUP)


def _journaled(task, journal, conn):
    from . import core

    core.JOURNAL = journal
    conn.send(_task(task))
    conn.close()


def _alone(ctx, task):
    """Run a task in a process of its own; a case that kills the process is a failure."""
    from . import core

    fd, journal = tempfile.mkstemp(prefix="vf-journal-")
    os.close(fd)
    try:
        rc, r = _spawn(ctx, _journaled, (task, journal))
        if r is not None:
            return r
        r = core.Result(task[1], task[2])
        with open(journal) as f:
            text = f.read()
        if _crashed(rc) and text:
            rc2, done = _spawn(ctx, _single, (task[0], task[1], text))
            if done is None and _crashed(rc2):
                r.evaluations = 1
                r.failure = {"case": json.loads(text), "error": f"the process died with exit code {rc2}", "traceback": ""}
                return r
        r.error = f"worker process ended with exit code {rc}"
        return r
    finally:
        os.unlink(journal)


def _single(prop, name, text, conn):
    from . import core

    bootstrap.setup()
    bootstrap.import_glass()
    load(prop)
    s = next(t for t in core.REGISTRY[prop] if t.name == name)
    try:
        core.evaluate(s, json.loads(text))
    except Exception:  # noqa: BLE001
        pass
    conn.send("done")


def _spawn(ctx, fn, args):
    """Exit code and result of a function run in a new process."""
    parent, child = ctx.Pipe(duplex=False)
    p = ctx.Process(target=fn, args=(*args, child))
    p.start()
    child.close()
    try:
        out = parent.recv()
    except EOFError:
        out = None
    p.join()
    return p.exitcode, out


def cmd_check(prop: str, tier: str) -> int:
    t0 = time.monotonic()
    from . import core

    bootstrap.setup()
    try:
        bootstrap.import_glass()
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        print(f"ERROR property={prop}: glass cannot be imported")
        return 2
    load(prop)
    subs = core.REGISTRY.get(prop)
    if not subs:
        print(f"ERROR unknown property {prop}")
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = TOTAL_BUDGET[tier]
    tasks = []
    for s in subs:
        k = s.shards if tier == "quick" else max(s.shards, 4)
        tasks += [(prop, s.name, i, k, seed, tier, budget) for i in range(k)]
    workers = min(int(os.environ.get("VERIF_JOBS", "8")), len(tasks))
    results = []
    if workers <= 1:
        results = [_task(t) for t in tasks]
    else:
        ctx = multiprocessing.get_context("spawn")
        broken = []
        with concurrent.futures.ProcessPoolExecutor(workers, mp_context=ctx, initializer=_init) as pool:
            futures = {pool.submit(_task, t): t for t in tasks}
            for f, t in futures.items():
                try:
                    results.append(f.result())
                except Exception:  # noqa: BLE001
                    broken.append(t)
        if broken:  # a worker died: run what is missing one process per task
            with concurrent.futures.ThreadPoolExecutor(workers) as threads:
                results += threads.map(lambda t: _alone(ctx, t), broken)
    results.sort(key=lambda r: (r.sub, r.shard))

    nontrivial = set()
    known = {}
    per = {}
    for r in results:
        nontrivial |= {f"{r.sub}:{d}" for d in r.nontrivial}
        known |= r.known
        p = per.setdefault(r.sub, {"evaluations": 0, "distinct_nontrivial": 0, "outside_domain": 0, "stopped_by_budget": 0, "wall_s": 0.0})
        p["evaluations"] += r.evaluations
        p["distinct_nontrivial"] += len(r.nontrivial)
        p["outside_domain"] += r.skipped
        p["stopped_by_budget"] += r.over_budget
        p["wall_s"] = round(p["wall_s"] + r.wall, 2)
    for s in subs:
        per[s.name]["rule"] = s.rule
        per[s.name]["oracle"] = " ".join(s.doc.split())

    seen = set()
    violations = []
    for r in results:
        if r.failure and r.sub not in seen:
            seen.add(r.sub)
            os.makedirs(os.path.join(HOME, "evidence", "replay"), exist_ok=True)
            path = os.path.join(HOME, "evidence", "replay", f"{prop}-{r.sub}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "sub": r.sub, "seed": seed, **r.failure}, f, indent=1)
            violations.append((r, path))
    errors = [r for r in results if r.error]

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r.evaluations for r in results),
            "distinct_nontrivial": len(nontrivial),
            "rule": "Cases are drawn by Hypothesis from the structured strategy of each sub-check (seeded by VERIF_SEED); "
            "a case is non-trivial, and counted once, when: " + "; ".join(f"[{s.name}] {s.rule}" for s in subs),
            "samples": [x for r in results for x in r.samples][:40],
            "sub_checks": per,
        },
        "assumptions": [
            "floating-point comparisons use the tolerances written in the sub-checks",
            "numpy, jax, array_api_strict, healpy, healpix, transformcl, fitsio behave as installed",
        ],
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
    with open(os.path.join(HOME, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for name, p in per.items():
        print(f"{prop} {name}: {p['evaluations']} cases, {p['distinct_nontrivial']} distinct non-trivial, {p['wall_s']} s")
    for sig, text in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {text}")
    for r in errors:
        print(f"ERROR property={prop} sub={r.sub}\n{r.error}")
    for r, path in violations:
        print(f"-- {prop}/{r.sub}: {r.failure['error'][:600]}")
        print(f"   case: {json.dumps(core.shorten(r.failure['case']))[:1200]}")
        print(f"VIOLATION property={prop} replay={path}")
    print(f"{prop} {tier} seed={seed}: {evidence['wall_s']} s, {len(violations)} violation(s)")
    if violations:
        return 1
    return 2 if errors else 0


def cmd_replay(path: str) -> int:
    from . import core

    with open(path) as f:
        d = json.load(f)
    bootstrap.setup()
    bootstrap.import_glass()
    load(d["property"])
    s = next(t for t in core.REGISTRY[d["property"]] if t.name == d["sub"])
    try:
        core.evaluate(s, d["case"])
    except core.Skip:
        print("case is outside the property's domain")
        return 0
    except (Exception, core.Hang):  # noqa: BLE001
        traceback.print_exc()
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("the property holds on this case")
    return 0


def cmd_selftest() -> int:
    """Everything a check needs is importable, and every registered property has a check."""
    from . import core

    bootstrap.setup()
    g = bootstrap.import_glass()
    load(None)
    with open(os.path.join(HOME, "MANIFEST.json")) as f:
        claimed = {c["property"] for c in json.load(f)["checks"]}
    missing = claimed - set(core.REGISTRY)
    print(f"glass from {g.__file__}; {len(core.REGISTRY)} properties, {sum(map(len, core.REGISTRY.values()))} sub-checks")
    if missing:
        print("no check for", sorted(missing))
        return 1
    return 0


def main() -> int:
    a = sys.argv[1:]
    if a[:1] == ["replay"]:
        return cmd_replay(a[1])
    if a[:1] == ["selftest"]:
        return cmd_selftest()
    if a and re.fullmatch(r"[A-Z][0-9]{2,3}", a[0]):
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return cmd_check(a[0], tier)
    print("usage: check PROPERTY [quick|thorough] | replay FILE | selftest", file=sys.stderr)
    return 2


if __name__ == "__main__":
    sys.exit(main())
