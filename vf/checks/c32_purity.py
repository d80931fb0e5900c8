"""C32: arguments stay as they are, and calls do not depend on earlier calls."""

import os
import pickle
import signal

import numpy as np
from hypothesis import strategies as st

import glass.rng
from vf import api, hpdata
from vf.be import XPS, evenly, rnd, seeds
from vf.core import sub
from vf.rec import Scripted

RNGS = {
    "scripted": lambda lib, seed: Scripted(seed),
    "none": lambda lib, seed: None,
    "numpy": lambda lib, seed: np.random.default_rng(seed),
    "own": lambda lib, seed: glass.rng.default_rng(seed=seed % 2**30, xp=XPS[lib]),
}


def given_for(case, lib, seed):
    make = RNGS[case["rng"]]
    return api.Given(lib, seed, readonly=case["readonly"], rng=lambda: make(lib, seed))


def run(e, g, seed):
    with hpdata.datapath(weights=0.1):
        return e.fn(g, rnd(seed))


def leaves(x):
    if isinstance(x, (list, tuple)):
        for v in x:
            yield from leaves(v)
    elif isinstance(x, glass.RadialWindow):
        yield from (x.za, x.wa)
    elif hasattr(x, "__array_namespace__"):
        yield x


def spoil(result, g):
    """Overwrite the arrays of a result, except for those which are (views of) arguments."""
    for x in leaves(result):
        y = x if isinstance(x, np.ndarray) else getattr(x, "_array", None)
        if not isinstance(y, np.ndarray) or not y.flags.writeable:
            continue
        own = [a if isinstance(a, np.ndarray) else getattr(a, "_array", None) for a, _ in g.arrays]
        if not any(isinstance(a, np.ndarray) and np.may_share_memory(a, y) for a in own):
            y[...] = True if y.dtype == bool else 13


def cases(group):
    names = [n for n, e in api.ENTRIES.items() if e.group == group]

    @st.composite
    def strategy(draw):
        n = draw(evenly(names))
        return {
            "function": n,
            "lib": draw(st.sampled_from([v for v in ("np", "np", "np", "strict", "strict", "jax") if v in api.ENTRIES[n].libs])),
            "readonly": draw(st.booleans()),
            "rng": draw(st.sampled_from(sorted(RNGS))),
            "between": draw(st.lists(st.tuples(st.sampled_from([n, *names]), st.booleans()), max_size=3)),
            "spoil": draw(st.booleans()),
            "seed": draw(seeds),
        }

    return strategy


def pure(case):
    """No argument changes, in whatever way the function is called again, with read-only and with writeable arrays; the same arguments and random state give the same result again, also after the first result was overwritten and other calls were made in between."""
    e, lib, seed = api.ENTRIES[case["function"]], case["lib"], case["seed"]
    g = given_for(case, lib, seed)
    first = run(e, g, seed)
    ref = api.flatten(first)
    g.unchanged()
    if case["spoil"]:
        spoil(first, g)
    del first
    for i, (name, other) in enumerate(case["between"]):
        o = api.ENTRIES[name]
        if lib not in o.libs:
            continue
        s = (seed + 17 * (i + 1)) % 2**31 if other or name != e.name else seed
        h = given_for(case, lib, s)
        res = run(o, h, s)
        h.unchanged()
        if case["spoil"]:
            spoil(res, h)
        g.unchanged()
    g.again()
    again = api.flatten(run(e, g, seed))
    g.unchanged()
    api.compare(ref, again, EXACT, f"{e.name} called again")
    return len(g.arrays) > 0 or len(case["between"]) > 0


class EXACT:
    rtol, atol = 1e-12, 0.0


def _register(group, quick):
    def fn(case):
        return pure(case)

    fn.__name__, fn.__doc__ = group, pure.__doc__
    sub("C32", strategy=cases(group), rule="arrays are given, or other calls made in between", quick=quick)(fn)


for _group in sorted({e.group for e in api.ENTRIES.values()}):
    _register(_group, 25 * sum(e.group == _group for e in api.ENTRIES.values()))


# ---------------------------------------------------------------- against a process without history


def elsewhere(fn):
    """The outcome of a call in a copy of this process, which ends with it."""
    source, sink = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(source)
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                out = ("result", fn())
            except Exception as e:  # noqa: BLE001
                out = ("error", type(e).__name__)
            with os.fdopen(sink, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    try:
        os.close(sink)
        with os.fdopen(source, "rb") as f:
            data = f.read()
        assert data, "the process died"
        return pickle.loads(data)
    finally:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)


CHANGES = {
    "smaller": lambda d: d * 0.9,
    "larger": lambda d: d * 1.1,
    "last": lambda d: np.concatenate([d.ravel()[:-1], d.ravel()[-1:] * 1.05]).reshape(d.shape),
    "first": lambda d: np.concatenate([d.ravel()[:1] * 0.95, d.ravel()[1:]]).reshape(d.shape),
}


class Changed(api.Given):
    """Some of the arrays have other values; other objects may be shared with an earlier call."""

    def __init__(self, lib, seed, which, how, rng, kept=None):
        super().__init__(lib, seed, rng=rng)
        self.which, self.how, self.count, self.kept, self.things = which, how, 0, kept, []

    def __call__(self, data, dtype=None):
        d = np.array(data, dtype=dtype)
        if hit(self.which, self.count) and d.dtype.kind in "fc":
            d = CHANGES[self.how](d)
        self.count += 1
        return super().__call__(d)

    def keep(self, make):
        if self.kept is not None and len(self.things) < len(self.kept):
            x = self.kept[len(self.things)]
        else:
            x = make()
        self.things.append(x)
        return x


def hit(which, i):
    return which is not None and bool(which[i % len(which)])


@st.composite
def histories(draw):
    n = draw(evenly([k for k, e in api.ENTRIES.items() if "np" in e.libs or "strict" in e.libs]))
    return {
        "function": n,
        "lib": draw(st.sampled_from([v for v in ("np", "np", "np", "strict") if v in api.ENTRIES[n].libs])),
        "which": draw(st.lists(st.booleans(), min_size=1, max_size=5)),
        "how": draw(st.sampled_from(sorted(CHANGES))),
        "means": draw(st.sampled_from(["in place", "new arrays", "new arrays"])),
        "before": draw(st.lists(st.tuples(evenly(sorted(api.ENTRIES)), seeds), max_size=2)),
        "seed": draw(seeds),
    }


@sub("C32", strategy=histories, rule="an array has other values than in the earlier call, and there is a result", quick=900, shards=3)
def fresh(case):
    """The result (or the error) is that of a process which never called the function before, after it was called with some arguments the same and others different, whether the caller gives other arrays or changes the same arrays in place."""
    e, lib, seed = api.ENTRIES[case["function"]], case["lib"], case["seed"]
    rng = lambda: Scripted(seed)  # noqa: E731
    used = []

    def alone():
        g = Changed(lib, seed, case["which"], case["how"], rng)
        return api.flatten(run(e, g, seed)), sum(hit(case["which"], i) and d.dtype.kind in "fc" and d.size > 0 for i, (_, d) in enumerate(g.arrays))

    def later():
        for name, s in case["before"]:
            if lib in api.ENTRIES[name].libs:
                run(api.ENTRIES[name], api.Given(lib, s), s)
        g = Changed(lib, seed, None, case["how"], rng)
        used.append(run(e, g, seed))
        if case["means"] == "in place":
            for i, (x, d) in enumerate(g.arrays):
                if hit(case["which"], i) and d.dtype.kind in "fc":
                    y = x if isinstance(x, np.ndarray) else x._array
                    y[...] = CHANGES[case["how"]](d)
            g.again()
            g.things, g.kept = [], g.things
            return api.flatten(run(e, g, seed)), 0
        h = Changed(lib, seed, case["which"], case["how"], rng, kept=g.things)
        return api.flatten(run(e, h, seed)), 0

    a, b = elsewhere(alone), elsewhere(later)
    assert a[0] == b[0], f"{e.name}: {a[1] if a[0] == 'error' else 'a result'} in a new process, {b[1] if b[0] == 'error' else 'a result'} after other calls"
    if a[0] == "error":
        assert a[1] == b[1], f"{e.name}: {a[1]} in a new process, {b[1]} after other calls"
        return False
    ref, out = a[1][0], b[1][0]
    api.compare(ref, out, ANYTHING, f"{e.name} in a new process and after other calls")
    for (path, kind, _, x), (_, _, _, y) in zip(ref, out):
        if kind in ("array", "number") and x.size and x.dtype.kind in "fciu":
            size = float(np.max(np.abs(x), where=np.isfinite(x), initial=0.0))
            ok = np.isclose(x, y, rtol=1e-6, atol=1e-9 * size, equal_nan=True)
            assert np.all(ok), f"{e.name}: {path} is {np.atleast_1d(x)[~np.atleast_1d(ok)][:3]} in a new process, {np.atleast_1d(y)[~np.atleast_1d(ok)][:3]} after other calls"
    return a[1][1] > 0


class ANYTHING:
    rtol, atol = 0.0, np.inf
