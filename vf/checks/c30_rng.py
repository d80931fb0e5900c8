"""C30: random number generators."""

import threading

import jax
import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

import glass.jax
import glass.rng
from vf.be import F, N, XPS, backend, check_ns, equal, raises, rnd, seeds
from vf.core import sub
from vf.stats import uniform

jnp = XPS["jax"]
SIZES = [None, None, None, 3, 0, 1, [2, 3], [4], [1, 2], [2, 0]]


def sized(s):
    return tuple(s) if isinstance(s, list) else s


def make(kind, seed):
    """Generator under test, and the array library its results belong to."""
    if kind == "jax":
        return glass.jax.Generator(seed), jnp
    how, x = kind.split("-")
    xp = XPS[x]
    if how == "default":
        return glass.rng.default_rng(seed=seed, xp=xp), xp
    if how == "seeded":
        return glass.rng.Generator(seed=seed, xp=xp), xp
    rng = glass.jax.Generator(seed) if x == "jax" else np.random.default_rng(seed)
    return glass.rng.Generator(rng=rng, xp=xp), xp


KINDS = ["jax", "jax", "default-np", "default-strict", "default-jax", "seeded-np", "seeded-strict", "seeded-jax", "wrap-np", "wrap-strict", "wrap-jax"]


@st.composite
def calls(draw):
    s = draw(st.sampled_from(SIZES))
    dims = [] if s is None else [s] if isinstance(s, int) else s
    par = [draw(st.sampled_from([[], [], dims if s is not None else [3], [2, 1] if s is None else dims])) for _ in range(2)]
    return {
        "kind": draw(st.sampled_from(KINDS)),
        "method": draw(st.sampled_from(["random", "normal", "poisson", "standard_normal", "uniform", "multinomial"])),
        "size": s,
        "par": par,
        "python": draw(st.booleans()),
        "zero": draw(st.sampled_from([False, False, False, True])),
        "cats": draw(st.integers(1, 4)),
        "seed": draw(seeds),
    }


def arr(xp, kind, v, python):
    """Parameters for a generator: plain numbers, or arrays of its library."""
    if not np.ndim(v) and python:
        return float(v) if np.asarray(v).dtype.kind == "f" else int(v)
    return xp.asarray(np.array(v))


def distinct(u):
    """No variate is used for two entries."""
    u = np.sort(np.ravel(u))
    assert np.all(np.diff(u) > 1e-9), "the same variate for two entries"


@sub("C30", strategy=calls, rule="at least two variates", quick=1200, shards=4)
def shapes(case):
    """Every method returns an array of the right library, shape, kind and range for any size and parameters, and parameters which do not fit the size are refused; the same seed gives the same result."""
    g, xp = make(case["kind"], case["seed"])
    if case["kind"] == "default-np":
        # this is NumPy's own generator
        return False
    r = rnd(case["seed"])
    size, m = sized(case["size"]), case["method"]
    explicit = () if size is None else (size,) if isinstance(size, int) else size
    s1, s2 = map(tuple, case["par"])
    kw = {} if size is None else {"size": size}
    full = explicit
    args, check = (), lambda x: None
    if m == "random":
        def check(x):
            assert np.all((x >= 0) & (x < 1)), "variate outside of [0, 1)"
            distinct(x)
    elif m == "standard_normal":
        check = distinct
    elif m == "normal":
        loc, scale = r.normal(size=s1) * 1e3, r.uniform(0.1, 1, size=s2) * (0 if case["zero"] else 1)
        args = (loc, scale)

        def check(x):
            assert np.all(np.abs(x - loc) <= 12 * scale + 1e-9), "variate too far from its mean"
            if case["zero"]:
                equal(x, np.broadcast_to(loc, x.shape), "variate without scatter")
            else:
                distinct((x - loc) / scale)
    elif m == "uniform":
        low = r.normal(size=s1) * 10
        high = np.max(low) + 1 + r.uniform(0.1, 5, size=s2) if np.size(low) else 100 + r.uniform(size=s2)
        args = (low, high)

        def check(x):
            assert np.all((x >= low) & (x <= high)), "variate out of range"
            distinct((x - low) / (high - low))
    elif m == "poisson":
        lam = r.uniform(0, 30, size=s1) * (0 if case["zero"] else 1)
        args = (lam,)

        def check(x):
            assert np.all(x >= 0), "negative number"
            assert np.all(x <= lam + 15 * np.sqrt(lam) + 30), "number too far from its mean"
            assert np.all(x[np.broadcast_to(lam == 0, x.shape)] == 0), "number without expectation"
    elif m == "multinomial":
        n = r.integers(0, 9, size=s1)
        p = r.uniform(size=(*s2, case["cats"]))
        p[..., 0] *= 0 if case["zero"] and case["cats"] > 1 else 1
        p /= p.sum(-1, keepdims=True)
        args = (n, p)

        def check(x):
            equal(x.sum(-1), np.broadcast_to(n, x.shape[:-1]), "total of the categories")
            assert np.all(x >= 0), "negative number"
            if case["zero"] and case["cats"] > 1:
                assert np.all(x[..., 0] == 0), "number without probability"
    if args:
        b = np.broadcast_shapes(s1, s2) if m != "poisson" else s1
        if size is None:
            full = b
        elif b and b != explicit and case["kind"].endswith("jax"):
            raises(ValueError, lambda: getattr(g, m)(*(arr(xp, case["kind"], a, case["python"]) for a in args), **kw), "parameters that do not fit the size")
            return True
        elif b and np.broadcast_shapes(b, explicit) != explicit:
            return False
    if m == "multinomial":
        full = (*full, case["cats"])
    given = [arr(xp, case["kind"], a, case["python"]) for a in args]
    if xp is XPS["strict"]:
        # NumPy's generators take no strict arrays
        given = [N(a) if hasattr(a, "__array_namespace__") else a for a in given]
    x = getattr(g, m)(*given, **kw)
    for a, v in zip(given, args):
        equal(N(a), v, "parameter after the call")
    check_ns(x, xp, f"{m}()")
    y = N(x)
    assert y.shape == full, f"{m}: shape {y.shape} for size {size} and parameters {s1}, {s2}"
    want = "i" if m in ("poisson", "multinomial") else "f"
    assert y.dtype.kind == want and y.dtype.itemsize == 8, f"{m}: type {y.dtype}"
    assert np.all(np.isfinite(y)), f"{m}: not finite"
    check(y)
    z = getattr(make(case["kind"], case["seed"])[0], m)(*given, **kw)
    equal(N(z), y, f"{m}() again with the same seed")
    return y.size >= 2


M = 3000


@st.composite
def dists(draw):
    return {
        "kind": draw(st.sampled_from(["jax", "jax", "jax", "seeded-strict", "wrap-jax", "wrap-np"])),
        "method": draw(st.sampled_from(["random", "normal", "poisson", "standard_normal", "uniform", "multinomial"])),
        "scale": draw(st.sampled_from([1.0, 1e-3, 30.0])),
        "arrays": draw(st.booleans()),
        "cats": draw(st.sampled_from([3, 4])),
        "n": draw(st.integers(1, 12)),
        "seed": draw(seeds),
    }


def probability(m, x, args):
    """Cumulative probability of continuous variates."""
    if m == "random":
        return x
    if m == "standard_normal":
        return norm.cdf(x)
    if m == "normal":
        return norm.cdf((x - args[0]) / args[1])
    return (x - args[0]) / (args[1] - args[0])


@sub("C30", strategy=dists, rule="always", quick=120, thorough=3000, shards=4)
def distributed(case):
    """Thousands of variates follow the distribution with the location, scale, range, rate or probabilities asked for, each with its own."""
    g, xp = make(case["kind"], case["seed"])
    m, r = case["method"], rnd(case["seed"])
    s = (M,) if case["arrays"] else ()
    if m == "normal":
        args = (r.normal(size=s), case["scale"] * r.uniform(0.5, 2, size=s))
    elif m == "uniform":
        low = r.normal(size=s)
        args = (low, low + case["scale"] * r.uniform(0.5, 2, size=s))
    elif m == "poisson":
        args = (case["scale"] * r.uniform(0.5, 2, size=s),)
    elif m == "multinomial":
        p = r.uniform(0.1, 1, size=(*s, case["cats"]))
        args = (r.integers(1, case["n"] + 1, size=s), p / p.sum(-1, keepdims=True))
    else:
        args = ()
    given = [N(xp.asarray(a)) if xp is XPS["strict"] else xp.asarray(a) for a in args]
    x = N(getattr(g, m)(*given, size=M))
    if m == "poisson":
        lam = np.broadcast_to(args[0], (M,))
        for what, z in (
            ("mean", np.sum(x - lam) / np.sqrt(np.sum(lam))),
            ("variance", np.sum((x - lam) ** 2 - lam) / np.sqrt(np.sum(2 * lam**2 + lam))),
        ):
            # small rates have long tails
            assert abs(z) < (8 if lam.sum() > 200 else 60), f"{what} of the numbers is off by {z:.1f} standard deviations"
        zero = np.exp(-lam)
        z = (np.sum(x == 0) - zero.sum()) / np.sqrt(np.sum(zero * (1 - zero)) + 1)
        assert abs(z) < 9, f"number of zeros is off by {z:.1f} standard deviations"
        return True
    if m == "multinomial":
        n, p = args
        n = np.broadcast_to(n, (M,))[:, None]
        mean, var = n * p, n * p * (1 - p)
        z = np.sum(x - mean, axis=0) / np.sqrt(np.sum(var, axis=0))
        assert np.all(np.abs(z) < 8), f"mean number of each category is off by {z} standard deviations"
        d = (x - mean) ** 2 - var
        z = np.sum(d, axis=0) / np.sqrt(np.sum(d**2, axis=0))
        assert np.all(np.abs(z) < 10), f"variance of each category is off by {z} standard deviations"
        equal(x.sum(-1), n[:, 0], "total of the categories")
        return True
    uniform(np.clip(probability(m, x, args), 0, 1), f"cumulative probability of {m} variates")
    return True


OPS = ["random", "normal", "standard_normal", "uniform", "poisson", "split", "spawn", "split2", "child", "fromkey"]


@st.composite
def histories(draw):
    return {
        "ops": draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 3)), min_size=2, max_size=12)),
        "impl": draw(st.sampled_from([None, None, "threefry2x32", "rbg"])),
        "extra": draw(st.integers(0, 3)),
        "seed": draw(seeds),
    }


def play(case, touch=False):
    """All results of a history of operations, as cumulative probabilities; touch draws from children that the history does not use."""
    gens, out, keys = [glass.jax.Generator(case["seed"], impl=case["impl"])], [], []
    for op, i in case["ops"]:
        g = gens[i % len(gens)]
        if op == "poisson":
            if case["impl"] == "rbg":
                continue
            out.append((op, N(g.poisson(1e6, size=6)).astype(float)))
        elif op == "split":
            keys.append(g.split())
        elif op == "split2":
            k = g.split((2, 2))
            assert k.shape == (2, 2), f"shape of keys {k.shape}"
            keys.extend(k.ravel())
        elif op == "spawn":
            c = g.spawn(2)
            assert len(c) == 2 and all(type(t) is glass.jax.Generator for t in c), f"children {c}"
            gens.append(c[0])
            if touch:
                c[1].random(6)
        elif op == "child":
            gens.append(g.spawn(1)[0])
        elif op == "fromkey":
            gens.append(glass.jax.Generator.from_key(g.split()))
        else:
            args = {"normal": (3.0, 2.0), "uniform": (-1.0, 4.0)}.get(op, ())
            x = N(getattr(g, op)(*args, size=6))
            assert x.shape == (6,), f"{op}: shape {x.shape}"
            out.append(("unit", probability(op, x, args)))
    # what each generator would draw next
    for g in gens:
        out.append(("unit", N(g.random(6))))
    return out, [np.asarray(jax.random.key_data(k)).tolist() for k in keys], [np.asarray(jax.random.key_data(g.key)).tolist() for g in gens]


@sub("C30", strategy=histories, rule="at least two draws before the final ones", quick=400, shards=4)
def history(case):
    """In any history of draws, splits and spawned children, all draws and keys are different, everything is reproducible, and drawing from a child changes nothing for the others."""
    out, keys, states = play(case)
    again, keys2, _ = play(case, touch=True)
    assert len(out) == len(again) and keys == keys2, "the keys are not reproducible"
    for (k, a), (_, b) in zip(out, again):
        assert np.array_equal(a, b), f"draws are not reproducible: {k} {a} {b}"
    for kind in ("unit", "poisson"):
        d = [x for k, x in out if k == kind]
        tol = 1e-6 if kind == "unit" else 0
        for i in range(len(d)):
            for j in range(i):
                # also when a single variate is used again anywhere
                same = np.abs(d[i][:, None] - d[j][None, :]) <= tol
                assert np.count_nonzero(same) < 2, f"draws number {j} and {i} of the history share variates: {d[j]} {d[i]}"
    flat = [str(k) for k in keys] + [str(k) for k in states]
    assert len(set(flat)) == len(flat), f"keys are not unique: {flat}"
    other = play(dict(case, seed=case["seed"] + 1))[0]
    assert not any(np.array_equal(a, b) for (_, a), (_, b) in zip(out, other)), "another seed gives the same variates"
    return len([1 for k, _ in out]) > len(states) + 1


@sub("C30", strategy=lambda: st.fixed_dictionaries({"threads": st.integers(2, 6), "draws": st.integers(1, 25), "what": st.sampled_from(["random", "split", "spawn", "mixed"]), "seed": seeds}), rule="always", quick=24, thorough=600, shards=4)
def threads(case):
    """Threads that share a generator never get the same variates; between them, they get exactly what one thread would."""
    g = glass.jax.Generator(case["seed"])
    n, k = case["threads"], case["draws"]
    res = [[] for _ in range(n)]
    gate = threading.Barrier(n)

    def draw(g, what):
        if what == "random":
            return N(g.random(3)).tobytes()
        if what == "split":
            return np.asarray(jax.random.key_data(g.split())).tobytes()
        return np.asarray(jax.random.key_data(g.spawn(1)[0].key)).tobytes()

    def work(i):
        gate.wait()
        for j in range(k):
            what = case["what"] if case["what"] != "mixed" else ["random", "split", "spawn"][(i + j) % 3]
            res[i].append(draw(g, what))

    ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    got = [x for r in res for x in r]
    assert len(got) == n * k, f"{len(got)} draws, expected {n * k}"
    assert len(set(got)) == len(got), "two threads got the same variates"
    if case["what"] != "mixed":
        h = glass.jax.Generator(case["seed"])
        want = [draw(h, case["what"]) for _ in range(n * k)]
        assert sorted(got) == sorted(want), "the draws of all threads are not those of a single one"
    return True


@sub("C30", strategy=lambda: st.fixed_dictionaries({"xp": backend(2, 3, 2), "own": st.booleans(), "seed": st.one_of(st.none(), seeds), "ops": st.lists(st.sampled_from(["random", "normal", "poisson", "standard_normal", "uniform", "multinomial"]), min_size=1, max_size=5), "dtype": st.sampled_from([None, "float32", "float64"]), "size": st.sampled_from([None, 2, [2, 3]])}), rule="at least two operations", quick=200, shards=2)
def wrapped(case):
    """The wrapper returns, as arrays of its library, exactly what the generator it wraps returns, in the same sequence; the default seed is the same for all."""
    xp = XPS[case["xp"]]
    kw = {} if case["seed"] is None else {"seed": case["seed"]}
    seed = glass.rng.SEED if case["seed"] is None else case["seed"]
    ref = glass.jax.Generator(seed) if case["xp"] == "jax" else np.random.default_rng(seed)
    if case["own"]:
        g = glass.rng.Generator(rng=glass.jax.Generator(seed) if case["xp"] == "jax" else np.random.default_rng(seed), xp=xp)
    else:
        g = glass.rng.Generator(xp=xp, **kw)
    d = glass.rng.default_rng(xp=xp, **kw)
    size = sized(case["size"])
    for op in case["ops"]:
        args = {"normal": (1.0, 2.0), "uniform": (2.0, 5.0), "poisson": (7.0,), "multinomial": (9, np.array([0.2, 0.3, 0.5]))}.get(op, ())
        opt = {"dtype": getattr(xp, case["dtype"])} if case["dtype"] and op in ("random", "standard_normal") else {}
        a = g_ = getattr(g, op)(*args, size=size, **opt)
        b = N(getattr(ref, op)(*args, size=size))
        c = getattr(d, op)(*args, size=size)
        check_ns(g_, xp, f"{op}()")
        if opt:
            assert str(N(a).dtype) == case["dtype"], f"{op}: type {a.dtype}, not {case['dtype']}"
            b = b.astype(case["dtype"])
        equal(N(a), b, f"{op}() of the wrapper")
        if not opt:
            equal(N(c), b, f"{op}() of the default generator")
        if not (case["xp"] == "np"):
            check_ns(c, xp, f"{op}() of the default generator")
    return len(case["ops"]) > 1


@sub("C30", strategy=lambda: st.fixed_dictionaries({"seed": seeds, "bad": st.sampled_from(["int", "none", "raw", "float", "str", "list"]), "impl": st.sampled_from([None, "rbg"])}), rule="always", quick=40, thorough=400)
def from_key(case):
    """A generator made from a key draws what the generator with that key draws; anything else is refused."""
    key = jax.random.key(case["seed"], impl=case["impl"])
    a, b = glass.jax.Generator.from_key(key), glass.jax.Generator(case["seed"], impl=case["impl"])
    for _ in range(2):
        equal(N(a.random(4)), N(b.random(4)), "draws from the same key")
    bad = {"int": 5, "none": None, "raw": jnp.zeros(2, dtype="uint32"), "float": 1.0, "str": "key", "list": [key]}[case["bad"]]
    raises((ValueError, AttributeError), lambda: glass.jax.Generator.from_key(bad), f"key {bad!r}")
    return True
