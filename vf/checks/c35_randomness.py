"""C35: all randomness comes from the generator given, once."""

import copy
import warnings

import numpy as np
from hypothesis import strategies as st

import glass
import glass.grf
import glass.healpix
import glass.jax
import glass.rng
from vf.be import F, N, XPS, evenly, rnd, same, seeds
from vf.core import sub


def floats(*arrays):
    """All variates of a result as one flat array of real numbers."""
    out = []
    for a in arrays:
        a = N(a).ravel()
        out += [a.real, a.imag] if a.dtype.kind == "c" else [a]
    return np.concatenate(out) if out else np.array([])


def cls_of(xp, r, n, nl=12):
    base = 0.1 / (1.0 + np.arange(nl)) ** 2
    out = []
    for i in range(n):
        for j in range(i, -1, -1):
            out.append(F(xp, base if i == j else 0 * base))
    return out


def size_of(r, xp):
    """A number of variates; jax compiles code for every one."""
    return [7, 20][int(r.integers(2))] if xp is XPS["jax"] else int(r.integers(2, 40))


def k_of(r, xp):
    """Number of variates: one number, or one for each of several equal populations."""
    k = size_of(r, xp)
    return k if r.integers(2) else xp.asarray(np.array([k, 5, 2]))


# every function returns (iterator or list of parts) of continuous variates: within the parts, all have the same distribution


def f_generate(xp, r, rng):
    n = int(r.integers(1, 4))
    t = [glass.grf.Lognormal(1.0) if r.integers(2) else glass.grf.Normal()] * n
    kw = [{}, {"ncorr": 0}, {"ncorr": 1}][int(r.integers(3))]
    for m in glass.generate(t, cls_of(xp, r, n), 8, rng=rng, **kw):
        yield [m]


def f_generate_deprecated(xp, r, rng):
    n = int(r.integers(1, 3))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f = [glass.generate_gaussian, glass.generate_lognormal][int(r.integers(2))]
        for m in f(cls_of(xp, r, n), 8, rng=rng):
            yield [m]


def f_randang(xp, r, rng):
    ipix = xp.asarray(np.full(size_of(r, xp), int(r.integers(768))))
    yield list(glass.healpix.randang(8, ipix, lonlat=bool(r.integers(2)), rng=rng))


def f_positions_from_delta(xp, r, rng):
    pops, n = [(), (3,)][int(r.integers(2))], 5e-8 if xp is XPS["jax"] else 1e-6
    n = F(xp, np.full(pops, n)) if pops else n
    vis = F(xp, r.uniform(0, 1, size=48)) if r.integers(2) else None
    for lon, lat, _ in glass.positions_from_delta(n, F(xp, r.uniform(-0.9, 1, size=(*pops, 48))), None, vis, rng=rng, batch=10**6 if xp is XPS["jax"] else int(r.integers(10, 200))):
        yield [lon, lat]


def f_uniform_positions(xp, r, rng):
    pops = [(), (3,)][int(r.integers(2))]
    for lon, lat, _ in glass.uniform_positions(F(xp, np.full(pops, 2e-7)), rng=rng, xp=xp):
        yield [lon, lat]


def f_redshifts(xp, r, rng):
    w = glass.RadialWindow(F(xp, [0.1, 0.5, 1.0, 1.4]), F(xp, [0, 1, 1, 0]), 0.7)
    yield [glass.redshifts(size_of(r, xp), w, rng=rng)]


def f_redshifts_from_nz(xp, r, rng):
    k = k_of(r, xp)
    nz = r.uniform(0.1, 1, size=6)
    yield [glass.redshifts_from_nz(k, F(xp, np.linspace(0.1, 2, 6)), F(xp, nz if isinstance(k, int) else np.tile(nz, (3, 1))), rng=rng, warn=False)]


def f_redshifts_from_bins(xp, r, rng):
    nz = r.uniform(0.1, 1, size=6)
    bins = xp.asarray(r.integers(0, 3, size=20))
    yield [glass.redshifts_from_bins(bins, F(xp, np.linspace(0.1, 2, 6)), {k: F(xp, nz) for k in range(3)}, rng=rng)]


def f_gaussian_phz(xp, r, rng):
    z = F(xp, np.full(size_of(r, xp), 0.5))
    kw = [{}, {"lower": 0.4, "upper": 0.7}, {"lower": 0.1}][int(r.integers(3))]
    yield [glass.gaussian_phz(z, 0.2 if r.integers(2) else F(xp, np.full(z.shape[0], 0.2)), **kw, rng=rng)]


def f_triaxial_axis_ratio(xp, r, rng):
    k = size_of(r, xp)
    if r.integers(2):
        yield [glass.triaxial_axis_ratio(F(xp, np.full(k, 0.4)), F(xp, np.full(k, 0.7)), rng=rng)]
    else:
        yield [glass.triaxial_axis_ratio(0.4, 0.7, size=k, rng=rng, xp=xp)]


def f_ellipticity_ryden04(xp, r, rng):
    k = size_of(r, xp)
    if r.integers(2):
        yield [glass.ellipticity_ryden04(-1.8, 0.6, 0.25, 0.2, size=k, rng=rng, xp=xp)]
    else:
        a = [F(xp, np.full(k, v)) for v in (-1.2, 1.1, 0.5, 0.4)]
        yield [glass.ellipticity_ryden04(*a, rng=rng)]


def f_ellipticity_gaussian(xp, r, rng):
    k = k_of(r, xp)
    s = 0.6 if isinstance(k, int) or r.integers(2) else F(xp, np.full(3, 0.6))
    yield [glass.ellipticity_gaussian(k, s, rng=rng, xp=xp if isinstance(k, int) else None)]


def f_ellipticity_intnorm(xp, r, rng):
    k = k_of(r, xp)
    s = 0.4 if isinstance(k, int) or r.integers(2) else F(xp, np.full(3, 0.4))
    yield [glass.ellipticity_intnorm(k, s, rng=rng, xp=xp if isinstance(k, int) else None)]


def f_resample_shapes(xp, r, rng):
    k = size_of(r, xp)
    yield [glass.resample_shapes(F(xp, np.full(k, 0.3)) + 0j * F(xp, np.zeros(k)), varg=0.05, rng=rng)]


FUNCS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("f_")}


def f_distribute(xp, r, rng):
    za = [0.0, 0.5, 1.0]
    w = [glass.RadialWindow(F(xp, za), F(xp, [1, 1, 1]), 0.5), glass.RadialWindow(F(xp, za), F(xp, [1, 1, 1]), 0.6)]
    size = 200 if xp is XPS["jax"] else [200, 1500, 3000][int(r.integers(3))]
    yield [glass.distribute(F(xp, r.uniform(0.05, 0.95, size=size)), w, rng=rng)]


def f_counts(xp, r, rng):
    for _, _, n in glass.uniform_positions(F(xp, np.full(40, 1e-5)), rng=rng, xp=xp):
        yield [n if hasattr(n, "__array_namespace__") else np.array([n])]


DISCRETE = {"distribute": f_distribute, "counts": f_counts}


def generator(kind, lib, seed):
    if kind == "numpy":
        return np.random.default_rng(seed)
    if kind == "wrapped":
        return glass.rng.Generator(rng=np.random.default_rng(seed), xp=XPS[lib])
    if kind == "default":
        return glass.rng.default_rng(seed=seed, xp=XPS[lib])
    return glass.jax.Generator(seed) if lib == "jax" else np.random.Generator(np.random.MT19937(seed))


def play(fn, lib, seed, rng):
    return [floats(*[p]) for parts in fn(XPS[lib], rnd(seed), rng) for p in parts]


KINDS = ["numpy", "wrapped", "default", "native"]
LIBS = ["np"] * 6 + ["strict"] * 4 + ["jax"]


def fresh(x, what):
    """No variate occurs more than once."""
    v = np.concatenate(x) if x else np.array([])
    u, c = np.unique(v, return_counts=True)
    assert np.all(c == 1), f"{what}: {int(np.sum(c > 1))} of {v.size} variates occur again, such as {u[c > 1][:3]}"


@st.composite
def calls(draw):
    return {
        "function": draw(evenly(sorted(FUNCS))),
        "lib": draw(st.sampled_from(LIBS)),
        "rng": draw(st.sampled_from(KINDS)),
        "calls": draw(st.integers(1, 4)),
        "noise": draw(st.lists(st.sampled_from(sorted(FUNCS) + sorted(DISCRETE)), max_size=2)),
        "seed": draw(seeds),
        "rseed": draw(seeds),
    }


@sub("C35", strategy=calls, rule="at least two calls with one generator", quick=250, shards=4)
def once(case):
    """A generator given is the only source of variates: none is used twice in all calls made with it, another seed gives other variates, the same seed the same ones again, whatever else is drawn in between and whatever the state of NumPy's global generator, which stays untouched."""
    fn, lib = FUNCS[case["function"]], case["lib"]
    rng = generator(case["rng"], lib, case["rseed"])
    np.random.seed(1)
    state = copy.deepcopy(np.random.get_state())
    first = []
    for _ in range(case["calls"]):
        first += play(fn, lib, case["seed"], rng)
        now = np.random.get_state()
        assert now[2:] == state[2:] and np.array_equal(now[1], state[1]), "the global generator of NumPy was used"
    fresh(first, f"{case['calls']} calls of {case['function']}")
    # again, with other things going on
    rng = generator(case["rng"], lib, case["rseed"])
    np.random.seed(2)
    again = []
    for i in range(case["calls"]):
        for name in case["noise"]:
            play(FUNCS.get(name) or DISCRETE[name], lib, case["seed"] + i, [None, generator("default", lib, 5)][i % 2])
        np.random.standard_normal(3)
        again += play(fn, lib, case["seed"], rng)
    assert len(again) == len(first), f"{len(first)} results, and {len(again)} when repeated"
    for i, (a, b) in enumerate(zip(first, again)):
        same(a, b, f"result {i} with the same generator again")
    other = play(fn, lib, case["seed"], generator(case["rng"], lib, case["rseed"] + 1))
    fresh(first + other, f"{case['function']} with two seeds")
    return case["calls"] > 1


@st.composite
def anycalls(draw):
    return {**draw(calls()), "function": draw(evenly(sorted(FUNCS) + sorted(DISCRETE)))}


@sub("C35", strategy=anycalls, rule="always", quick=200, shards=3)
def default(case):
    """Without a generator, the variates are those of a new generator of the array library (of NumPy for the wrapper of healpix) with the default seed, in every call."""
    fn, lib = FUNCS.get(case["function"]) or DISCRETE[case["function"]], case["lib"]
    for _ in range(case["calls"]):
        x = play(fn, lib, case["seed"], None)
        if case["function"] in FUNCS:
            fresh(x, f"{case['function']} without a generator")
        # the wrapper of healpix works in NumPy
        own = XPS["np" if case["function"] == "randang" else lib]
        y = play(fn, lib, case["seed"], glass.rng.default_rng(xp=own))
        assert len(x) == len(y), f"{len(x)} results without, and {len(y)} with the default generator"
        for a, b in zip(x, y):
            same(a, b, "result without a generator")
        for name in case["noise"]:
            play(FUNCS.get(name) or DISCRETE[name], lib, case["seed"] + 1, None)
    return True


@st.composite
def choices(draw):
    return {
        "function": draw(evenly(sorted(DISCRETE))),
        "lib": draw(st.sampled_from(LIBS)),
        "rng": draw(st.sampled_from(KINDS)),
        "seed": draw(seeds),
        "rseed": draw(seeds),
    }


@sub("C35", strategy=choices, rule="always", quick=60)
def discrete(case):
    """Numbers of galaxies and shells drawn twice from one generator differ, and are the same again for the same seed."""
    fn, lib = DISCRETE[case["function"]], case["lib"]
    runs = []
    for _ in range(2):
        rng = generator(case["rng"], lib, case["rseed"])
        runs.append([np.concatenate(play(fn, lib, case["seed"], rng)) for _ in range(2)])
    same(runs[0][0], runs[1][0], "result for the same seed")
    same(runs[0][1], runs[1][1], "second result for the same seed")
    assert not np.array_equal(*runs[0]), "two calls with one generator gave the same result"
    rng = generator(case["rng"], lib, case["rseed"] + 1)
    assert not np.array_equal(np.concatenate(play(fn, lib, case["seed"], rng)), runs[0][0]), "two seeds gave the same result"
    return True


@st.composite
def sequences(draw):
    return {
        "function": draw(st.sampled_from(["distribute", "redshifts_from_nz", "gaussian_phz", "ellipticity_intnorm", "ellipticity_gaussian", "resample_shapes", "poisson", "uniform_positions"])),
        "lib": draw(st.sampled_from(["np", "np", "strict"])),
        "rng": draw(st.sampled_from([None, *KINDS])),
        "n": draw(st.integers(2000, 30000)),
        "seed": draw(seeds),
        "rseed": draw(seeds),
    }


@sub("C35", strategy=sequences, rule="always", quick=24)
def long_sequences(case):
    """However many variates one call draws, with or without a generator given, their sequence does not repeat: its autocorrelation is noise at every lag."""
    xp, n, r = XPS[case["lib"]], case["n"], rnd(case["seed"])
    rng = case["rng"] and generator(case["rng"], case["lib"], case["rseed"])
    name = case["function"]
    if name == "distribute":
        w = [glass.RadialWindow(F(xp, [0.0, 1.0]), F(xp, [1.0, 1.0]), 0.5)] * 2
        x = N(glass.distribute(F(xp, r.uniform(0.1, 0.9, size=n)), w, rng=rng)) - 0.5
    elif name == "redshifts_from_nz":
        x = N(glass.redshifts_from_nz(n, F(xp, [0.0, 1.0]), F(xp, [1.0, 1.0]), rng=rng, warn=False)) - 0.5
    elif name == "gaussian_phz":
        x = N(glass.gaussian_phz(F(xp, np.full(n, 5.0)), 0.1, rng=rng)) - 5.0
    elif name == "resample_shapes":
        x = N(glass.resample_shapes(F(xp, np.full(n, 0.3)) + 0j * F(xp, np.zeros(n)), varg=0.05, rng=rng)).real
    elif name == "poisson":
        (x,) = [N(c) for c in [np.array([int(np.max(N(c))) for _, _, c in glass.uniform_positions(F(xp, np.full(1500, 1e-7)), rng=rng, xp=xp)])]]
        x = x - np.mean(x)
    elif name == "uniform_positions":
        ((lon, _, _),) = glass.uniform_positions(n * np.pi * 1e-6 / (36 * 12.96), rng=rng, xp=xp)
        x = N(lon) / 180
    else:
        x = N(getattr(glass, name)(n, 0.3, rng=rng, xp=xp)).real
    m = x.size
    assert m > 500, f"{m} variates"
    f = np.fft.rfft(x, 2 * m)
    lag = np.arange(1, m - 200)
    corr = np.fft.irfft(np.abs(f) ** 2)[1 : m - 200] / np.var(x)
    worst = int(np.argmax(np.abs(corr) / np.sqrt(m - lag)))
    sigma = float(corr[worst] / np.sqrt(m - lag[worst]))
    assert abs(sigma) < 9, f"{name}: variates correlate with those {lag[worst]} later, {sigma:.1f} sigma"
    return True


# ---------------------------------------------------------------- iterators


def i_iternorm(xp, r, rng):
    n = int(r.integers(2, 6))
    m = r.normal(size=(n, n))
    c = m @ m.T
    rows = [F(xp, [c[i, i - j] for j in range(i + 1)]) for i in range(n)]
    for x in glass.iternorm(iter(rows)):
        yield [xp.asarray(v) for v in x[1:]]


def i_cls2cov(xp, r, rng):
    n = int(r.integers(2, 4))
    cls = [F(xp, np.abs(r.normal(size=5))) for _ in range(n * (n + 1) // 2)]
    for c in glass.cls2cov(cls, 5, n, n - 1):
        yield [c]


ITERATORS = {
    "generate": f_generate,
    "positions_from_delta": f_positions_from_delta,
    "uniform_positions": f_uniform_positions,
    "iternorm": i_iternorm,
    "cls2cov": i_cls2cov,
}


@st.composite
def interleavings(draw):
    k = draw(st.integers(2, 3))
    same = draw(st.booleans())
    names = [draw(evenly(sorted(ITERATORS)))] * k if same else [draw(evenly(sorted(ITERATORS))) for _ in range(k)]
    return {
        "functions": names,
        "lib": draw(st.sampled_from(LIBS)),
        "rng": draw(st.sampled_from(KINDS)),
        "order": draw(st.lists(st.integers(0, k - 1), min_size=2, max_size=24)),
        "close": draw(st.lists(st.integers(0, k - 1), max_size=1)),
        "share": draw(st.booleans()),
        "seed": draw(seeds),
        "rseed": draw(seeds),
    }


def steps(parts):
    return [floats(p) for p in parts]


@sub("C35", strategy=interleavings, rule="the iterators alternate", quick=120, shards=2)
def iterators(case):
    """Several iterators advanced in any order, some of them abandoned, give each what it gives alone; if they share a generator, no variate is used twice."""
    lib, names = case["lib"], case["functions"]
    xp = XPS[lib]

    def start(i, rng):
        return ITERATORS[names[i]](xp, rnd(case["seed"] + i), rng)

    alone = [[steps(p) for p in start(i, generator(case["rng"], lib, case["rseed"] + i))] for i in range(len(names))]
    gens = [generator(case["rng"], lib, case["rseed"] + i) for i in range(len(names))]
    live = [start(i, gens[i]) for i in range(len(names))]
    at = [0] * len(names)
    for i in case["order"]:
        got = next(live[i], None)
        if got is None:
            assert at[i] == len(alone[i]), f"{names[i]} ended after {at[i]} of {len(alone[i])} results"
            continue
        assert at[i] < len(alone[i]), f"{names[i]} gave more than {len(alone[i])} results"
        got = steps(got)
        assert len(got) == len(alone[i][at[i]]), f"{names[i]}: result {at[i]} has {len(got)} parts"
        for a, b in zip(alone[i][at[i]], got):
            same(b, a, f"result {at[i]} of {names[i]} next to other iterators")
        at[i] += 1
        if i in case["close"]:
            live[i].close()
            at[i] = len(alone[i])
    if case["share"]:
        rng = generator(case["rng"], lib, case["rseed"])
        live = [start(i, rng) for i in range(len(names))]
        pool = []
        for i in case["order"]:
            got = next(live[i], None)
            if got is not None and names[i] not in ("iternorm", "cls2cov"):
                pool += steps(got)
        fresh(pool, "iterators which share a generator")
    return any(a != b for a, b in zip(case["order"], case["order"][1:]))
