"""C43: entries do not depend on one another, on their number or on their order."""

import warnings

import numpy as np
from hypothesis import strategies as st

import glass
import glass.algorithm
import glass.arraytools
import glass.grf
import glass.healpix
import glass.jax
from vf import hpdata
from vf.be import A, N, XPS, check_ns, rnd, seeds
from vf.core import sub
from vf.cosmo import Cosmo
from vf.rec import Scripted

TABLE = {}


class Fixed(Scripted):
    """Every entry has its own variates: rows of uniform and of normal ones, used up row by row."""

    def __init__(self, u, g):
        super().__init__(0)
        self.u, self.g = list(u), list(g)

    def unit_uniform(self, k):
        x = self.u.pop(0)
        assert x.size == k, f"{k} uniform variates drawn for {x.size} entries"
        return x

    def unit_normal(self, k):
        x = self.g.pop(0)
        assert x.size == k, f"{k} normal variates drawn for {x.size} entries"
        return x


def entry(libs="np np np strict", most=100_000, rtol=1e-11):
    """The function makes arrays whose last axes are the entries, and a call which returns arrays with the entries last."""

    def deco(fn):
        TABLE[fn.__name__] = (fn, libs.split(), most, rtol)
        return fn

    return deco


def longitudes(r, n):
    """Within one turn, or past it in either direction (the healpix package gives no pixels for those below -360)."""
    return r.uniform(*((-180, 180), (-360, 720))[int(r.integers(2))], size=n)


# Every function returns the data of all entries (last axis), and f(xp, *data), which gives arrays with the entries on their last axis.


@entry("np np strict jax")
def displace(r, n):
    a = r.uniform(0, 3, size=n) * np.exp(2j * np.pi * r.random(n))
    return [longitudes(r, n), r.uniform(-90, 90, size=n), a], lambda xp, *d: glass.displace(*d)


@entry()
def displace_real(r, n):
    return [longitudes(r, n), r.uniform(-90, 90, size=n), r.normal(size=(2, n))], lambda xp, *d: glass.displace(*d)


@entry()
def deflect(r, n):
    a = r.uniform(0, 3, size=n) * np.exp(2j * np.pi * r.random(n))
    return [longitudes(r, n), r.uniform(-90, 90, size=n), a], lambda xp, *d: glass.deflect(*d)


@entry("np np strict jax")
def displacement(r, n):
    return [longitudes(r, n) if i % 2 == 0 else r.uniform(-90, 90, size=n) for i in range(4)], lambda xp, *d: [glass.displacement(*d)]


@entry()
def galaxy_shear(r, n):
    m = [0.1 * r.normal(size=192) * (r.random(192) < 0.7) for _ in range(3)]
    red = bool(r.integers(2))
    e = 0.3 * (r.normal(size=n) + 1j * r.normal(size=n))
    return [longitudes(r, n), r.uniform(-90, 90, size=n), e], lambda xp, *d: [glass.galaxy_shear(*d, *(A(xp, x) for x in m), reduced_shear=red)]


@entry("np strict jax")
def linear_bias(r, n):
    return [r.uniform(-1, 9, size=n), r.uniform(0.5, 2, size=n)], lambda xp, *d: [glass.linear_bias(*d)]


@entry("np strict jax")
def loglinear_bias(r, n):
    return [r.uniform(-0.99, 9, size=n), r.uniform(0.5, 2, size=n)], lambda xp, *d: [glass.loglinear_bias(*d)]


@entry()
def position_weights(r, n):
    k = int(r.integers(1, 4))
    b = r.uniform(0.5, 2, size=k)
    if r.integers(2):
        return [r.uniform(0, 2, size=(k, n))], lambda xp, d: [glass.position_weights(d, A(xp, b))]
    return [r.uniform(0, 2, size=(k, n)), r.uniform(0.5, 2, size=(k, n))], lambda xp, d, w: [glass.position_weights(d, w)]


@entry(most=3000)
def gaussian_nz(r, n):
    z = np.linspace(0, 3, 21)
    return [r.uniform(0.2, 2, size=n), r.uniform(0.1, 1, size=n)], lambda xp, m, s: [xp.matrix_transpose(glass.gaussian_nz(A(xp, z), m, s))]


@entry(most=3000)
def smail_nz(r, n):
    z = np.linspace(0, 3, 21)
    return [r.uniform(0.2, 2, size=n), r.uniform(1, 3, size=n), r.uniform(1, 3, size=n)], lambda xp, *d: [xp.matrix_transpose(glass.smail_nz(A(xp, z), *d))]


@entry(most=20_000)
def tomography(r, n):
    bins = [(0.0, 0.3), (0.3, 1.0), (1.0, 2.0)]
    return [np.sort(r.uniform(0, 3, size=n)), r.uniform(0, 2, size=n)], lambda xp, z, f: [glass.tomo_nz_gausserr(z, f, 0.05, bins)]


def shells(r, xp=np):
    z = np.array([0.0, 0.4, 0.9, 1.5, 2.0])
    f = [glass.tophat_windows, glass.linear_windows, glass.cubic_windows][int(r.integers(3))]
    return lambda xp: f(A(xp, z), 0.1)


@entry(most=2000)
def restrict(r, n):
    ws, z = shells(r), np.linspace(0, 3, 16)
    return [r.normal(size=(16, n))], lambda xp, d: [xp.matrix_transpose(glass.restrict(A(xp, z), xp.matrix_transpose(d), ws(xp)[1])[1])]


def _partition(method, most):
    @entry("np np np strict", most, rtol=1e-7)
    def fn(r, n):
        ws, z = shells(r), np.linspace(0, 2, 31)
        return [r.uniform(0.1, 1, size=(31, n))], lambda xp, d: [glass.partition(A(xp, z), xp.matrix_transpose(d), ws(xp), method=method)]

    TABLE[f"partition_{method}"] = TABLE.pop("fn")


_partition("nnls", 300)
_partition("lstsq", 3000)
_partition("restrict", 3000)


@entry()
def combine(r, n):
    ws = shells(r)
    k = len(ws(np))
    w = r.uniform(0.1, 1, size=(k, 2))
    return [r.uniform(-0.1, 2.1, size=n)], lambda xp, z: [glass.combine(z, A(xp, w), ws(xp))]


@entry(most=3000)
def combine_weights(r, n):
    ws, z = shells(r), np.linspace(0, 2, 17)
    k = len(ws(np))
    return [r.uniform(0.1, 1, size=(k, n))], lambda xp, w: [xp.matrix_transpose(glass.combine(A(xp, z), w, ws(xp)))]


@entry("np strict jax", most=20_000)
def cumulative(r, n):
    x = np.cumsum(r.uniform(0.1, 1, size=9))
    return [r.normal(size=(9, n))], lambda xp, y: [xp.matrix_transpose(glass.arraytools.cumulative_trapezoid(xp.matrix_transpose(y), A(xp, x)))]


@entry("np strict jax")
def interpolation(r, n):
    xq, y = np.cumsum(r.uniform(0.1, 1, size=9)), r.normal(size=(3, 9))
    return [r.uniform(-1, 9, size=n)], lambda xp, x: [glass.arraytools.ndinterp(x, A(xp, xq), A(xp, y), left=-1.0, right=2.0)]


@entry(most=3000)
def interpolated_rows(r, n):
    xq, x = np.cumsum(r.uniform(0.1, 1, size=9)), r.uniform(-1, 9, size=5)
    return [r.normal(size=(9, n))], lambda xp, y: [xp.matrix_transpose(glass.arraytools.ndinterp(A(xp, x), A(xp, xq), xp.matrix_transpose(y)))]


@entry(most=5000, rtol=1e-8)
def cov_clip(r, n):
    m = r.normal(size=(3, 3, n))
    return [m + m.transpose(1, 0, 2)], lambda xp, c: [xp.permute_dims(glass.algorithm.cov_clip(xp.permute_dims(c, (2, 0, 1))), (1, 2, 0))]


@entry("np np np strict")
def planes(r, n):
    c, z = Cosmo(p=1.5, curv=float(r.uniform(-0.1, 0.1))), np.cumsum(r.uniform(0.1, 0.5, size=4))

    def f(xp, d):
        m = glass.MultiPlaneConvergence(Cosmo(p=1.5, curv=c.curv, xp=xp))
        out = []
        for i in range(4):
            m.add_plane(d[i, ...], float(z[i]), 0.5 + 0.1 * i)
            out.append(xp.asarray(m.kappa, copy=True))
        return out

    return [r.normal(size=(4, n))], f


@entry(most=3000)
def plane_weights(r, n):
    ws = shells(r)
    k = len(ws(np))
    return [r.uniform(0.1, 1, size=(k, n))], lambda xp, w: [glass.multi_plane_weights(w, ws(xp), Cosmo(p=1.5, xp=xp))]


@entry("np np strict jax", most=20_000, rtol=1e-8)
def iternorm(r, n):
    k = int(r.integers(2, 4))
    m = r.normal(size=(n, k, k))
    c = m @ m.transpose(0, 2, 1) + 0.05 * np.eye(k)
    c *= r.choice([1.0, 1e-8, 1e-20, 1e-60, 1e60], size=n)[:, None, None]
    rows = np.zeros((k, k, n))
    for i in range(k):
        for j in range(i + 1):
            rows[i, j] = c[:, i, i - j]
    # the variances relative to which the weights are compared
    return [rows], lambda xp, d: [xp.matrix_transpose(w) for w in glass.iternorm(xp.matrix_transpose(d[i, : i + 1, ...]) for i in range(k))]


@entry(most=20_000)
def cov_from_spectra(r, n):
    return [r.normal(size=(6, n))], lambda xp, d: [xp.permute_dims(glass.cov_from_spectra([d[i, ...] for i in range(6)]), (1, 2, 0))]


@entry(most=20_000)
def effective_cls(r, n):
    w = r.normal(size=(3, 2))
    return [r.normal(size=(6, n))], lambda xp, d: [glass.effective_cls([d[i, ...] for i in range(6)], A(xp, w))]


@entry("np strict jax")
def transformed(r, n):
    t = [glass.grf.Normal(), glass.grf.Lognormal(float(r.uniform(0.2, 2))), glass.grf.SquaredNormal(float(r.uniform(0.2, 1)), float(r.uniform(0.2, 2)))]
    x = np.concatenate([r.normal(size=(1, n)) * 3])
    return [x[0]], lambda xp, d: [f(d, 0.5) for f in t]


@entry("np strict jax")
def correlations(r, n):
    g = glass.grf
    a = [g.Normal(), g.Lognormal(float(r.uniform(0.2, 2))), g.SquaredNormal(float(r.uniform(0.2, 1)), float(r.uniform(0.2, 2)))]
    pairs = [(a[0], a[0]), (a[1], a[1]), (a[2], a[2]), (a[0], a[1]), (a[1], a[0])]
    x = r.uniform(-0.01, 0.9, size=n) * r.choice([1.0, 1e-4, 1e-10], size=n)
    return [x], lambda xp, d: [f(*p, d) for p in pairs for f in (g.corr, g.icorr, g.dcorr)]


@entry("np np strict jax")
def pixels(r, n):
    nside = int(2 ** r.integers(0, 13))
    f = glass.healpix
    return [r.uniform(-360, 360, size=n), r.uniform(-90, 90, size=n)], lambda xp, lon, lat: [f.ang2pix(nside, lon, lat, lonlat=True), *f.ang2vec(lon, lat, lonlat=True)]


@entry()
def density_weights(r, n):
    w = [glass.VolumeWeight, glass.DensityWeight, glass.DistanceWeight]
    return [r.uniform(0, 3, size=n)], lambda xp, z: [f(Cosmo(p=1.5, xp=xp))(z) for f in w]


# -------------------------------------------------------- random functions: the entries include their variates


@entry()
def photometric(r, n):
    # no variate is beyond the limits, so that none is redrawn
    z, s, g = r.uniform(0.5, 2, size=n), r.uniform(0.001, 0.02, size=n), np.clip(2 * r.normal(size=n), -7, 7)
    lim = {} if r.integers(2) else {"lower": 0.01, "upper": 9.0}
    return [z, s, g], lambda xp, z, s, g: [glass.gaussian_phz(z, s, rng=Fixed([], [N(g)]), **lim)]


@entry()
def intrinsic_norm(r, n):
    s = float(r.uniform(0.05, 0.6))
    return [r.normal(size=n), r.normal(size=n)], lambda xp, a, b: [glass.ellipticity_intnorm(a.shape[0], s, rng=Fixed([], [N(a), N(b)]), xp=xp)]


@entry()
def gaussian_ellipticity(r, n):
    s = float(r.uniform(0.01, 0.2))
    return [np.clip(r.normal(size=n), -3.4, 3.4), np.clip(r.normal(size=n), -3.4, 3.4)], lambda xp, a, b: [glass.ellipticity_gaussian(a.shape[0], s, rng=Fixed([], [N(a), N(b)]), xp=xp)]


@entry()
def axis_ratio(r, n):
    return [r.uniform(0.5, 1, size=n), r.uniform(0.1, 0.5, size=n), r.random(n), r.random(n)], lambda xp, a, b, u, v: [glass.triaxial_axis_ratio(a, b, rng=Fixed([N(u), N(v)], []))]


@entry()
def window_redshifts(r, n):
    z = np.linspace(0.2, 1, 9)
    w = r.uniform(0.1, 1, size=9) * (r.random(9) < 0.7)
    w[3:5] = 0.5
    return [r.random(n)], lambda xp, u: [glass.redshifts(u.shape[0], glass.RadialWindow(A(xp, z), A(xp, w), 0.5), rng=Fixed([N(u)], []))]


@entry()
def orientations(r, n):
    e = r.uniform(0, 0.9, size=n) * np.exp(2j * np.pi * r.random(n))
    return [e, r.random(n)], lambda xp, e, u: [glass.resample_shapes(e, rng=Fixed([N(u)], []))]


# ---------------------------------------------------------------- the check

SIZES = [1, 2, 3, 7, 16, 50, 100, 128, 255, 256, 257, 500, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4097, 9999, 10_000, 10_001, 20_001, 32_768, 65_537, 100_000]


@st.composite
def cases(draw):
    # drawn from the seed, since Hypothesis prefers some of the functions by far
    seed = draw(seeds)
    r = rnd(seed ^ 0x5EED)
    name = sorted(TABLE)[int(r.integers(len(TABLE)))]
    _, libs, most, _ = TABLE[name]
    lib = libs[int(r.integers(len(libs)))]
    sizes = [n for n in SIZES if n <= most]
    if lib == "jax":
        return {"function": name, "lib": lib, "n": draw(st.sampled_from([5, 1000])), "how": draw(st.sampled_from(["reversed", "half"])), "seed": seed % 4}
    return {"function": name, "lib": lib, "n": draw(st.one_of(st.sampled_from(sizes), st.integers(1, most))), "how": draw(st.sampled_from(["one", "few", "half", "reversed", "shuffled", "repeated", "split"])), "seed": seed}


def selection(how, n, r):
    if how == "one":
        return [np.array([int(r.choice([0, n - 1, r.integers(n)]))])]
    if how == "few":
        return [r.integers(0, n, size=min(n, 7))]
    if how == "half":
        return [np.arange((n + 1) // 2, n) if n > 1 else np.arange(1)]
    if how == "reversed":
        return [np.arange(n)[::-1]]
    if how == "shuffled":
        return [r.permutation(n)]
    if how == "repeated":
        return [np.tile(np.arange(min(n, 50)), 3 if n > 50 else 40)]
    cuts = np.unique(np.concatenate([[0, n], r.integers(0, n, size=2)]))
    return [np.arange(a, b) for a, b in zip(cuts, cuts[1:])]


def ordered(name, ix):
    return np.sort(ix) if name == "tomography" else ix


@sub("C43", strategy=cases, rule="more than one entry", quick=700, thorough=20_000, shards=4)
def independent(case):
    """Results for a selection of the entries, in another order, repeated or in pieces are those for all entries at once."""
    fn, _, _, rtol = TABLE[case["function"]]
    xp, n = XPS[case["lib"]], case["n"]
    r = rnd(case["seed"])
    data, f = fn(r, n)

    def call(ix):
        with np.errstate(all="ignore"):
            out = f(xp, *(A(xp, d[..., ix]) for d in data))
        for o in out:
            check_ns(o, xp)
        return [N(o) for o in out]

    everything = call(np.arange(n))
    for ix in selection(case["how"], n, r):
        ix = ordered(case["function"], ix)
        part = call(ix)
        assert len(part) == len(everything), f"{case['function']}: {len(part)} results instead of {len(everything)}"
        for k, (a, b) in enumerate(zip(part, everything)):
            assert b.shape[-1] == n and a.shape == (*b.shape[:-1], ix.size), f"{case['function']}: shape {a.shape} for {ix.size} entries, {b.shape} for {n}"
            assert a.dtype == b.dtype, f"{case['function']}: type {a.dtype} for {ix.size} entries, {b.dtype} for {n}"
            b = b[..., ix]
            # relative to the largest value of each entry by itself
            size = np.max(np.abs(b), axis=tuple(range(b.ndim - 1)), keepdims=True) if case["function"] != "transformed" else np.abs(b)
            bad = ~((np.abs(a - b) <= rtol * size) | (a == b) | (np.isnan(a) & np.isnan(b)))
            if np.any(bad):
                at = tuple(int(v[0]) for v in np.nonzero(bad))
                raise AssertionError(f"{case['function']}: entry {int(ix[at[-1]])} of {n} is {b[at]!r}, but {a[at]!r} as number {at[-1]} of {ix.size} ({case['how']}; result {k})")
    return n > 1


@st.composite
def large_cases(draw):
    seed = draw(seeds)
    r = rnd(seed ^ 0x1A46E)
    name = sorted(TABLE)[int(r.integers(len(TABLE)))]
    _, libs, most, _ = TABLE[name]
    libs = [v for v in libs if v != "jax"]
    return {"function": name, "lib": libs[int(r.integers(len(libs)))], "n": most, "how": ["one", "few", "few", "half"][int(r.integers(4))], "seed": seed}


@sub("C43", strategy=large_cases, rule="always", quick=300, thorough=4000, shards=4)
def large(case):
    """Results for the largest number of entries are those of a few of them."""
    return independent(case)


# ---------------------------------------------------------------- fields and shells


@st.composite
def groups(draw):
    seed = draw(seeds)
    r = rnd(seed ^ 0x5EED)
    lib = ["np", "np", "np", "strict", "jax"][int(r.integers(5))]
    name = sorted(GROUPS)[int(r.integers(len(GROUPS)))]
    few = lib == "jax"
    return {"function": name, "lib": "np" if (name == "compute" and lib == "strict") or (name in ("solve", "generate") and lib == "jax") else lib, "n": draw(st.integers(1, 3 if few else 8)), "keep": draw(st.lists(st.booleans(), min_size=8, max_size=8)), "nl": draw(st.sampled_from([3] if few else [1, 2, 3, 9, 30])), "seed": seed}


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i, -1, -1)]


def some_spectra(r, n, nl, ragged=False):
    m = r.normal(size=(nl, n, n)) * 0.3
    c = m @ m.transpose(0, 2, 1) + 0.01 * np.eye(n)
    c /= (1.0 + np.arange(nl))[:, None, None] ** 2
    return {(i, j): c[: int(r.integers(1, nl + 1)) if ragged and r.random() < 0.3 else nl, i, j] for i, j in pairs(n)}


def some_fields(r, n, normal=True):
    g = glass.grf
    return [g.Normal() if normal and r.integers(3) == 0 else g.Lognormal(float(r.uniform(0.5, 3))) for _ in range(n)]


def per_pair(f):
    """Results of the pairs of the fields kept are those of these fields alone."""

    def run(case, xp, r, keep):
        n = case["n"]
        c = some_spectra(r, n, case["nl"], ragged=True)
        t = some_fields(r, n)
        if case["function"] == "solve":
            # a small correlation, for which the solver converges
            c = {k: v * 0.1 / (1 + 9 * (k[0] != k[1])) for k, v in c.items()}
        # spectra without monopole
        for v in c.values():
            v[: int(r.random() < 0.3)] = 0.0
        g = r.choice([0.5, 1.0])

        def call(ks):
            out = f(xp, g, [t[k] for k in ks], [A(xp, c[ks[i], ks[j]]) for i, j in pairs(len(ks))])
            return {(ks[i], ks[j]): N(x) for (i, j), x in zip(pairs(len(ks)), out, strict=True)}

        return call(list(range(n))), call(keep)

    return run


def leading(f):
    """Results for the first shells or fields do not depend on those that follow."""

    def run(case, xp, r, keep):
        n, k = case["n"], len(keep)
        state = r.bit_generator.state

        def call(m):
            r.bit_generator.state = state
            return dict(enumerate(N(x) for x in f(case, xp, r, n, m)))

        a, b = call(n), call(k)
        assert len(a) == n and len(b) == k, f"{len(b)} results for the first {k} of {n}"
        return a, b

    return run


def first_rows(case, xp, r, n, m):
    c = some_spectra(r, n, case["nl"])
    full = [np.stack([c[i, j][: max(1, case["nl"] - 1)] for j in range(i, -1, -1)], axis=-1) for i in range(n)]
    return glass.iternorm(A(xp, x) for x in full[:m])


def first_maps(case, xp, r, n, m):
    # positive definite however many correlations are left out
    c = {k: v if k[0] == k[1] else 0.1 * v for k, v in some_spectra(r, n, case["nl"]).items()}
    t = some_fields(r, n)
    corr = int(r.integers(0, 3))
    return list(glass.generate(t[:m], [A(xp, c[p]) for p in pairs(m)], 2, ncorr=corr, rng=np.random.default_rng(case["seed"])))


def edges(r, n):
    return np.concatenate([[0.0], np.cumsum(r.uniform(0.1, 0.5, size=n + 2))])


def kinds(xp, r, n, m):
    z = edges(r, n)
    kind = ("tophat", "linear", "cubic")[int(r.integers(3))]
    return getattr(glass, f"{kind}_windows")(A(xp, z[: m + (1 if kind == "tophat" else 2)]), 0.05)


def first_windows(case, xp, r, n, m):
    return [xp.concat([w.za, w.wa, xp.asarray([float(w.zeff)])]) for w in kinds(xp, r, n, m)]


def first_lenses(case, xp, r, n, m):
    ws = glass.linear_windows(A(xp, edges(r, n)[: m + 2]), 0.05)
    x = glass.multi_plane_matrix(ws, Cosmo(p=1.5, xp=xp))
    # the matrix has one row for each source, of which those after it are no part
    return [x[i, : i + 1] for i in range(m)]


def each_part(case, xp, r, n, m):
    ws, z = kinds(xp, r, n, m), A(xp, np.linspace(0, 3, 31))
    return glass.partition(z, A(xp, r.normal(size=31)), ws, method="restrict")


def each_bias(case, xp, r, n, m):
    ws = kinds(xp, r, n, m)
    b = r.uniform(1, 2, size=31)
    return [glass.effective_bias(A(xp, np.linspace(0, 9, 31)), A(xp, b), w) for w in ws]


GROUPS = {
    "discretise": per_pair(lambda xp, g, t, c: glass.discretized_cls(c, lmax=4 if g < 1 else None, nside=2)),
    "compute": per_pair(lambda xp, g, t, c: glass.compute_gaussian_spectra(t, c)),
    "solve": per_pair(lambda xp, g, t, c: glass.solve_gaussian_spectra(t, c)),
    "iternorm": leading(first_rows),
    "generate": leading(first_maps),
    "windows": leading(first_windows),
    "lenses": leading(first_lenses),
    "parts": leading(each_part),
    "bias": leading(each_bias),
}


@sub("C43", strategy=groups, rule="fewer fields than there are", quick=400, thorough=8000, shards=4)
def parts(case):
    """Fields and shells give the same results among others as by themselves: any choice of fields for spectra, the first ones for sequences."""
    xp, r = XPS[case["lib"]], rnd(case["seed"])
    n = case["n"]
    keep = [i for i in range(n) if case["keep"][i]] or [0]
    with np.errstate(all="ignore"), warnings.catch_warnings(), hpdata.datapath():
        warnings.simplefilter("ignore")
        everything, some = GROUPS[case["function"]](case, xp, r, keep)
    for k, x in some.items():
        y = everything[k]
        assert x.shape == y.shape, f"{case['function']}: shape {x.shape} of {k} among {len(keep)}, {y.shape} among {n}"
        big = np.max(np.abs(y[np.isfinite(y)]), initial=0.0)
        bad = ~((np.abs(x - y) <= 1e-11 * big) | (np.isnan(x) & np.isnan(y)) | (x == y))
        assert not np.any(bad), f"{case['function']}: {k} is {y.ravel()[:5]} among {n} fields or shells, but {x.ravel()[:5]} among {keep}"
    return len(keep) < n
