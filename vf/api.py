"""One generated call of every public function, for any array library.

An entry is a function of ``g`` (what is given: arrays and lists are made, and
remembered, by it) and ``r`` (a seeded source of data), and returns the result
of a public function.  The same seed gives the same data in every library.
"""

from __future__ import annotations

import math

import numpy as np

import glass
import glass.algorithm
import glass.arraytools
import glass.grf
import glass.harmonics
import glass.healpix
import glass.shells
from vf.be import XPS
from vf.cosmo import Cosmo
from vf.rec import Scripted

ENTRIES: dict[str, "Entry"] = {}


class Entry:
    def __init__(self, fn, libs, rtol, atol):
        self.group = GROUP
        self.fn, self.name, self.libs, self.rtol, self.atol = fn, fn.__name__, libs, rtol, atol


def entry(libs="np strict jax", rtol=1e-8, atol=1e-12):
    def deco(fn):
        assert fn.__name__ not in ENTRIES, fn.__name__
        ENTRIES[fn.__name__] = Entry(fn, libs.split(), rtol, atol)
        return fn

    return deco


def laid_out(d, layout):
    """The same array in another place of memory."""
    if layout is None or d.ndim == 0:
        return d.copy()
    if layout == "strided":
        big = np.full((*d.shape[:-1], 2 * d.shape[-1]), 77, dtype=d.dtype)
        big[..., ::2] = d
        return big[..., ::2]
    if layout == "reversed":
        return d[..., ::-1].copy()[..., ::-1]
    if layout == "fortran":
        return np.asfortranarray(d)
    if layout == "offset":
        big = np.full((*d.shape[:-1], d.shape[-1] + 3), 77, dtype=d.dtype)
        big[..., 1:-2] = d
        return big[..., 1:-2]
    raise ValueError(layout)


class Given:
    """Makes arrays of one library and remembers them; repeats them after ``again``."""

    def __init__(self, lib, seed, readonly=False, rng=None, layout=None):
        self.lib, self.xp, self.seed, self.readonly, self.layout = lib, XPS[lib], seed, readonly, layout
        self.arrays, self.lists = [], []
        self.known, self.at = [], 0
        self.make_rng = rng or (lambda: Scripted(seed))

    def again(self):
        self.at = 0

    def _next(self, make):
        if self.at == len(self.known):
            self.known.append(make())
        self.at += 1
        return self.known[self.at - 1]

    def __call__(self, data, dtype=None):
        def make():
            d = np.array(data, dtype=dtype, copy=True)
            if self.lib == "np":
                x = laid_out(d, self.layout)
                if self.readonly:
                    x.flags.writeable = False
            else:
                x = self.xp.asarray(d)
            if self.lib == "strict" and self.readonly:
                x._array.flags.writeable = False
            self.arrays.append((x, np.array(np.asarray(x), copy=True)))
            return x

        return self._next(make)

    def items(self, values):
        """A list, which must stay as it is."""

        def make():
            x = list(values)
            self.lists.append((x, list(x)))
            return x

        return self._next(make)

    def dict(self, values):
        def make():
            x = dict(values)
            self.lists.append((x, dict(x)))
            return x

        return self._next(make)

    def keep(self, make):
        """Anything else, made once."""
        return self._next(make)

    def window(self, za, wa, zeff):
        return self._next(lambda: glass.RadialWindow(za, wa, zeff))

    @property
    def rng(self):
        return self.make_rng()

    def unchanged(self):
        for x, d in self.arrays:
            y = np.asarray(x)
            assert y.shape == d.shape and y.dtype == d.dtype, f"an argument of shape {d.shape} became {y.shape}"
            bad = ~((y == d) | ((y != y) & (d != d)))
            assert not np.any(bad), f"an argument was changed: {d.ravel()[:6]} became {y.ravel()[:6]}"
        for x, d in self.lists:
            assert type(x) is type(d) and len(x) == len(d), f"a list or mapping given changed its length from {len(d)} to {len(x)}"
            for a, b in zip(x.items() if isinstance(x, dict) else x, d.items() if isinstance(d, dict) else d):
                ok = a[0] is b[0] and a[1] is b[1] if isinstance(x, dict) else a is b
                assert ok, "an entry of a list or mapping given was replaced"


NAMES = {"np": "numpy", "strict": "array_api_strict", "jax": "jax.numpy"}


def compare(a, b, e, what):
    """Two flattened results are the same to the tolerances of the entry."""
    assert [(p, "list" if k in ("list", "tuple") else "plain" if k == "plain" else "values") for p, k, *_ in a] == [
        (p, "list" if k in ("list", "tuple") else "plain" if k == "plain" else "values") for p, k, *_ in b
    ], f"{what}: different structure of the result: {[(p, k) for p, k, *_ in a][:20]} and {[(p, k) for p, k, *_ in b][:20]}"
    for (p, k, _, x), (_, _, _, y) in zip(a, b):
        if k in ("list", "tuple", "plain"):
            assert x == y, f"{what}: {p} is {x} and {y}"
            continue
        assert x.shape == y.shape, f"{what}: {p} has shapes {x.shape} and {y.shape}"
        assert x.dtype.kind == y.dtype.kind, f"{what}: {p} has types {x.dtype} and {y.dtype}"
        ok = np.isclose(x, y, rtol=e.rtol, atol=e.atol, equal_nan=True)
        if not np.all(ok):
            i = tuple(int(v[0]) for v in np.nonzero(np.atleast_1d(~ok)))
            raise AssertionError(f"{what}: {p} differs at {i}: {np.atleast_1d(x)[i]!r} and {np.atleast_1d(y)[i]!r}")


def flatten(x, path="result"):
    """Plain list of (path, kind, library, values) of everything in a result."""
    if isinstance(x, glass.RadialWindow):
        return flatten((x.za, x.wa, x.zeff), path + ".window")
    if isinstance(x, dict):
        return [e for k, v in x.items() for e in flatten(v, f"{path}[{k!r}]")]
    if isinstance(x, (list, tuple)):
        return [(path, type(x).__name__, None, len(x))] + [e for i, v in enumerate(x) for e in flatten(v, f"{path}[{i}]")]
    if x is None or isinstance(x, (str, bool)):
        return [(path, "plain", None, x)]
    if isinstance(x, (int, float, complex)) and not isinstance(x, np.generic):
        return [(path, "number", None, np.array(x))]
    if isinstance(x, np.generic):
        return [(path, "number", None, np.array(x))]
    assert hasattr(x, "__array_namespace__"), f"{path}: {type(x)}"
    return [(path, "array", x.__array_namespace__().__name__, np.array(np.asarray(x), copy=True))]


# ---------------------------------------------------------------- data


def pick(r, *options):
    return options[int(r.integers(len(options)))]


def grid(r, n, lo=0.0, hi=2.0):
    d = r.uniform(0.2, 1.0, size=n - 1)
    return lo + (hi - lo) * np.concatenate([[0.0], np.cumsum(d) / d.sum()])


def spectra(g, r, n, nl, corr=0.5, amp=0.1, monopole=0.0, corrs=1):
    """Positive definite set of spectra in the order of the package."""
    ell = np.arange(nl)
    a = r.uniform(0.5, 1.5, size=n) * amp
    base = 1.0 / (1.0 + ell) ** 2
    base[0] = monopole
    out = []
    for i in range(n):
        for j in range(i, -1, -1):
            c = 1.0 if i == j else corr ** (i - j)
            out.append(g(a[i] * a[j] * c * base))
    return g.items(out)


def windows(g, r, k=3, kind=None):
    """Overlapping or adjacent windows."""
    e = grid(r, k + 1, 0.1, 1.6)
    kind = kind or pick(r, "flat", "hat")
    out = []
    for i in range(k):
        if kind == "flat" or i + 2 > k:
            z = np.linspace(e[i], e[i + 1], 4)
            w = np.ones(4)
            if kind == "hat":
                w = np.array([0.0, 0.5, 1.0, 0.0])
        else:
            z = np.array([e[i], 0.5 * (e[i] + e[i + 1]), e[i + 1], e[i + 2]])
            w = np.array([0.0, 0.5, 1.0, 0.0])
        out.append(g.window(g(z), g(w * r.uniform(0.5, 2)), float(z.mean())))
    return g.items(out)


def mapof(r, nside=4, pops=()):
    return r.normal(size=(*pops, 12 * nside**2))


def maybe(r, g, x):
    """A number or an array."""
    return float(x) if r.integers(2) else g(x)


# ---------------------------------------------------------------- fields

GROUP = "fields"


@entry()
def iternorm(g, r):
    n = 4
    m = r.normal(size=(n, n))
    c = m @ m.T
    return list(glass.iternorm(iter([g(np.array([c[i, i - j] for j in range(i + 1)])) for i in range(n)])))


@entry()
def cls2cov(g, r):
    n, nl, nc = 4, 5, int(r.integers(0, 4))
    cls = g.items([g(np.abs(r.normal(size=pick(r, nl, nl - 2)))) for _ in range(n * (n + 1) // 2)])
    return [g.xp.asarray(np.array(np.asarray(c), copy=True)) for c in glass.cls2cov(cls, nl, n, nc)]


@entry()
def discretized_cls(g, r):
    cls = g.items([g(r.normal(size=int(k))) if k else g([]) for k in r.choice([0, 8, 10], size=6)])
    kw = pick(r, {}, {"lmax": 5}, {"ncorr": 1}, {"lmax": 6, "ncorr": 0}, {"lmax": 12})
    return glass.discretized_cls(cls, **kw)


@entry("np jax", rtol=1e-6)
def compute_gaussian_spectra(g, r):
    n = 3
    cls = spectra(g, r, n, 8)
    t = g.items([pick(r, glass.grf.Normal(), glass.grf.Lognormal(float(r.uniform(0.5, 2)))) for _ in range(n)])
    return glass.compute_gaussian_spectra(t, cls)


@entry("np strict jax", rtol=1e-6)
def solve_gaussian_spectra(g, r):
    n = 2
    cls = spectra(g, r, n, 8)
    t = g.items([glass.grf.Lognormal(float(r.uniform(0.5, 2))) for _ in range(n)])
    return glass.solve_gaussian_spectra(t, cls)


@entry("np strict jax", rtol=1e-6)
def lognormal_gls(g, r):
    return glass.lognormal_gls(spectra(g, r, 2, 8), float(r.uniform(0.5, 2)))


@entry("np strict jax", rtol=1e-6)
def generate(g, r):
    t = g.items([pick(r, glass.grf.Normal(), glass.grf.Lognormal(float(r.uniform(0.5, 2)))) for _ in range(3)])
    return list(glass.generate(t, spectra(g, r, 3, 8), 4, ncorr=pick(r, None, 1), rng=g.rng))


@entry("np strict jax", rtol=1e-6)
def generate_gaussian(g, r):
    return list(glass.generate_gaussian(spectra(g, r, 2, 8), 4, rng=g.rng))


@entry("np strict jax", rtol=1e-6)
def generate_lognormal(g, r):
    return list(glass.generate_lognormal(spectra(g, r, 2, 8), 4, float(r.uniform(0.5, 2)), rng=g.rng))


@entry()
def getcl(g, r):
    cls = spectra(g, r, 3, 8)
    i, j = (int(v) for v in r.integers(0, 3, size=2))
    return glass.getcl(cls, i, j, pick(r, None, 5, 12))


@entry()
def spectra_indices(g, r):
    return glass.spectra_indices(int(r.integers(0, 6)), xp=g.xp)


@entry()
def enumerate_spectra(g, r):
    return list(glass.enumerate_spectra(spectra(g, r, 3, 8)))


@entry()
def effective_cls(g, r):
    cls = spectra(g, r, 3, 8)
    w1 = g(r.normal(size=pick(r, (3,), (3, 2))))
    w2 = g(r.normal(size=pick(r, (3,), (3, 2)))) if r.integers(2) else None
    return glass.effective_cls(cls, w1, w2, lmax=pick(r, None, 5))


@entry()
def reordered_spectra(g, r):
    cls = spectra(g, r, 3, 4)
    h = glass.glass_to_healpix_spectra(cls)
    return [h, glass.healpix_to_glass_spectra(cls)]


@entry()
def cov_from_spectra(g, r):
    return glass.cov_from_spectra(spectra(g, r, 3, 8), lmax=pick(r, None, 4, 10))


@entry()
def check_posdef_spectra(g, r):
    return glass.check_posdef_spectra(spectra(g, r, 3, 6, corr=pick(r, 0.5, 3.0), monopole=pick(r, 0.0, 1.0)))


@entry(rtol=1e-6)
def regularized_spectra_clip(g, r):
    return glass.regularized_spectra(spectra(g, r, 3, 6, corr=pick(r, 0.5, 2.0), monopole=1.0), lmax=pick(r, None, 4), method="clip")


@entry(rtol=1e-6)
def regularized_spectra_nearest(g, r):
    return glass.regularized_spectra(spectra(g, r, 3, 6, corr=pick(r, 0.5, 1.2), monopole=1.0), method="nearest")


@entry()
def field_transformations(g, r):
    sh = windows(g, r)
    f = glass.lognormal_fields(sh) if r.integers(2) else glass.lognormal_fields(sh, lambda z: 1.0 + z)
    x = g(r.normal(size=5))
    return [t(x, 0.3) for t in f] + [t(x, 0.2) for t in glass.gaussian_fields(sh)]


# ---------------------------------------------------------------- grf

GROUP = "grf"

T = {
    "n": lambda r: glass.grf.Normal(),
    "l": lambda r: glass.grf.Lognormal(float(r.uniform(0.5, 2))),
    "s": lambda r: glass.grf.SquaredNormal(float(r.uniform(0.5, 2)), float(r.uniform(0.5, 2))),
}
PAIRS = ["nn", "nl", "ln", "ll", "ss"]


@entry()
def transformations(g, r):
    x = g(r.normal(size=(2, 4)))
    return [T[k](r)(x, float(r.uniform(0.1, 1))) for k in "nls"]


@entry()
def correlations(g, r):
    p = pick(r, *PAIRS)
    t1, t2 = T[p[0]](r), T[p[1]](r)
    if p == "ss":
        t2 = t1
    x = g(r.uniform(0.01, 0.5, size=6))
    return [glass.grf.corr(t1, t2, x), glass.grf.icorr(t1, t2, x), glass.grf.dcorr(t1, t2, x)]


@entry("np jax", rtol=1e-6)
def compute(g, r):
    p = pick(r, *PAIRS)
    cl = g(0.1 / (1.0 + np.arange(8)) ** 2)
    t1 = T[p[0]](r)
    return glass.grf.compute(cl, t1) if p[0] == p[1] else glass.grf.compute(cl, t1, T[p[1]](r))


@entry("np strict jax", rtol=1e-5, atol=1e-9)
def solve(g, r):
    cl = g(0.1 / (1.0 + np.arange(8)) ** 2)
    t1 = T["l"](r)
    kw = pick(r, {}, {"pad": 4}, {"monopole": 0.0}, {"initial": g(0.08 / (1.0 + np.arange(8)) ** 2)})
    return glass.grf.solve(cl, t1, **kw)


# ---------------------------------------------------------------- shells

GROUP = "shells"


@entry()
def weights(g, r):
    z = g(r.uniform(0, 2, size=5))
    p = float(r.uniform(1.2, 2))
    c = g.keep(lambda: Cosmo(p=p, xp=g.xp))
    return [glass.DistanceWeight(c)(z), glass.VolumeWeight(c)(z), glass.DensityWeight(c)(z)]


def _windows(name, kinds=("none", "function")):
    def fn(g, r):
        z = g(np.round(grid(r, 5, pick(r, 0.0, 0.2), 1.0), 2))
        return getattr(glass, name)(z, 0.05, **({"weight": lambda v: 1.0 + v} if r.integers(2) else {}))

    fn.__name__ = name
    return fn


for _n in ("tophat_windows", "linear_windows", "cubic_windows"):
    entry(rtol=1e-7)(_windows(_n))


@entry()
def restrict(g, r):
    w = windows(g, r, 2)
    z = grid(r, 6)
    return glass.restrict(g(z), g(r.normal(size=pick(r, (6,), (2, 6)))), w[int(r.integers(2))])


def _partition(method):
    def fn(g, r):
        w = windows(g, r, 3, "hat" if method == "lstsq" else None)
        z = grid(r, 8, 0.1, 1.6)
        z, fz = g(z), g(r.uniform(0.2, 1, size=pick(r, (8,), (2, 8))))
        if method != "restrict" and r.integers(2):
            return getattr(glass.shells, f"partition_{method}")(z, fz, w, sumtol=float(pick(r, 0.3, 1e-3)))
        return glass.partition(z, fz, w, method=method)

    fn.__name__ = f"partition_{method}"
    return fn


for _n in ("lstsq", "nnls", "restrict"):
    entry(rtol=1e-6, atol=1e-9)(_partition(_n))


@entry()
def combine(g, r):
    w = windows(g, r, 3)
    return glass.combine(g(grid(r, 7)), g(r.normal(size=pick(r, (3,), (3, 2)))), w)


@entry()
def redshift_grid(g, r):
    return glass.redshift_grid(0.1, 1.3, **pick(r, {"num": 5}, {"dz": 0.13}), xp=g.xp)


@entry("np")
def distance_grid(g, r):
    return glass.distance_grid(g.keep(lambda: Cosmo(p=1.5)), 0.1, 1.3, **pick(r, {"num": 5}, {"dx": 200.0}))


@entry()
def distribute(g, r):
    w = windows(g, r, 3)
    return glass.distribute(g(r.uniform(0.0, 1.8, size=pick(r, (6,), (2, 3)))), w, rng=g.rng)


# ---------------------------------------------------------------- algorithms, arrays

GROUP = "algorithms"


@entry(rtol=1e-6, atol=1e-9)
def nnls(g, r):
    return glass.algorithm.nnls(g(r.normal(size=(6, 4))), g(r.normal(size=6) * pick(r, 1.0, 100.0, 1e-3)))


def _sym(r, n=4):
    m = r.normal(size=(n, n))
    return m + m.T


@entry(rtol=1e-6, atol=1e-9)
def cov_clip(g, r):
    return glass.algorithm.cov_clip(g(np.array([_sym(r), _sym(r)])) if r.integers(2) else g(_sym(r)), *pick(r, (), (0.1,)))


@entry(rtol=1e-6, atol=1e-8)
def nearcorr(g, r):
    m = _sym(r) * 0.4
    np.fill_diagonal(m, 1.0)
    return glass.algorithm.nearcorr(g(m))


@entry(rtol=1e-6, atol=1e-8)
def cov_nearest(g, r):
    m = _sym(r) * 0.4
    np.fill_diagonal(m, r.uniform(1.0, 2.0, size=4))
    return glass.algorithm.cov_nearest(g(m))


@entry()
def broadcast_first(g, r):
    return glass.arraytools.broadcast_first(g(r.normal(size=(3, 1, 2))), g(r.normal(size=3)), g(r.normal(size=(1, 4, 2))))


@entry()
def broadcast_leading_axes(g, r):
    return glass.arraytools.broadcast_leading_axes((g(r.normal(size=(3, 5))), 1), (g(r.normal(size=(2, 1))), 0), (1.5, 0))


@entry()
def ndinterp(g, r):
    xq = np.sort(r.normal(size=5))
    kw = pick(r, {}, {"left": 0.0, "right": 1.0})
    axis = pick(r, -1, 0)
    fq = r.normal(size=(2, 5) if axis == -1 else (5, 2))
    return glass.arraytools.ndinterp(g(r.normal(size=(2, 3))), g(xq), g(fq), axis=axis, **kw)


@entry()
def trapezoid_product(g, r):
    return glass.arraytools.trapezoid_product((g(grid(r, 5)), g(r.normal(size=5))), (g(grid(r, 4, 0.5, 1.7)), g(r.normal(size=4))), (g(grid(r, 6, 0.2, 1.5)), g(r.normal(size=6))))


@entry()
def cumulative_trapezoid(g, r):
    return glass.arraytools.cumulative_trapezoid(g(r.normal(size=pick(r, (5,), (2, 5)))), g(grid(r, 5)))


# ---------------------------------------------------------------- harmonics

GROUP = "harmonics"


def _alm(r, lmax=5):
    n = (lmax + 1) * (lmax + 2) // 2
    a = r.normal(size=n) + 1j * r.normal(size=n)
    a[: lmax + 1].imag = 0
    return a


@entry()
def multalm(g, r):
    return glass.harmonics.multalm(g(_alm(r)), g(r.normal(size=6)))


@entry()
def almxfl(g, r):
    return glass.healpix.almxfl(g(_alm(r)), g(r.normal(size=pick(r, 4, 6, 8))))


@entry(rtol=1e-7, atol=1e-10)
def alm2map(g, r):
    if r.integers(2):
        return glass.healpix.alm2map(g(_alm(r)), 4)
    return glass.healpix.alm2map(g.items([g(_alm(r)) for _ in range(3)]), 4, pol=bool(r.integers(2)))


@entry(rtol=1e-7, atol=1e-10)
def alm2map_spin(g, r):
    return glass.healpix.alm2map_spin(g.items([g(_alm(r)), g(_alm(r))]), 4, int(r.integers(1, 3)), 5)


@entry(rtol=1e-7, atol=1e-10)
def map2alm(g, r):
    if r.integers(2):
        return glass.healpix.map2alm(g(mapof(r)), lmax=5)
    return glass.healpix.map2alm(g.items([g(mapof(r)) for _ in range(3)]), lmax=5, pol=bool(r.integers(2)), use_pixel_weights=bool(r.integers(2)))


@entry()
def pixels(g, r):
    th, ph = r.uniform(0, math.pi, size=5), r.uniform(0, 6, size=5)
    return [glass.healpix.ang2pix(8, g(th), g(ph)), glass.healpix.ang2vec(g(th), g(ph)), glass.healpix.get_nside(g(mapof(r)))]


@entry()
def randang(g, r):
    return glass.healpix.randang(8, g(r.integers(0, 768, size=6)), lonlat=bool(r.integers(2)), rng=g.rng)


@entry()
def query_strip(g, r):
    a, b = np.sort(r.uniform(0, math.pi, size=2))
    return glass.healpix.query_strip(4, (float(a), float(b)), xp=g.xp)


@entry(rtol=1e-7, atol=1e-9)
def rotate_map_pixel(g, r):
    return glass.healpix.Rotator(coord=pick(r, "GC", "CE")).rotate_map_pixel(g(mapof(r)))


# ---------------------------------------------------------------- lensing

GROUP = "lensing"


@entry(rtol=1e-6, atol=1e-9)
def from_convergence(g, r):
    kw = pick(r, {"potential": True}, {"deflection": True}, {"shear": True}, {"potential": True, "deflection": True, "shear": True})
    return glass.from_convergence(g(mapof(r)), pick(r, None, 5), discretized=False, **kw)


@entry("np", rtol=1e-6, atol=1e-9)
def shear_from_convergence(g, r):
    return glass.shear_from_convergence(g(mapof(r)), pick(r, None, 5), discretized=False)


@entry()
def multi_plane_convergence(g, r):
    c = g.keep(lambda: Cosmo(p=1.5, xp=g.xp))
    m = glass.MultiPlaneConvergence(c)
    out = []
    for i in range(3):
        d = g(mapof(r, 1))
        m.add_plane(d, 0.3 * (i + 1), float(r.uniform(0.2, 0.5)))
        out += [g.xp.asarray(np.array(np.asarray(m.kappa), copy=True)), m.zsrc, m.wlens]
    w = windows(g, r, 1)[0]
    m = glass.MultiPlaneConvergence(c)
    m.add_window(g(mapof(r, 1)), w)
    return [*out, m.delta, m.kappa]


@entry()
def multi_plane_matrix(g, r):
    return glass.multi_plane_matrix(windows(g, r, 3), g.keep(lambda: Cosmo(p=1.5, xp=g.xp)))


@entry()
def multi_plane_weights(g, r):
    return glass.multi_plane_weights(g(r.uniform(0, 1, size=pick(r, (3,), (3, 2)))), windows(g, r, 3), g.keep(lambda: Cosmo(p=1.5, xp=g.xp)))


def _points(g, r, n=6):
    return g(r.uniform(-180, 180, size=n)), g(r.uniform(-80, 80, size=n))


@entry()
def deflect(g, r):
    a = r.normal(size=6) * 0.02 + 1j * r.normal(size=6) * 0.02
    return glass.deflect(*_points(g, r), g(a) if r.integers(2) else g(np.array([a.real, a.imag])))


@entry()
def displace(g, r):
    a = r.normal(size=6) * 0.02 + 1j * r.normal(size=6) * 0.02
    return glass.displace(*_points(g, r), g(a) if r.integers(2) else g(np.array([a.real, a.imag])))


@entry()
def displacement(g, r):
    return glass.displacement(*_points(g, r), *_points(g, r))


# ---------------------------------------------------------------- points

GROUP = "points"


@entry()
def effective_bias(g, r):
    w = windows(g, r, 2)[0]
    return glass.effective_bias(g(grid(r, 6)), g(r.uniform(0.5, 2, size=6)), w)


@entry()
def bias_models(g, r):
    d, b = g(r.uniform(-0.9, 2, size=(2, 5))), maybe(r, g, r.uniform(0.5, 2))
    return [glass.linear_bias(d, b), glass.loglinear_bias(d, b)]


@entry()
def positions_from_delta(g, r):
    pops = pick(r, (), (2,))
    d = g(r.uniform(-0.9, 1, size=(*pops, 48)))
    n = g(r.uniform(1e-4, 1e-3, size=pops)) if pops else float(r.uniform(1e-4, 1e-3))
    vis = g(r.uniform(0, 1, size=48)) if r.integers(2) else None
    kw = pick(r, {}, {"bias_model": glass.loglinear_bias}, {"bias_model": lambda x, b: x * b})
    return list(glass.positions_from_delta(n, d, pick(r, None, 0.8), vis, remove_monopole=bool(r.integers(2)), rng=g.rng, **kw))


@entry()
def uniform_positions(g, r):
    return list(glass.uniform_positions(g(r.uniform(1e-4, 1e-3, size=pick(r, (), (2,)))), rng=g.rng, xp=g.xp))


@entry()
def position_weights(g, r):
    shape = pick(r, (3,), (3, 2), (3, 3))
    bias = pick(r, None, 0.7, (), (3,), (3, 1)[: len(shape)], shape, shape)
    return glass.position_weights(g(r.uniform(0.1, 1, size=shape)), g(r.uniform(0.5, 2, size=bias)) if isinstance(bias, tuple) else bias)


# ---------------------------------------------------------------- galaxies

GROUP = "galaxies"


@entry()
def redshifts(g, r):
    w = windows(g, r, 2, "hat")[0]
    return glass.redshifts(pick(r, 5, 1), w, rng=g.rng)


@entry()
def redshifts_from_nz(g, r):
    if r.integers(2):
        return glass.redshifts_from_nz(6, g(grid(r, 6)), g(r.uniform(0.1, 1, size=6)), rng=g.rng, warn=False)
    return glass.redshifts_from_nz(g(np.array([2, 3])), g(grid(r, 6)), g(r.uniform(0.1, 1, size=(2, 6))), rng=g.rng, warn=False)


@entry()
def redshifts_from_bins(g, r):
    bins = r.integers(0, 3, size=7)
    z = glass.redshifts_from_bins(g(bins), g(grid(r, 6)), g.dict({k: g(r.uniform(0.1, 1, size=6)) for k in range(3)}), rng=g.rng)
    # the order of galaxies within a bin is up to the sorting algorithm
    return g.xp.asarray(np.concatenate([np.sort(np.asarray(z)[bins == k]) for k in range(3)]))


@entry()
def galaxy_shear(g, r):
    e = 0.3 * r.uniform(-1, 1, size=6) + 0.3j * r.uniform(-1, 1, size=6)
    lon, lat = _points(g, r)
    m = [g(0.05 * mapof(r)) for _ in range(3)]
    return glass.galaxy_shear(lon, lat, g(e), *m, reduced_shear=bool(r.integers(2)))


@entry()
def gaussian_phz(g, r):
    z = g(r.uniform(0.2, 1.5, size=6))
    s = pick(r, 0.05, g(r.uniform(0.02, 0.2, size=6)), g(r.uniform(0.02, 0.2, size=(2, 1))))
    return glass.gaussian_phz(z, s, **pick(r, {}, {"lower": 0.1}, {"lower": g(np.full(6, 0.05)), "upper": 2.0}), rng=g.rng)


# ---------------------------------------------------------------- observations

GROUP = "observations"


@entry()
def gaussian_nz(g, r):
    m = pick(r, 0.8, g(r.uniform(0.3, 1, size=2)))
    return glass.gaussian_nz(g(grid(r, 7)), m, 0.2, norm=pick(r, None, 2.5))


@entry()
def smail_nz(g, r):
    m = pick(r, 0.8, g(r.uniform(0.3, 1, size=2)))
    return glass.smail_nz(g(grid(r, 7, 0.05, 2)), m, pick(r, 2.0, g(r.uniform(1, 2, size=(3, 1)))), 1.5, norm=pick(r, None, 2.5))


@entry()
def fixed_zbins(g, r):
    return glass.fixed_zbins(0.2, 1.7, **pick(r, {"nbins": 4}, {"dz": 0.31}), xp=g.xp)


@entry()
def equal_dens_zbins(g, r):
    return glass.equal_dens_zbins(g(grid(r, 9)), g(r.uniform(0.1, 1, size=9)), 3)


@entry()
def tomo_nz_gausserr(g, r):
    return glass.tomo_nz_gausserr(g(grid(r, 9)), g(r.uniform(0.1, 1, size=9)), 0.05, g.items([(0.2, 0.6), (0.6, 1.4)]))


@entry(rtol=1e-7, atol=1e-9)
def vmap_galactic_ecliptic(g, r):
    return glass.vmap_galactic_ecliptic(4, (0.3, 1.2), (0.4, 1.0), xp=g.xp)


# ---------------------------------------------------------------- shapes

GROUP = "shapes"


@entry(rtol=1e-7)
def triaxial_axis_ratio(g, r):
    return glass.triaxial_axis_ratio(g(r.uniform(0.2, 0.9, size=5)), g(r.uniform(0.2, 0.9, size=5)), rng=g.rng)


@entry(rtol=1e-6)
def ellipticity_ryden04(g, r):
    if r.integers(2):
        return glass.ellipticity_ryden04(-1.8, 0.6, 0.25, 0.1, size=6, rng=g.rng, xp=g.xp)
    return glass.ellipticity_ryden04(g(r.uniform(-2, -1, size=6)), g(r.uniform(0.2, 0.6, size=6)), 0.25, 0.1, rng=g.rng)


@entry()
def ellipticity_gaussian(g, r):
    if r.integers(2):
        return glass.ellipticity_gaussian(6, 0.3, rng=g.rng, xp=g.xp)
    return glass.ellipticity_gaussian(g(np.array([2, 3])), g(r.uniform(0.1, 0.3, size=2)), rng=g.rng)


@entry()
def ellipticity_intnorm(g, r):
    if r.integers(2):
        return glass.ellipticity_intnorm(6, 0.3, rng=g.rng, xp=g.xp)
    return glass.ellipticity_intnorm(g(np.array([2, 3])), g(r.uniform(0.1, 0.3, size=2)), rng=g.rng)


@entry()
def resample_shapes(g, r):
    e = 0.3 * r.uniform(-1, 1, size=6) + 0.3j * r.uniform(-1, 1, size=6)
    e *= 0.3 / np.sqrt(np.mean(np.abs(e) ** 2))
    return glass.resample_shapes(g(e), **pick(r, {"varg": 0.01}, {"vargamma": 0.01}), rng=g.rng)
