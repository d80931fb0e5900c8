"""C44: results scale with their arguments; no size is special by itself."""

import warnings

import numpy as np
from hypothesis import strategies as st

import glass
import glass.algorithm
import glass.arraytools
import glass.fields
import glass.grf
import glass.harmonics
import glass.healpix
import glass.rng
from vf import hpdata
from vf.be import A, N, XPS, check_ns, rnd, seeds
from vf.core import sub
from vf.cosmo import Cosmo
from vf.rec import Scripted

TABLE = {}


class V:
    """A value in a product of powers of units."""

    def __init__(self, value, **units):
        self.value, self.units = value, units

    def scaled(self, k):
        return np.ldexp(self.value, power(self.units, k)) if not np.iscomplexobj(self.value) else np.asarray(self.value) * 2.0 ** power(self.units, k)


def power(units, k):
    return sum(n * k[u] for u, n in units.items())


class Zero(Scripted):
    """Records the rates; there are no counts."""

    def counts(self, lam):
        return np.zeros(np.shape(lam), dtype=int)

    def rates(self):
        return [x[1] for x in self.log if x[0] == "poisson"]


def relation(libs="np np strict", rtol=1e-12, most=250, least=None, jointly=False):
    """The function makes arguments with units; their function gives results, of units returned third.

    Results are compared number by number, or relative to the largest number of each result (jointly).
    """

    def deco(fn):
        TABLE[fn.__name__] = (fn, libs.split(), rtol, (-most if least is None else least, most), jointly)
        return fn

    return deco


def nodes(r, n, first=None, scale=1.0):
    z = np.cumsum(r.uniform(0.1, 0.5, size=n)) * scale
    if first is not None:
        z += first - z[0]
    return z


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i, -1, -1)]


def covariance(r, n, nl):
    m = r.normal(size=(nl, n, n))
    return (m @ m.transpose(0, 2, 1) / n + 0.1 * np.eye(n)) / (1.0 + np.arange(nl))[:, None, None]


def of_fields(c, n, **more):
    """Spectra of fields which have a unit each."""
    return [V(c[:, i, j], **{f"f{i}": 1, f"f{j}": 1} if i != j else {f"f{i}": 2}, **more) for i, j in pairs(n)]


# Every function returns the arguments, a function of the library and the arguments, and the units of its results.


@relation()
def discretise(r):
    n = int(r.integers(1, 4))
    c = r.normal(size=(6, n, n))
    return of_fields(c, n), lambda xp, *c: glass.discretized_cls(list(c), lmax=4, nside=2), [v.units for v in of_fields(c, n)]


@relation("np strict jax")
def lookup(r):
    n = int(r.integers(1, 4))
    c = r.normal(size=(6, n, n))
    ps = [(i, j) for i in range(n) for j in range(n)]
    return of_fields(c, n), lambda xp, *c: [glass.getcl(list(c), i, j, lmax=9) for i, j in ps], [V(0, **{f"f{i}": 1, f"f{j}": 1} if i != j else {f"f{i}": 2}).units for i, j in ps]


@relation()
def cov_from_spectra(r):
    n = int(r.integers(1, 4))
    c = r.normal(size=(6, n, n))
    return [V(x.value, s=1) for x in of_fields(c, n)], lambda xp, *c: [glass.cov_from_spectra(list(c))], [{"s": 1}]


@relation()
def effective_cls(r):
    n = int(r.integers(1, 4))
    c = r.normal(size=(6, n, n))
    # weights of the inverse unit, and of a unit of their own
    w = [V(r.normal(size=(1, 2)), **{f"f{i}": -1}, t=1) for i in range(n)]
    v = [V(r.normal(size=(1, 3)), **{f"f{i}": -1}, u=1) for i in range(n)]
    return [*w, *v, *of_fields(c, n)], lambda xp, *a: [glass.effective_cls(list(a[2 * n :]), xp.concat(a[:n])), glass.effective_cls(list(a[2 * n :]), xp.concat(a[:n]), xp.concat(a[n : 2 * n]))], [{"t": 2}, {"t": 1, "u": 1}]


@relation("np np strict jax", rtol=1e-9, jointly=True)
def iternorm(r):
    n, k = int(r.integers(1, 5)), int(r.integers(1, 4))
    c = covariance(r, n, 3)
    if k < n - 1:
        # positive definite without the others
        c *= np.where(np.eye(n) == 1, 1.0, 0.05)
    # one unit for all, as the entries of a row are in an array
    rows = [V(c[:, i, i - min(i, k) : i + 1][:, ::-1], s=2) for i in range(n)]
    return rows, lambda xp, *rows: list(glass.iternorm(iter(rows))), [{"s": 1}] * n


@relation("np np strict", rtol=1e-9, jointly=True)
def maps(r):
    n, seed = int(r.integers(1, 4)), int(r.integers(1 << 30))
    c = covariance(r, n, 5)
    corr = [None, 0, 1][int(r.integers(3))]
    if corr is not None:
        c *= np.where(np.eye(n) == 1, 1.0, 0.05)
    return of_fields(c, n), lambda xp, *c: list(glass.generate([glass.grf.Normal()] * n, list(c), 2, ncorr=corr, rng=np.random.default_rng(seed))), [{f"f{i}": 1} for i in range(n)]


@relation("np np strict", most=300)
def shifted_maps(r):
    n, seed = int(r.integers(1, 4)), int(r.integers(1 << 30))
    c = 0.05 * covariance(r, n, 5)
    a = float(r.uniform(0.2, 1))
    kinds = [glass.grf.Lognormal if r.integers(2) else lambda s: glass.grf.SquaredNormal(a, s) for _ in range(n)]
    shift = [V(float(r.uniform(0.3, 3)), **{f"f{i}": 1}) for i in range(n)]
    return shift, lambda xp, *s: list(glass.generate([k(float(x)) for k, x in zip(kinds, s)], [A(xp, c[:, i, j]) for i, j in pairs(n)], 2, rng=np.random.default_rng(seed))), [{f"f{i}": 1} for i in range(n)]


@relation("np", rtol=1e-8, jointly=True)
def gaussian_spectra(r):
    n = int(r.integers(1, 4))
    c = 0.02 * covariance(r, n, int(r.integers(1, 9)))
    shift = [V(float(r.uniform(0.3, 3)), **{f"f{i}": 1}) for i in range(n)]
    f = [glass.compute_gaussian_spectra, glass.solve_gaussian_spectra][int(r.integers(2))]
    return [*shift, *of_fields(c, n)], lambda xp, *a: f([glass.grf.Lognormal(float(s)) for s in a[:n]], list(a[n:])), [{}] * (n * (n + 1) // 2)


@relation("np np strict", rtol=1e-8, jointly=True)
def solution(r):
    c = 0.02 * covariance(r, 1, int(r.integers(1, 9)))[:, 0, 0]
    a, b = (V(float(r.uniform(0.3, 3)), f0=1), V(float(r.uniform(0.3, 3)), f1=1))
    pad = int(r.integers(0, 20))
    if r.integers(2):
        return [a, b, V(c, f0=1, f1=1)], lambda xp, a, b, c: glass.grf.solve(c, glass.grf.Lognormal(float(a)), glass.grf.Lognormal(float(b)), pad=pad), [{}, {"f0": 1, "f1": 1}, {}]
    return [a, V(c, f0=1, s=1)], lambda xp, a, c: glass.grf.solve(c, glass.grf.Lognormal(float(a)), glass.grf.Normal(), pad=pad), [{"s": 1}, {"f0": 1, "s": 1}, {}]


@relation("np np strict jax")
def correlations(r):
    g = glass.grf
    x = r.uniform(-0.1, 0.9, size=4) * 10.0 ** -r.integers(0, 12, size=4)
    a, b = V(float(r.uniform(0.3, 3)), f0=1), V(float(r.uniform(0.3, 3)), f1=1)
    y = V(a.value * b.value * x, f0=1, f1=1)
    q, p = float(r.uniform(0.2, 1)), float(r.uniform(0.2, 1))
    two = {"f0": 1, "f1": 1}
    kind = int(r.integers(4))
    if kind == 0:
        return [V(x), y, a, b], lambda xp, x, y, a, b: [f(g.Lognormal(float(a)), g.Lognormal(float(b)), v) for f, v in ((g.corr, x), (g.dcorr, x), (g.icorr, y))], [two, two, {}]
    if kind == 1:
        return [V(x), y, a, b], lambda xp, x, y, a, b: [f(g.SquaredNormal(q, float(a)), g.SquaredNormal(p, float(b)), v) for f, v in ((g.corr, x), (g.dcorr, x), (g.icorr, y))], [two, two, {}]
    if kind == 2:
        pair = (lambda s: (g.Normal(), g.Lognormal(s))) if r.integers(2) else (lambda s: (g.Lognormal(s), g.Normal()))
        return [V(x, u=1), V(x, f0=1, u=1), a], lambda xp, x, y, a: [f(*pair(float(a)), v) for f, v in ((g.corr, x), (g.dcorr, x), (g.icorr, y))], [{"f0": 1, "u": 1}, {"f0": 1}, {"u": 1}]
    return [V(x, u=1)], lambda xp, x: [f(g.Normal(), g.Normal(), x) for f in (g.corr, g.icorr)], [{"u": 1}, {"u": 1}]


@relation("np np strict", rtol=1e-9, jointly=True)
def clipped(r):
    n = int(r.integers(1, 5))
    m = r.normal(size=(3, n, n))
    return [V(m + m.transpose(0, 2, 1), s=1)], lambda xp, c: [glass.algorithm.cov_clip(c)], [{"s": 1}]


@relation("np np strict", rtol=1e-7, jointly=True)
def nearest(r):
    n = int(r.integers(1, 4))
    m = r.normal(size=(2, n, n))
    c = m + m.transpose(0, 2, 1) + 2 * np.eye(n)
    i = np.arange(n)
    c[:, i, i] = np.abs(c[:, i, i]) + 0.1
    return [V(c, s=1)], lambda xp, c: [glass.algorithm.cov_nearest(c, niter=500)], [{"s": 1}]


@relation("np np strict", rtol=1e-7, jointly=True)
def regularised(r):
    n = int(r.integers(1, 4))
    c = r.normal(size=(2, n, n))
    i = np.arange(n)
    c[:, i, i] = np.abs(c[:, i, i]) + 0.1
    method = ["nearest", "clip"][int(r.integers(2))]
    kw = {"niter": 500} if method == "nearest" else {}
    # every field has a unit of its own for the correlation matrix, but not for eigenvalues
    a = of_fields(c, n) if method == "nearest" else [V(x.value, s=1) for x in of_fields(c, n)]
    return a, lambda xp, *c: glass.fields.regularized_spectra(list(c), method=method, **kw), [x.units for x in a]


@relation("np np strict")
def definite(r):
    n = int(r.integers(1, 4))
    c = covariance(r, n, 3) - (0.5 * np.eye(n) if r.integers(2) else 0)
    return [V(x.value, s=1) for x in of_fields(c, n)], lambda xp, *c: [xp.asarray(float(bool(glass.check_posdef_spectra(list(c)))))], [{}]


@relation("np np strict jax", rtol=1e-8, jointly=True)
def nnls(r):
    n = int(r.integers(1, 5))
    a, b = r.normal(size=(n + int(r.integers(0, 4)), n)), None
    b = r.normal(size=a.shape[0])
    return [V(a, s=1), V(b, t=1)], lambda xp, a, b: [glass.algorithm.nnls(a, b)], [{"s": -1, "t": 1}]


# --- redshifts: z is the unit of redshift


def decades(r, size):
    """Positive numbers of one order of magnitude or many."""
    return r.uniform(0.1, 1, size=size) * 10.0 ** -(float(r.choice([0, 0, 3, 15])) * r.random(size))


def window(r, k=6):
    w = decades(r, k)
    w[[0, -1]] *= r.random(2) < 0.5
    return [V(nodes(r, k, 0.1), z=1), V(w, t=1)]


def some_windows(r, n=3):
    """Overlapping windows of different units."""
    out = []
    for i in range(n):
        out += [V(nodes(r, 5, 0.1 + 0.4 * i), z=1), V(decades(r, 5), **{f"t{i}": 1})]
    return out


def ws(a, zeff=None):
    return [glass.RadialWindow(a[i], a[i + 1], float("nan") if zeff is None else zeff[i // 2]) for i in range(0, len(a), 2)]


@relation("np np np strict jax")
def windows(r):
    kind = ["tophat", "linear", "cubic"][int(r.integers(3))]
    z = nodes(r, int(r.integers(3, 6)), 0.0)
    dz = float(r.uniform(0.02, 0.3))
    f = getattr(glass, f"{kind}_windows")

    def call(xp, z, dz, c, z0):
        out = []
        for w in f(z, float(dz), lambda x: c / (1 + x / z0)):
            out += [w.za, w.wa, xp.asarray(float(w.zeff))]
        return out

    n = z.size - (1 if kind == "tophat" else 2)
    return [V(z, z=1), V(dz, z=1), V(float(r.uniform(0.1, 3)), s=1), V(float(r.uniform(0.1, 3)), z=1)], call, [{"z": 1}, {"s": 1}, {"z": 1}] * n


@relation("np np np strict jax")
def mean_redshift(r):
    return window(r), lambda xp, z, w: [xp.asarray(float(glass.RadialWindow(z, w).zeff))], [{"z": 1}]


@relation("np np np strict jax")
def restrict(r):
    return [V(nodes(r, 8, 0.0), z=1), V(r.normal(size=(2, 8)), s=1), *window(r)], lambda xp, z, f, za, wa: glass.restrict(z, f, glass.RadialWindow(za, wa)), [{"z": 1}, {"s": 1, "t": 1}]


@relation("np np np strict", rtol=1e-7, jointly=True)
def partition(r):
    method = ["nnls", "lstsq"][int(r.integers(2))]
    return [V(nodes(r, 12, 0.0), z=1), V(r.uniform(0, 1, size=(2, 12)), s=1), *some_windows(r)], lambda xp, z, f, *a: [glass.partition(z, f, ws(a), method=method)], [{"s": 1, "z": 1}]


@relation("np np np strict jax")
def partition_restrict(r):
    return [V(nodes(r, 12, 0.0), z=1), V(decades(r, (2, 12)), s=1), *window(r)], lambda xp, z, f, *a: [glass.partition(z, f, ws(a), method="restrict")], [{"s": 1, "z": 1, "t": 1}]


@relation("np np np strict jax")
def combine(r):
    return [V(r.uniform(0, 3, size=7), z=1), V(r.uniform(0, 1, size=(3, 2)), s=1), *some_windows(r)], lambda xp, z, w, *a: [glass.combine(z, w, ws(a))], [{"s": 1, "z": -1}]


@relation("np np np strict")
def distribute(r):
    seed = int(r.integers(1 << 30))
    w = some_windows(r)
    # their relative weight counts, thus they have one unit
    w = [v if i % 2 == 0 else V(v.value, s=1) for i, v in enumerate(w)]
    return [V(r.uniform(0, 3, size=50), z=1), *w], lambda xp, z, *a: [glass.distribute(z, ws(a), rng=np.random.default_rng(seed))], [{}]


@relation("np strict jax")
def grid(r):
    a, b = float(r.choice([0.0, 0.3])), float(r.uniform(0.5, 3))
    n = int(r.integers(1, 30))
    return [V(a, z=1), V(b, z=1), V((b - a) / (n + 0.5), z=1)], lambda xp, a, b, d: [glass.redshift_grid(float(a), float(b), num=n, xp=xp), glass.redshift_grid(float(a), float(b), dz=float(d), xp=xp)], [{"z": 1}] * 2


@relation("np strict")
def distances(r):
    dh, n = float(r.uniform(0.1, 5)), int(r.integers(1, 20))
    p, curv, om, b = float(r.choice([1.0, 1.5])), float(r.uniform(-0.1, 0.1)), float(r.uniform(0.1, 1)), float(r.uniform(0.5, 3))
    rho, z = float(r.uniform(1, 9)), r.uniform(0, 3, size=4)

    def call(xp, dh, dx, rho):
        c = Cosmo(p=p, curv=curv, om=om, dh=float(dh), xp=xp)
        c.critical_density0 = float(rho)
        z_ = A(xp, z)
        return [glass.distance_grid(c, 0.0, b, num=n), glass.distance_grid(c, 0.0, b, dx=float(dx)), glass.DistanceWeight(c)(z_), glass.VolumeWeight(c)(z_), glass.DensityWeight(c)(z_)]

    return [V(dh, d=1), V(dh * 0.01 * float(r.uniform(1, 20)), d=1), V(rho, s=1)], call, [{}, {}, {}, {}, {"s": 1}]


@relation("np np strict")
def planes(r):
    p, curv, om = float(r.choice([1.0, 1.5])), float(r.uniform(-0.1, 0.1)), float(r.uniform(0.1, 1))
    z = nodes(r, 4)
    dh = V(float(r.uniform(0.1, 5)), d=1)
    lens = [V(float(x), t=1) for x in r.uniform(0.1, 0.5, size=4)]

    def call(xp, dh, *a):
        m = glass.MultiPlaneConvergence(Cosmo(p=p, curv=curv, om=om, dh=float(dh), xp=xp))
        out = []
        for i in range(4):
            m.add_plane(a[i], float(z[i]), float(a[4 + i]))
            out.append(xp.asarray(m.kappa, copy=True))
        return out

    return [dh, *[V(r.normal(size=12), s=1) for _ in range(4)], *lens], call, [{"s": 1, "t": 1}] * 4


@relation("np np strict")
def lenses(r):
    p, curv, om = float(r.choice([1.0, 1.5])), float(r.uniform(-0.1, 0.1)), float(r.uniform(0.1, 1))
    w = [V(v.value) if i % 2 == 0 else V(v.value, **{f"t{i}": 1}) for i, v in enumerate(some_windows(r))]
    zeff = [0.9, 1.2, 1.6]

    def call(xp, dh, s, *a):
        c = Cosmo(p=p, curv=curv, om=om, dh=float(dh), xp=xp)
        return [glass.multi_plane_matrix(ws(a, zeff), c), glass.multi_plane_weights(s, ws(a, zeff), c)]

    return [V(float(r.uniform(0.1, 5)), d=1), V(r.uniform(0, 1, size=(3, 2)), s=1), *w], call, [{}, {}]


@relation("np np strict", jointly=True, rtol=1e-9)
def lensing(r):
    nside = int(2 ** r.integers(0, 3))
    lmax = [None, 3 * nside - 1, 2 * nside][int(r.integers(3))]
    flag = bool(r.integers(2))
    return [V(r.normal(size=12 * nside**2), s=1)], lambda xp, k: list(glass.from_convergence(k, lmax, potential=True, deflection=True, shear=True, discretized=flag)), [{"s": 1}] * 3


@relation("np np np strict")
def effective_bias(r):
    return [V(nodes(r, 9, 0.0), z=1), V(r.uniform(0.5, 3, size=9), s=1), *window(r)], lambda xp, z, b, za, wa: [xp.asarray(glass.effective_bias(z, b, glass.RadialWindow(za, wa)))], [{"s": 1}]


@relation("np np np strict jax")
def linear_bias(r):
    return [V(r.normal(size=7), s=1), V(float(r.uniform(0.5, 3)), t=1)], lambda xp, d, b: [glass.linear_bias(d, float(b)), glass.linear_bias(d, A(xp, b))], [{"s": 1, "t": 1}] * 2


@relation("np np np strict jax")
def position_weights(r):
    return [V(decades(r, (3, 2)), s=1), V(decades(r, 3), t=1)], lambda xp, n, b: [glass.position_weights(n), glass.position_weights(n, b)], [{}, {"t": 1}]


@relation("np np np strict")
def galaxy_rates(r):
    flag = bool(r.integers(2))

    def call(xp, n, d, b, v):
        g = Zero()
        for _ in glass.positions_from_delta(n, d, b, v, remove_monopole=flag, rng=g):
            pass
        return [A(xp, x) for x in g.rates()]

    return [V(decades(r, 2), s=1), V(r.normal(size=(2, 12)), t=-1), V(r.uniform(0.5, 3, size=2), t=1), V(r.uniform(0, 1, size=12), u=1)], call, [{"s": 1, "u": 1}] * 2


@relation("np np np strict")
def uniform_rates(r):
    def call(xp, n):
        g = Zero()
        for _ in glass.uniform_positions(n, rng=g):
            pass
        return [A(xp, x) for x in g.rates()]

    return [V(decades(r, 2), s=1)], call, [{"s": 1}]


@relation("np np np strict")
def redshifts(r):
    seed = int(r.integers(1 << 30))
    return window(r), lambda xp, z, w: [glass.redshifts(20, glass.RadialWindow(z, w), rng=np.random.default_rng(seed)), glass.redshifts_from_nz(20, z, w, warn=False, rng=np.random.default_rng(seed))], [{"z": 1}] * 2


@relation("np np np strict")
def redshift_populations(r):
    seed = int(r.integers(1 << 30))
    # each distribution has its own unit
    n = [V(decades(r, (1, 6)), **{f"t{i}": 1}) for i in range(2)]
    return [V(nodes(r, 6), z=1), *n], lambda xp, z, *n: [glass.redshifts_from_nz(A(xp, [5, 9]), z, xp.concat(n), warn=False, rng=np.random.default_rng(seed))], [{"z": 1}]


@relation("np np np strict", most=0, least=-60)
def small_shapes(r):
    """Shapes of which none needs to be drawn again, and the noise variance of the shear itself."""
    seed = int(r.integers(1 << 30))
    e = r.uniform(0.1, 0.6, size=20) * np.exp(2j * np.pi * r.random(20))
    v = float(np.mean(np.abs(e) ** 2) * r.uniform(0, 1))

    def call(xp, e, v, s):
        return [
            glass.resample_shapes(e, rng=np.random.default_rng(seed)),
            glass.resample_shapes(e, vargamma=float(v), rng=np.random.default_rng(seed)),
            glass.ellipticity_gaussian(20, float(s), rng=np.random.default_rng(seed), xp=xp),
        ]

    return [V(e, s=1), V(v, s=2), V(float(r.uniform(0.01, 0.1)), s=1)], call, [{"s": 1}] * 3


@relation("np np np strict jax", rtol=1e-10)
def gaussian_nz(r):
    z, m, s = V(np.linspace(0, 3, 21), z=1), V(r.uniform(0.5, 2, size=2), z=1), V(r.uniform(0.2, 1, size=2), z=1)
    return [z, m, s, V(float(r.uniform(0.1, 9)), s=1)], lambda xp, z, m, s, n: [glass.gaussian_nz(z, m, s), glass.gaussian_nz(z, m, s, norm=float(n))], [{"z": -1}, {"s": 1, "z": -1}]


@relation("np np np strict jax", rtol=1e-9, most=40)
def smail_nz(r):
    z, m = V(np.linspace(0, 3, 21), z=1), V(r.uniform(0.5, 2, size=2), z=1)
    a, b = r.uniform(1, 3, size=2), r.uniform(1, 3, size=2)
    return [z, m, V(float(r.uniform(0.1, 9)), s=1)], lambda xp, z, m, n: [glass.smail_nz(z, m, A(xp, a), A(xp, b)), glass.smail_nz(z, m, A(xp, a), A(xp, b), norm=float(n))], [{"z": -1}, {"s": 1, "z": -1}]


@relation("np strict jax")
def bins(r):
    a, b, n = float(r.choice([0.0, 0.3])), float(r.uniform(0.5, 3)), int(r.integers(1, 9))
    return [V(a, z=1), V(b, z=1), V((b - a) / n, z=1)], lambda xp, a, b, d: [A(xp, np.array([(float(x), float(y)) for x, y in f])) for f in (glass.fixed_zbins(float(a), float(b), nbins=n, xp=xp), glass.fixed_zbins(float(a), float(b), dz=float(d), xp=xp))], [{"z": 1}] * 2


@relation("np np np strict jax")
def equal_bins(r):
    n = int(r.integers(1, 9))
    return [V(nodes(r, 9, 0.0), z=1), V(decades(r, 9), s=1)], lambda xp, z, f: [A(xp, np.array([(float(x), float(y)) for x, y in glass.equal_dens_zbins(z, f, n)]))], [{"z": 1}]


@relation("np np np strict")
def tomography(r):
    b = [(0.0, 0.3), (0.3, 1.0), (1.0, 2.0)]
    return [V(decades(r, 9), s=1)], lambda xp, n: [glass.tomo_nz_gausserr(A(xp, np.linspace(0, 2, 9)), n, 0.05, b)], [{"s": 1}]


@relation("np np strict", rtol=1e-9, jointly=True)
def transforms(r):
    nside, lmax = 2, int(r.integers(1, 6))
    k = (lmax + 1) * (lmax + 2) // 2
    alm, blm = (r.normal(size=k) + 1j * r.normal(size=k) for _ in range(2))
    h = glass.healpix
    return [V(r.normal(size=48), s=1), V(alm, t=1), V(blm, t=1), V(r.normal(size=lmax + 1), u=1)], lambda xp, m, a, b, f: [h.map2alm(m, lmax=lmax), h.alm2map(a, nside, lmax=lmax), *h.alm2map_spin([a, b], nside, 1, lmax), h.almxfl(a, f), glass.harmonics.multalm(a, f)], [{"s": 1}, {"t": 1}, {"t": 1}, {"t": 1}, {"t": 1, "u": 1}, {"t": 1, "u": 1}]


@relation("np np strict jax", rtol=1e-9, jointly=True)
def integrals(r):
    t = glass.arraytools
    x, y = V(nodes(r, 7), z=1), V(r.normal(size=(2, 7)), s=1)
    q = V(r.uniform(0, 3, size=4), z=1)
    return [x, y, q, V(nodes(r, 5), z=1), V(r.normal(size=5), t=1)], lambda xp, x, y, q, x2, y2: [t.cumulative_trapezoid(y, x), t.ndinterp(q, x, y), t.ndinterp(q, x, y, left=0.0, right=0.0), xp.asarray(t.trapezoid_product((x, y[0, :]), (x2, y2)))], [{"s": 1, "z": 1}, {"s": 1}, {"s": 1}, {"s": 1, "t": 1, "z": 1}]


@relation("np np strict jax", jointly=True)
def variates(r):
    seed = int(r.integers(1 << 30))

    def call(xp, m, s):
        def g():
            return glass.rng.Generator(rng=glass.rng.default_rng(xp=xp, seed=seed), xp=xp)

        return [g().normal(m, s), g().uniform(m, m + s, size=(4,)), g().normal(float(m[0]), float(s[0]), size=(5,))]

    return [V(r.normal(size=4), s=1), V(r.uniform(0.1, 3, size=4), s=1)], call, [{"s": 1}] * 3


# ---------------------------------------------------------------- the check


@st.composite
def cases(draw):
    # drawn from the seed, since Hypothesis prefers some of the functions by far
    seed = draw(seeds)
    r = rnd(seed ^ 0x5EED)
    name = sorted(TABLE)[int(r.integers(len(TABLE)))]
    _, libs, _, (lo, hi), _ = TABLE[name]
    lib = libs[int(r.integers(len(libs)))]
    if r.integers(2):
        lo, hi = max(lo, -80), min(hi, 80)
    if lib == "jax":
        lo, hi, seed = max(lo, -40), min(hi, 40), seed % 4
    return {"function": name, "lib": lib, "powers": [int(k) for k in r.integers(lo, hi + 1, size=6)], "together": bool(r.integers(2)), "seed": seed}


@sub("C44", strategy=cases, rule="at least one unit changes by more than a factor of a thousand", quick=900, thorough=25_000, shards=4)
def units(case):
    """Results in other units, by powers of two, are the results in these units."""
    fn, _, rtol, _, jointly = TABLE[case["function"]]
    xp = XPS[case["lib"]]
    args, f, want = fn(rnd(case["seed"]))
    names = sorted({u for a in args for u in a.units})
    # all units change, or only one
    one = case["seed"] % max(len(names), 1)
    k = {u: case["powers"][i % 6] if case["together"] or i == one else 0 for i, u in enumerate(names)}
    # fields of units that are 10^30 apart are enough
    if sum(u.startswith("f") for u in names) > 1:
        k = {u: v // 2 for u, v in k.items()}

    def call(k):
        given = []
        for a in args:
            v = a.scaled(k)
            given.append(A(xp, v) if np.ndim(a.value) else float(v))
        with np.errstate(all="ignore"), warnings.catch_warnings(), hpdata.datapath():
            warnings.simplefilter("ignore")
            out = list(f(xp, *given))
        for o in out:
            if np.ndim(o):
                check_ns(o, xp)
        return [N(o) for o in out]

    a, b = call(k), call(dict.fromkeys(names, 0))
    assert len(a) == len(b) == len(want), f"{case['function']}: {len(a)}, {len(b)} results, {len(want)} units"
    for i, (x, y, u) in enumerate(zip(a, b, want)):
        assert x.shape == y.shape and x.dtype == y.dtype, f"{case['function']}: result {i} has shape {x.shape} and type {x.dtype} in other units, {y.shape} and {y.dtype} in these"
        y = y * 2.0 ** power(u, k)
        big = np.max(np.abs(y), initial=0.0) if jointly else np.abs(y)
        bad = ~(np.abs(x - y) <= rtol * big)
        if np.any(bad):
            at = tuple(int(v[0]) for v in np.nonzero(np.atleast_1d(bad)))
            raise AssertionError(f"{case['function']}: result {i} at {at} is {np.atleast_1d(x)[at]!r} where units are changed by powers {k} of two, expected {np.atleast_1d(y)[at]!r}")
    return any(abs(v) > 10 for v in k.values())
