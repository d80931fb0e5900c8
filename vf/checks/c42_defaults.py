"""C42: arguments mean the same by place and by name, and one left out has its documented value."""

import math
import warnings

import numpy as np
from hypothesis import strategies as st

import glass
import glass.algorithm
import glass.arraytools
import glass.grf
import glass.harmonics
import glass.healpix as hp
import glass.jax
import glass.rng
from glass._array_api_utils import xp_additions as uxpx
from vf import api, hpdata
from vf.be import XPS, evenly, rnd, seeds
from vf.core import sub
from vf.cosmo import Cosmo
from vf.rec import Scripted

EPS = float(np.finfo(float).eps)
TABLE = {}


def entry(libs="np np np strict strict jax"):
    def deco(fn):
        TABLE[fn.__name__] = (fn, libs.split())
        return fn

    return deco


class Call:
    """One call: arguments in order, optional ones in order, optional ones by name only, other ones by name only."""

    def __init__(self, fn, pos, opt=(), only=(), more=None, post=lambda x: x):
        self.fn, self.pos, self.opt, self.only, self.more, self.post = fn, list(pos), list(opt), list(only), dict(more or {}), post

    @property
    def omittable(self):
        return [k for k, _ in self.opt + self.only]

    def run(self, places, omitted):
        """The first ``places`` arguments by place, the other ones by name, without the omitted ones."""
        args, kw = [], dict(self.more)
        for i, (k, v) in enumerate(self.pos + self.opt):
            if k in omitted:
                places = 0
            elif i < places:
                args.append(v)
            else:
                kw[k] = v
        kw.update((k, v) for k, v in self.only if k not in omitted)
        return self.post(self.fn(*args, **kw))


def many(r, lo=1, hi=5):
    return int(r.integers(lo, hi))


def heard(fn):
    """The result and the warnings given."""

    def call(*args, **kw):
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            x = fn(*args, **kw)
        return [x, sorted({str(w.message) for w in seen if w.category is UserWarning})]

    return call


# ---------------------------------------------------------------- fields


@entry()
def cls2cov(g, r):
    return Call(glass.cls2cov, [("cls", api.spectra(g, r, 3, 4)), ("nl", 4), ("nf", 3), ("nc", many(r, 0, 3))], post=lambda it: [g.xp.asarray(np.array(np.asarray(c), copy=True)) for c in it])


@entry()
def iternorm(g, r):
    m = r.normal(size=(3, 3))
    c = m @ m.T + np.eye(3)
    return Call(glass.iternorm, [("cov", g.items([g(c[i, i::-1]) for i in range(3)]))], post=list)


@entry()
def discretized_cls(g, r):
    n, nl = 3, many(r, 3, 8)
    nside = [("nside", None)]
    return Call(glass.discretized_cls, [("cls", api.spectra(g, r, n, nl))], only=[("lmax", nl - 1), ("ncorr", n - 1), *nside])


@entry("np np jax")
def compute_gaussian_spectra(g, r):
    t = g.items([glass.grf.Normal(), glass.grf.Lognormal(float(r.uniform(0.5, 2)))])
    return Call(api.pick(r, glass.compute_gaussian_spectra, glass.solve_gaussian_spectra), [("fields", t), ("spectra", api.spectra(g, r, 2, 5))])


@entry()
def lognormal_gls(g, r):
    return Call(glass.lognormal_gls, [("cls", api.spectra(g, r, 2, 5))], [("shift", 1.0)])


@entry()
def generate(g, r):
    n = many(r, 1, 4)
    # every field has another transformation, and fields depend on all those before
    t = g.items([api.pick(r, glass.grf.Normal(), glass.grf.Lognormal(float(r.uniform(0.5, 2)))) for _ in range(n)])
    return Call(glass.generate, [("fields", t), ("gls", api.spectra(g, r, n, 4, 0.7)), ("nside", 2)], only=[("ncorr", n - 1)], more={"rng": g.rng}, post=list)


@entry()
def generate_gaussian(g, r):
    n = many(r, 1, 4)
    return Call(glass.generate_gaussian, [("gls", api.spectra(g, r, n, 4, 0.7)), ("nside", 2)], only=[("ncorr", n - 1)], more={"rng": g.rng}, post=list)


@entry()
def generate_lognormal(g, r):
    n = many(r, 1, 4)
    return Call(glass.generate_lognormal, [("gls", api.spectra(g, r, n, 4, 0.7)), ("nside", 2)], [("shift", 1.0)], only=[("ncorr", n - 1)], more={"rng": g.rng}, post=list)


@entry()
def getcl(g, r):
    i, j = many(r, 0, 3), many(r, 0, 3)
    return Call(glass.getcl, [("cls", api.spectra(g, r, 3, 5)), ("i", i), ("j", j)], [("lmax", 4)])


@entry()
def enumerate_spectra(g, r):
    return Call(glass.enumerate_spectra, [("entries", api.spectra(g, r, 3, 3))], post=lambda it: [list(x) for x in it])


@entry()
def spectra_indices(g, r):
    return Call(glass.spectra_indices, [("n", many(r, 1, 6))], more={"xp": g.xp})


@entry()
def effective_cls(g, r):
    nl = many(r, 2, 6)
    w = g(r.normal(size=(3, *api.pick(r, (), (2,), (3,)))))
    return Call(glass.effective_cls, [("cls", api.spectra(g, r, 3, nl)), ("weights1", w)], [("weights2", w)], [("lmax", nl - 1)])


@entry()
def effective_cls_two(g, r):
    nl = many(r, 2, 6)
    u, w = g(r.normal(size=(3, 2))), g(r.normal(size=(3, 3)))
    return Call(glass.effective_cls, [("cls", api.spectra(g, r, 3, nl)), ("weights1", u), ("weights2", w)], only=[("lmax", nl - 1)])


@entry()
def reordered_spectra(g, r):
    f = api.pick(r, glass.glass_to_healpix_spectra, glass.healpix_to_glass_spectra, glass.check_posdef_spectra)
    return Call(f, [("spectra", api.spectra(g, r, 3, 3))])


@entry()
def nfields_from_nspectra(g, r):
    n = many(r, 1, 9)
    return Call(glass.nfields_from_nspectra, [("nspectra", n * (n + 1) // 2)])


@entry()
def cov_from_spectra(g, r):
    nl = many(r, 2, 6)
    return Call(glass.cov_from_spectra, [("spectra", api.spectra(g, r, 3, nl))], only=[("lmax", nl - 1)])


@entry()
def regularized_spectra(g, r):
    nl = many(r, 2, 5)
    # not positive: the method makes a difference
    cls = api.spectra(g, r, 3, nl, corr=1.2, monopole=1.0)
    return Call(glass.regularized_spectra, [("spectra", cls)], only=[("lmax", nl - 1), ("method", "nearest")])


@entry()
def field_transformations(g, r):
    w = api.windows(g, r, 3)
    if r.integers(2):
        return Call(glass.gaussian_fields, [("shells", w)], post=lambda fs: [type(f).__name__ for f in fs])
    return Call(glass.lognormal_fields, [("shells", w)], [("shift", lambda z: 1.0)], post=lambda fs: [f.lamda for f in fs])


@entry("np np np strict strict")
def transformations(g, r):
    x, v = g(r.normal(size=4)), float(r.uniform(0.5, 2))
    if r.integers(2):
        return Call(glass.grf.Lognormal, [], [("lamda", 1.0)], post=lambda t: [t.lamda, t(x, v)])
    return Call(glass.grf.SquaredNormal, [("a", float(r.uniform(0.2, 0.9)))], [("lamda", 1.0)], post=lambda t: [t.a, t.lamda, t(x, v)])


@entry("np np jax")
def compute(g, r):
    t = api.pick(r, glass.grf.Lognormal(float(r.uniform(0.5, 2))), glass.grf.Normal())
    return Call(glass.grf.compute, [("cl", g(0.1 / (1.0 + np.arange(5)) ** 2)), ("t1", t)], [("t2", t)])


class Counting:
    """A lognormal transformation which counts the derivatives asked for: one in every iteration."""

    def __init__(self, lamda):
        self.inner, self.calls = glass.grf.Lognormal(lamda), 0

    def corr(self, other, x, /):
        return glass.grf.corr(self.inner, other.inner, x)

    def icorr(self, other, x, /):
        return glass.grf.icorr(self.inner, other.inner, x)

    def dcorr(self, other, x, /):
        self.calls += 1
        return glass.grf.dcorr(self.inner, other.inner, x)


@entry()
def solve(g, r):
    """The convergence criteria stop the iterations at different points."""
    nl = many(r, 4, 12)
    cl = float(r.uniform(0.2, 4)) / (1.0 + np.arange(nl)) ** float(r.uniform(1, 2))
    t = Counting(float(r.uniform(0.5, 2)))
    stop = [("cltol", 1e-5), ("gltol", 1e-5), ("maxiter", 20), ("pad", 0), ("monopole", None)]
    more = {} if r.integers(2) else {"initial": g(cl * float(r.uniform(0.05, 0.9)))}
    # one criterion alone decides
    off = api.pick(r, (), ("cltol",), ("cltol",), ("gltol",), ("cltol", "gltol"))
    more.update(dict.fromkeys(off, 0.0))
    return Call(glass.grf.solve, [("cl", g(cl)), ("t1", t)], [("t2", t)], [s for s in stop if s[0] not in off], more, post=lambda x: [*x, t.calls])


# ---------------------------------------------------------------- windows


@entry()
def weights(g, r):
    c = Cosmo(p=float(r.uniform(1.2, 2)), xp=g.xp)
    z = g(r.uniform(0, 2, size=4))
    return Call(api.pick(r, glass.DistanceWeight, glass.VolumeWeight, glass.DensityWeight), [("cosmo", c)], post=lambda w: w(z=z))


@entry()
def radial_window(g, r):
    z = api.grid(r, 5)
    return Call(glass.RadialWindow, [("za", g(z)), ("wa", g(r.uniform(0.1, 1, size=5)))], [("zeff", math.nan)])


def _windows(name, first):
    def fn(g, r):
        z = g(np.round(api.grid(r, many(r, 3, 6), api.pick(r, 0.0, 0.2), float(r.uniform(0.3, 1.2))), 3))
        return Call(getattr(glass, name), [(first, z)], [("dz", 1e-3), ("weight", lambda x: g.xp.ones_like(x))])

    fn.__name__ = name
    return fn


for _n, _a in (("tophat_windows", "zbins"), ("linear_windows", "zgrid"), ("cubic_windows", "zgrid")):
    entry()(_windows(_n, _a))


@entry()
def restrict(g, r):
    return Call(glass.restrict, [("z", g(api.grid(r, 6))), ("f", g(r.normal(size=6))), ("w", api.windows(g, r, 2)[0])])


@entry()
def partition(g, r):
    z = api.grid(r, 8, 0.1, 1.6)
    a = [("z", g(z)), ("fz", g(r.uniform(0.2, 1, size=8))), ("shells", api.windows(g, r, 3))]
    return Call(glass.partition, a, only=[("method", "nnls")])


@entry()
def partition_method(g, r):
    z = api.grid(r, 8, 0.1, 1.6)
    f = api.pick(r, glass.shells.partition_nnls, glass.shells.partition_lstsq)
    a = [("z", g(z)), ("fz", g(r.uniform(0.2, 1, size=8))), ("shells", api.windows(g, r, 3, "hat"))]
    return Call(f, a, only=[("sumtol", 0.01)])


@entry()
def combine(g, r):
    return Call(glass.combine, [("z", g(api.grid(r, 7))), ("weights", g(r.normal(size=3))), ("shells", api.windows(g, r, 3))])


@entry()
def redshift_grid(g, r):
    n = many(r, 2, 7)
    a = [("zmin", 0.1), ("zmax", 0.1 + 0.2 * n)]
    how = api.pick(r, {"num": n}, {"dz": 0.2 / 1.01})
    return Call(glass.redshift_grid, a, only=[("dz" if "num" in how else "num", None)], more={"xp": g.xp, **how})


@entry("np")
def distance_grid(g, r):
    how = api.pick(r, {"num": many(r, 2, 7)}, {"dx": float(r.uniform(100, 300))})
    a = [("cosmo", Cosmo(p=1.5)), ("zmin", 0.1), ("zmax", 1.3)]
    return Call(glass.distance_grid, a, only=[("dx" if "num" in how else "num", None)], more=how)


@entry()
def distribute(g, r):
    return Call(glass.distribute, [("redshifts", g(r.uniform(0.2, 1.5, size=6))), ("shells", api.windows(g, r, 3))], more={"rng": g.rng})


# ---------------------------------------------------------------- algorithms, arrays


def _corr(r, n):
    m = np.clip(r.uniform(-1.3, 1.3, size=(n, n)), -1, 1)
    m = np.tril(m, -1)
    return m + m.T + np.eye(n)


@entry()
def nnls(g, r):
    n = many(r, 2, 6)
    a, b = np.abs(r.normal(size=(n + 2, n))), r.normal(size=n + 2)
    return Call(glass.algorithm.nnls, [("a", g(a)), ("b", g(b))], only=[("tol", 0.0), ("maxiter", 3 * n)])


@entry("np np strict jax")
def nnls_small(g, r):
    """Gradients near the default tolerance."""
    n = many(r, 2, 4)
    a, b = np.eye(n), 10.0 ** r.uniform(-6, 0, size=n)
    return Call(glass.algorithm.nnls, [("a", g(a)), ("b", g(b))], only=[("tol", 0.0), ("maxiter", 3 * n)])


@entry()
def cov_clip(g, r):
    n = many(r, 2, 6)
    return Call(glass.algorithm.cov_clip, [("cov", g(_corr(r, n)))], [("rtol", n * EPS)])


def _nearest(g, r, fn, name, scaled, keywords):
    """A tolerance of zero is not reached, and the number of iterations is told."""
    n = many(r, 3, 10)
    m = _corr(r, n)
    d = r.uniform(0.5, 2, size=n) if scaled else np.ones(n)
    a = [(name, g(m * d * d[:, None]))]
    tol, niter = [("tol", n * EPS)], [("niter", 100)]
    more = api.pick(r, {}, {"tol": 0.0}, {"niter": 10_000})
    opt = [x for x in tol + niter if x[0] not in more]
    return Call(heard(fn), a, only=opt, more=more) if keywords or more else Call(heard(fn), a, opt)


@entry("np np np strict")
def nearcorr(g, r):
    return _nearest(g, r, glass.algorithm.nearcorr, "a", False, True)


@entry("np np np strict")
def cov_nearest(g, r):
    return _nearest(g, r, glass.algorithm.cov_nearest, "cov", True, False)


@entry("np np np strict strict")
def ndinterp(g, r):
    x = api.grid(r, 5)
    fq = r.normal(size=api.pick(r, (5,), (2, 5), (5, 5)))
    return Call(glass.arraytools.ndinterp, [("x", g(r.uniform(x[0], x[-1], size=4))), ("xq", g(x)), ("fq", g(fq))], [("axis", -1), ("left", None), ("right", None), ("period", None)])


@entry()
def trapezoid_product(g, r):
    f, h = (g(api.grid(r, 4)), g(r.normal(size=4))), (g(api.grid(r, 5)), g(r.normal(size=5)))
    return Call(lambda **kw: glass.arraytools.trapezoid_product(f, h, **kw), [], only=[("axis", -1)])


@entry()
def cumulative_trapezoid(g, r):
    return Call(glass.arraytools.cumulative_trapezoid, [("f", g(r.normal(size=(2, 5)))), ("x", g(api.grid(r, 5)))])


@entry("np np np strict strict jax")
def trapezoid(g, r):
    n = 3
    y = g(r.normal(size=(n, n)))
    if r.integers(2):
        return Call(uxpx.trapezoid, [("y", y)], [("x", None), ("dx", 1.0), ("axis", -1)])
    return Call(uxpx.trapezoid, [("y", y), ("x", g(api.grid(r, n)))], [("dx", 1.0), ("axis", -1)])


@entry()
def tril_indices(g, r):
    n = many(r, 1, 5)
    return Call(uxpx.tril_indices, [("n", n)], only=[("k", 0), ("m", n)], more={"xp": g.xp}, post=list)


# ---------------------------------------------------------------- harmonics, healpix


def _alm(g, r, lmax):
    n = (lmax + 1) * (lmax + 2) // 2
    a = r.normal(size=n) + 1j * r.normal(size=n)
    a[: lmax + 1] = a[: lmax + 1].real
    return g(a)


@entry()
def multalm(g, r):
    return Call(glass.harmonics.multalm, [("alm", _alm(g, r, 4)), ("bl", g(r.normal(size=5)))])


@entry("np np strict")
def almxfl(g, r):
    a = _alm(g, r, 4)
    return Call(hp.almxfl, [("alm", a), ("fl", g(r.normal(size=5)))], only=[("inplace", False)], post=lambda x: [x, g.xp.asarray(np.array(np.asarray(a), copy=True))])


@entry("np np strict")
def alm2map(g, r):
    lmax = many(r, 2, 7)
    if r.integers(2):
        a = g.items([_alm(g, r, lmax) for _ in range(3)])
        return Call(hp.alm2map, [("alms", a), ("nside", 2)], only=[("inplace", False), ("lmax", lmax), ("pixwin", False), ("pol", True)])
    return Call(hp.alm2map, [("alms", _alm(g, r, lmax)), ("nside", 2)], only=[("inplace", False), ("lmax", lmax), ("pixwin", False), ("pol", True)])


@entry("np np strict")
def alm2map_spin(g, r):
    a = g.items([_alm(g, r, 5) for _ in range(2)])
    return Call(hp.alm2map_spin, [("alms", a), ("nside", 2), ("spin", many(r, 1, 3)), ("lmax", 5)])


@entry("np np strict")
def map2alm(g, r):
    nside = api.pick(r, 2, 4)
    only = [("lmax", 3 * nside - 1), ("pol", True), ("use_pixel_weights", False)]
    if r.integers(2):
        return Call(hp.map2alm, [("maps", g.items([g(r.normal(size=12 * nside**2)) for _ in range(3)]))], only=only)
    return Call(hp.map2alm, [("maps", g(r.normal(size=12 * nside**2)))], only=only)


@entry()
def pixwin(g, r):
    nside = api.pick(r, 2, 4)
    return Call(hp.pixwin, [("nside", nside)], only=[("lmax", 3 * nside - 1), ("pol", False)], more={"xp": g.xp})


@entry()
def pixels(g, r):
    t, p = g(r.uniform(0.1, 1.5, size=4)), g(r.uniform(0.1, 1.5, size=4))
    f = api.pick(r, (hp.ang2pix, [("nside", 4)]), (hp.ang2vec, []))
    return Call(f[0], [*f[1], ("theta", t), ("phi", p)], only=[("lonlat", False)], post=lambda x: list(x) if isinstance(x, tuple) else x)


@entry()
def randang(g, r):
    return Call(hp.randang, [("nside", 4), ("ipix", g(r.integers(0, 192, size=5)))], only=[("lonlat", False)], more={"rng": g.rng}, post=list)


@entry()
def sizes(g, r):
    f = api.pick(r, (hp.nside2npix, "nside", 4), (hp.npix2nside, "npix", 192), (hp.get_nside, "m", g(np.zeros(48))))
    return Call(f[0], [f[1:]])


@entry()
def query_strip(g, r):
    t = (float(r.uniform(0.1, 1)), float(r.uniform(1.2, 2.5)))
    return Call(hp.query_strip, [("nside", 4), ("thetas", t)], more={"xp": g.xp})


# ---------------------------------------------------------------- lensing


@entry()
def from_convergence(g, r):
    """Which maps are made is chosen by name; the other ones are not made."""
    nside = api.pick(r, 1, 2, 4)
    asked = {k for k in ("potential", "deflection", "shear") if r.integers(2)} or {"shear"}
    only = [(k, False) for k in ("potential", "deflection", "shear") if k not in asked]
    return Call(glass.from_convergence, [("kappa", g(api.mapof(r, nside)))], [("lmax", 3 * nside - 1)], [*only, ("discretized", True)], dict.fromkeys(asked, True), post=list)


@entry("np")
def shear_from_convergence(g, r):
    nside = api.pick(r, 1, 2, 4)
    return Call(glass.shear_from_convergence, [("kappa", g(api.mapof(r, nside)))], [("lmax", 3 * nside - 1)], [("discretized", True)], post=list)


@entry()
def add_plane(g, r):
    m = glass.MultiPlaneConvergence(cosmo=Cosmo(p=1.5, xp=g.xp))
    m.add_plane(delta=g(api.mapof(r, 1)), zsrc=0.3, wlens=0.2)
    d, e = g(api.mapof(r, 1)), g(api.mapof(r, 1))

    def done(_):
        m.add_plane(e, 0.9, 0.3)
        return [m.kappa, m.delta, m.zsrc, m.wlens]

    return Call(m.add_plane, [("delta", d), ("zsrc", float(r.uniform(0.4, 0.8)))], [("wlens", 1.0)], post=done)


@entry()
def add_window(g, r):
    m = glass.MultiPlaneConvergence(Cosmo(p=1.5, xp=g.xp))
    return Call(m.add_window, [("delta", g(api.mapof(r, 1))), ("w", api.windows(g, r, 1)[0])], post=lambda _: [m.kappa, m.delta, m.zsrc, m.wlens])


@entry()
def multi_plane_matrix(g, r):
    return Call(glass.multi_plane_matrix, [("shells", api.windows(g, r, 3)), ("cosmo", Cosmo(p=1.5, xp=g.xp))])


@entry()
def multi_plane_weights(g, r):
    return Call(glass.multi_plane_weights, [("weights", g(r.uniform(0, 1, size=3))), ("shells", api.windows(g, r, 3)), ("cosmo", Cosmo(p=1.5, xp=g.xp))])


def _points(g, r, n=5):
    return g(r.uniform(-180, 180, size=n)), g(r.uniform(-80, 80, size=n))


@entry()
def deflect(g, r):
    lon, lat = _points(g, r)
    a = g(0.02 * r.normal(size=(2, 5)))
    f = api.pick(r, (glass.deflect, [("xp", g.xp)]), (glass.displace, []))
    return Call(f[0], [("lon", lon), ("lat", lat), ("alpha", a)], f[1], post=list)


@entry()
def displacement(g, r):
    a, b, c, d = *_points(g, r), *_points(g, r)
    return Call(glass.displacement, [("from_lon", a), ("from_lat", b), ("to_lon", c), ("to_lat", d)])


# ---------------------------------------------------------------- points


@entry()
def effective_bias(g, r):
    return Call(glass.effective_bias, [("z", g(api.grid(r, 6))), ("bz", g(r.uniform(0.5, 2, size=6))), ("w", api.windows(g, r, 2)[0])])


@entry()
def bias_models(g, r):
    f = api.pick(r, glass.linear_bias, glass.loglinear_bias)
    return Call(f, [("delta", g(r.uniform(-0.9, 2, size=5))), ("b", float(r.uniform(0.5, 2)))])


@entry()
def positions_from_delta(g, r):
    n = float(r.uniform(1e-4, 1e-3))
    d = g(r.uniform(-0.9, 1, size=48))
    a = [("ngal", n), ("delta", d)]
    only = [("remove_monopole", False), ("batch", 1_000_000)]
    if r.integers(2):
        return Call(glass.positions_from_delta, a, [("bias", 1.0), ("vis", g(np.ones(48)))], [*only], {"rng": g.rng}, post=list)
    b = [("bias", float(r.uniform(0.5, 1)))]
    return Call(glass.positions_from_delta, a + b, [("vis", None)], [*only, ("bias_model", glass.linear_bias)], {"rng": g.rng}, post=list)


@entry()
def uniform_positions(g, r):
    return Call(glass.uniform_positions, [("ngal", float(r.uniform(1e-4, 1e-3)))], more={"rng": g.rng, "xp": g.xp}, post=list)


@entry()
def position_weights(g, r):
    return Call(glass.position_weights, [("densities", g(r.uniform(0.1, 1, size=(3, 2))))], [("bias", 1.0)])


# ---------------------------------------------------------------- galaxies


@entry()
def redshifts(g, r):
    return Call(glass.redshifts, [("n", many(r, 1, 7)), ("w", api.windows(g, r, 2, "hat")[0])], more={"rng": g.rng})


@entry()
def redshifts_from_nz(g, r):
    return Call(heard(glass.redshifts_from_nz), [("count", many(r, 1, 7)), ("z", g(api.grid(r, 6))), ("nz", g(r.uniform(0.1, 1, size=6)))], only=[("warn", True)], more={"rng": g.rng})


@entry()
def redshifts_from_bins(g, r):
    d = g.dict({k: g(r.uniform(0.1, 1, size=6)) for k in range(3)})
    return Call(glass.redshifts_from_bins, [("bins", g(r.permutation(3))), ("z", g(api.grid(r, 6))), ("nz_dict", d)], more={"rng": g.rng})


@entry()
def galaxy_shear(g, r):
    lon, lat = _points(g, r)
    e = 0.3 * r.uniform(-1, 1, size=5) + 0.3j * r.uniform(-1, 1, size=5)
    m = [(k, g(0.2 * api.mapof(r))) for k in ("kappa", "gamma1", "gamma2")]
    return Call(glass.galaxy_shear, [("lon", lon), ("lat", lat), ("eps", g(e)), *m], only=[("reduced_shear", True)])


@entry("np np np strict strict")
def gaussian_phz(g, r):
    """Redshifts near zero: the lower bound matters."""
    z = g(r.uniform(0.0, 0.3, size=5))
    return Call(glass.gaussian_phz, [("z", z), ("sigma_0", float(r.uniform(0.05, 0.4)))], only=[("lower", 0.0), ("upper", math.inf)], more={"rng": g.rng})


# ---------------------------------------------------------------- observations


@entry()
def gaussian_nz(g, r):
    return Call(glass.gaussian_nz, [("z", g(api.grid(r, 7))), ("mean", 0.8), ("sigma", 0.2)], only=[("norm", None)])


@entry()
def smail_nz(g, r):
    return Call(glass.smail_nz, [("z", g(api.grid(r, 7, 0.05, 2))), ("z_mode", 0.8), ("alpha", 2.2), ("beta", 1.4)], only=[("norm", None)])


@entry()
def fixed_zbins(g, r):
    how = api.pick(r, {"nbins": 4}, {"dz": 0.31})
    return Call(glass.fixed_zbins, [("zmin", 0.2), ("zmax", 1.7)], only=[("dz" if "nbins" in how else "nbins", None)], more={"xp": g.xp, **how}, post=list)


@entry()
def equal_dens_zbins(g, r):
    return Call(glass.equal_dens_zbins, [("z", g(api.grid(r, 9))), ("nz", g(r.uniform(0.1, 1, size=9))), ("nbins", 3)], post=list)


@entry()
def tomo_nz_gausserr(g, r):
    return Call(glass.tomo_nz_gausserr, [("z", g(api.grid(r, 9))), ("nz", g(r.uniform(0.1, 1, size=9))), ("sigma_0", 0.05), ("zbins", g.items([(0.2, 0.6), (0.6, 1.4)]))])


@entry()
def vmap_galactic_ecliptic(g, r):
    """Sharp enough to see bands a degree wider."""
    return Call(glass.vmap_galactic_ecliptic, [("nside", api.pick(r, 16, 32))], [("galactic", (30, 90)), ("ecliptic", (20, 80))], more={"xp": g.xp})


# ---------------------------------------------------------------- shapes


@entry()
def triaxial_axis_ratio(g, r):
    a = [("zeta", g(r.uniform(0.2, 0.9, size=(2, 1)))), ("xi", g(r.uniform(0.2, 0.9, size=3)))]
    return Call(glass.triaxial_axis_ratio, a, [("size", (2, 3))], more={"rng": g.rng})


@entry()
def ellipticity_ryden04(g, r):
    a = [("mu", g(r.uniform(-2, -1, size=3))), ("sigma", g(r.uniform(0.2, 0.6, size=3))), ("gamma", g(r.uniform(0.1, 0.4, size=3))), ("sigma_gamma", g(r.uniform(0.02, 0.1, size=3)))]
    return Call(glass.ellipticity_ryden04, a, [("size", (3,))], more={"rng": g.rng})


@entry()
def ellipticities(g, r):
    f = api.pick(r, glass.ellipticity_gaussian, glass.ellipticity_intnorm)
    return Call(f, [("count", many(r, 1, 6)), ("sigma", float(r.uniform(0.1, 0.3)))], more={"rng": g.rng, "xp": g.xp})


@entry()
def resample_shapes(g, r):
    e = 0.3 * r.uniform(-1, 1, size=6) + 0.3j * r.uniform(-1, 1, size=6)
    how = api.pick(r, {"varg": 0.001}, {"vargamma": 0.001})
    return Call(glass.resample_shapes, [("epsilon", g(e))], only=[("vargamma" if "varg" in how else "varg", None)], more={**how, "rng": g.rng})


# ---------------------------------------------------------------- random numbers


def _draws(rng):
    return [rng.random(3), rng.standard_normal(3), rng.poisson(4.0, 3)]


@entry()
def default_rng(g, r):
    return Call(glass.rng.default_rng, [], only=[("seed", 42)], more={"xp": g.xp}, post=_draws)


@entry()
def generator(g, r):
    return Call(glass.rng.Generator, [], only=[("rng", None), ("seed", 42)], more={"xp": g.xp}, post=_draws)


@entry("np strict strict jax jax")
def variates(g, r):
    seed = many(r, 0, 3)
    rng = glass.jax.Generator(seed) if g.lib == "jax" else glass.rng.Generator(seed=seed, xp=g.xp)
    size = [("size", (3,))]
    how = many(r, 0, 3)
    if how == 0:
        f, a = rng.normal, [("loc", 0.0), ("scale", 1.0)]
    elif how == 1:
        f, a = rng.uniform, [("low", 0.0), ("high", 1.0)]
    else:
        loc, scale = g(r.normal(size=3)), g(r.uniform(0.5, 2, size=3))
        f, a = api.pick(r, (rng.normal, [("loc", loc), ("scale", scale)]), (rng.uniform, [("low", loc), ("high", loc + scale)]))
        return Call(f, a, size)
    return Call(f, [], a, more=dict(size))


@entry("jax")
def jax_types(g, r):
    """The types of the variates of the generator for JAX."""
    rng = glass.jax.Generator(many(r, 0, 3))
    f, d, a = api.pick(r, (rng.random, float, []), (rng.standard_normal, float, []), (rng.poisson, int, [("lam", 3.0)]), (rng.normal, float, [("loc", 0.0), ("scale", 1.0)]), (rng.uniform, float, [("low", 0.0), ("high", 1.0)]))
    return Call(f, [*a, ("size", (3,))], [("dtype", d)], post=lambda x: [x, str(x.dtype)])


# ---------------------------------------------------------------- the checks


@st.composite
def cases(draw, names=evenly(sorted(TABLE))):
    name = draw(names)
    lib = draw(st.sampled_from(TABLE[name][1]))
    return {
        "function": name,
        "lib": lib,
        "seed": draw(seeds) if lib != "jax" else draw(st.integers(0, 4)),
        "places": draw(st.integers(0, 6)),
        "omit": draw(st.integers(0, 255)),
    }


def attempt(case, places, omitted):
    g = api.Given(case["lib"], case["seed"], rng=lambda: Scripted(case["seed"]))
    c = TABLE[case["function"]][0](g, rnd(case["seed"]))
    out = c.omittable
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return api.flatten(c.run(places, omitted(out))), out


def check(case):
    tol = type("E", (), {"rtol": 1e-11, "atol": 1e-13})
    with np.errstate(all="ignore"), hpdata.datapath(weights=0.1):
        full, out = attempt(case, 0, lambda o: set())
        omit = {k for i, k in enumerate(out) if case["omit"] >> i & 1}
        # the drawn ones together, and each alone
        for without in [omit, *({k} for k in out if {k} != omit)]:
            got, _ = attempt(case, case["places"], lambda o: without)
            what = f"{case['function']} with {case['places']} arguments by place and without {sorted(without)}"
            api.compare(got, full, tol, what)
    return bool(out or case["places"])


@sub("C42", strategy=cases, rule="an argument is left out, or given by place", quick=1500, shards=4)
def arguments(case):
    """A call with any choice of arguments by place or by name, and any of the optional ones left out, gives the result of the call with all of them by name."""
    return check(case)


@st.composite
def iterative(draw):
    return draw(cases(st.sampled_from(["solve", "solve", "nearcorr", "cov_nearest", "nnls", "partition", "partition_method", "regularized_spectra"]))) | {"lib": "np"}


@sub("C42", strategy=iterative, rule="an argument is left out, or given by place", quick=400, shards=1)
def iterations(case):
    """The same, where arguments say when to stop."""
    return check(case)


@st.composite
def amounts(draw):
    return {"n": draw(st.sampled_from([999_999, 1_000_000, 1_000_001, 1_500_000, 2_000_000])), "seed": draw(seeds), "how": draw(st.sampled_from(["delta", "uniform"]))}


@sub("C42", strategy=amounts, rule="always", quick=3, shards=1)
def batches(case):
    """By default positions come in batches of a million, or of one pixel."""
    npix, n = 48, case["n"]

    class Even(Scripted):
        def counts(self, lam):
            c = np.full(lam.shape, n // npix)
            c.flat[: n % npix] += 1
            return c

    gen = glass.positions_from_delta(1.0, np.zeros(npix), rng=Even(case["seed"]))
    sizes = [len(lon) for lon, lat, count in gen]
    per = np.full(npix, n // npix)
    per[: n % npix] += 1
    want, size = [], 0
    for k in per:
        if size and size + k > 1_000_000:
            want.append(size)
            size = 0
        size += k
    want.append(size)
    assert sum(sizes) == n, f"{sum(sizes)} positions instead of {n}"
    assert max(sizes) <= 1_000_000, f"a batch of {max(sizes)} positions, the default is a million"
    assert len(sizes) == len(want), f"{len(sizes)} batches instead of {len(want)}: {sizes}"
    return True
