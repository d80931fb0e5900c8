"""C41: invalid arguments are refused, valid ones next to them are not."""

import math

import numpy as np
from hypothesis import strategies as st

import glass
import glass.algorithm
import glass.grf
import glass.jax
from vf import api
from vf.be import evenly, rnd, seeds
from vf.core import sub
from vf.cosmo import Cosmo
from vf.rec import Scripted

TABLE = {}


def entry(exc, *bads, libs="np np np np strict strict jax"):
    """fn(g, r, bad) makes the call with valid arguments, or those which break one requirement."""

    def deco(fn):
        TABLE[fn.__name__] = (fn, exc, bads, libs.split())
        return fn

    return deco


def many(r, lo=1, hi=5):
    return int(r.integers(lo, hi))


# ---------------------------------------------------------------- fields


@entry(ValueError, "more", "fewer")
def spectra_number(g, r, bad):
    n = many(r, 2, 40)
    k = n * (n + 1) // 2 + {"more": many(r, 1, n), "fewer": -many(r, 1, n)}.get(bad, 0)
    return glass.nfields_from_nspectra(k)


@entry(ValueError, "more", "fewer")
def spectra_lists(g, r, bad):
    n = many(r, 2, 5)
    k = n * (n + 1) // 2 + {"more": many(r, 1, n), "fewer": -many(r, 1, n)}.get(bad, 0)
    cls = g.items([g(1.0 / (1 + np.arange(3)) ** 2) for _ in range(k)])
    f = api.pick(r, glass.glass_to_healpix_spectra, glass.healpix_to_glass_spectra, glass.cov_from_spectra, glass.check_posdef_spectra, lambda c: glass.regularized_spectra(c, method="clip"), lambda c: glass.effective_cls(c, g(np.ones(n))), lambda c: glass.discretized_cls(c, ncorr=1))
    return f(cls)


@entry(ValueError, "empty", "shape", "negative", "singular")
def iternorm(g, r, bad):
    """What was given before the invalid row is as it was."""
    n, at = 4, many(r, 1, 4)
    dims = api.pick(r, (), (3,), (2, 2))
    m = r.normal(size=(*dims, n, n))
    c = m @ np.swapaxes(m, -1, -2) + 0.1 * np.eye(n)
    if bad == "empty":
        at = 0
    rows = []
    for i in range(n):
        row = np.stack([c[..., i, i - j] for j in range(i + 1)], axis=-1)
        if i == at:
            if bad == "empty":
                row = row[..., :0]
            elif bad == "shape":
                row = np.stack([row, row]) if dims else row[None]
            elif bad == "negative":
                row[..., 0] = np.where(np.arange(row[..., 0].size).reshape(dims) == 0, -1.0, row[..., 0])
            elif bad == "singular":
                row[..., 1] = np.where(np.arange(row[..., 1].size).reshape(dims) == 0, 2 * np.sqrt(row[..., 0] * c[..., i - 1, i - 1]), row[..., 1])
        rows.append(g(row))
    return list(glass.iternorm(iter(g.items(rows))))


@entry(ValueError, "negative")
def cls2cov(g, r, bad):
    n = 3
    at = many(r, 0, n)
    cls = []
    for i in range(n):
        for j in range(i, -1, -1):
            c = r.normal(size=4) * 0.1
            if i == j:
                # zeros are valid, the smallest negative value is not
                c = np.abs(c) * (r.random(4) < 0.7)
                if bad and i == at:
                    c[many(r, 0, 4)] = -api.pick(r, 1e-300, 1e-12, 1.0)
            cls.append(g(c))
    return [g.xp.asarray(np.array(np.asarray(c), copy=True)) for c in glass.cls2cov(g.items(cls), 4, n, api.pick(r, 0, 1, 2))]


@entry(ValueError, "fields", "spectra", "empty")
def generate(g, r, bad):
    n = many(r, 1, 4)
    gls = list(api.spectra(g, r, n, 5))
    t = [glass.grf.Normal() for _ in range(n + (1 if bad == "fields" else 0))]
    if bad == "spectra":
        gls = gls[:-1]
    if bad == "empty":
        gls = [g(np.zeros(0)) for _ in gls]
    return list(glass.generate(g.items(t), g.items(gls), 1, rng=g.rng))


@entry(ValueError, "rows", "second", "scalar")
def effective_cls(g, r, bad):
    n = 3
    cls = api.spectra(g, r, n, 5)
    dims = api.pick(r, (), (2,), (3,))
    w1 = g(r.normal(size=(n + api.pick(r, 1, -1) if bad == "rows" else n, *dims)))
    w2 = None
    if bad == "second" or r.integers(2):
        w2 = g(r.normal(size=(n + api.pick(r, 1, -1) if bad == "second" else n, 2)))
    if bad == "scalar":
        w1 = g(np.array(1.0))
    return glass.effective_cls(cls, w1, w2)


@entry(ValueError, "fields", "spectra", libs="np np jax")
def gaussian_spectra(g, r, bad):
    n = many(r, 1, 3)
    t = g.items([glass.grf.Lognormal() for _ in range(n + (bad == "fields"))])
    cls = list(api.spectra(g, r, n, 5))
    cls = g.items(cls[:-1] if bad == "spectra" else cls)
    return api.pick(r, glass.compute_gaussian_spectra, glass.solve_gaussian_spectra)(t, cls)


@entry(ValueError, "method")
def regularized_spectra(g, r, bad):
    cls = api.spectra(g, r, 2, 4, monopole=1.0)
    m = api.pick(r, "none", "CLIP", "", "cov_clip", "nearest ") if bad else api.pick(r, "clip", "nearest")
    return glass.regularized_spectra(cls, method=m)


@entry(ValueError, "pad")
def solve(g, r, bad):
    cl = g(0.1 / (1.0 + np.arange(5)) ** 2)
    pad = -many(r, 1, 6) if bad else many(r, 0, 6)
    return glass.grf.solve(cl, glass.grf.Lognormal(), pad=pad)


@entry(NotImplementedError, "pair", "reverse")
def correlation(g, r, bad):
    f = api.pick(r, glass.grf.corr, glass.grf.icorr, glass.grf.dcorr)
    x = g(r.uniform(0.01, 0.3, size=3))
    n, ln, sq = glass.grf.Normal(), glass.grf.Lognormal(0.5), glass.grf.SquaredNormal(1.0, 2.0)
    if bad in ("pair", "reverse"):
        a, b = api.pick(r, n, ln), sq
        return f(a, b, x) if bad == "pair" else f(b, a, x)
    return f(*api.pick(r, (n, n), (n, ln), (ln, ln), (sq, sq)), x)


# ---------------------------------------------------------------- algorithms


@entry(ValueError, "vector", "matrix", "rows", "stack")
def nnls(g, r, bad):
    m, n = many(r, 1, 5), many(r, 1, 4)
    a = {"vector": (m,), "stack": (2, m, n)}.get(bad, (m, n))
    b = {"matrix": (m, 1), "rows": (m + api.pick(r, -1, 1),)}.get(bad, (m,))
    return glass.algorithm.nnls(g(r.normal(size=a)), g(r.normal(size=b)))


@entry(ValueError, "wide", "tall")
def nearcorr(g, r, bad):
    n = many(r, 2, 4)
    dims = api.pick(r, (), (2,))
    x = r.uniform(-0.4, 0.4, size=(n, n))
    x = (x + x.T) / 2
    np.fill_diagonal(x, 1.0)
    x = {"wide": x[: n - 1], "tall": x[:, : n - 1]}.get(bad, x)
    return glass.algorithm.nearcorr(g(np.broadcast_to(x, (*dims, *x.shape)).copy()))


@entry(ValueError, "negative")
def cov_nearest(g, r, bad):
    n = many(r, 1, 4)
    dims = api.pick(r, (), (3,))
    d = r.uniform(0.5, 1, size=(*dims, n))
    if bad:
        i = tuple(many(r, 0, k) for k in d.shape)
        d[i] = -api.pick(r, 1e-300, 1e-9, 1.0)
    return glass.algorithm.cov_nearest(g(d[..., None] * np.eye(n)))


# ---------------------------------------------------------------- shells


def _windows(name, least):
    @entry(ValueError, "matrix", "short", "empty", "scalar")
    def fn(g, r, bad):
        z = np.cumsum(r.uniform(0.1, 0.5, size=many(r, least, least + 3))) - 0.1
        z[0] = 0.0
        z = {"matrix": np.stack([z, z]), "short": z[: least - 1], "empty": z[:0], "scalar": z[0]}.get(bad, z)
        return getattr(glass, name)(g(z), 0.05)

    fn.__name__ = name
    TABLE[name] = (fn, *TABLE.pop("fn")[1:])


_windows("tophat_windows", 2)
_windows("linear_windows", 3)
_windows("cubic_windows", 3)


@entry(ValueError, "matrix")
def restrict(g, r, bad):
    w = api.windows(g, r, 1)[0]
    z = np.linspace(0, 2, 5)
    return glass.restrict(g(np.stack([z, z]) if bad else z), g(r.normal(size=5)), w)


@entry(ValueError, "method")
def partition(g, r, bad):
    sh = api.windows(g, r, 2)
    m = api.pick(r, "none", "NNLS", "", "least") if bad else api.pick(r, "nnls", "lstsq", "restrict")
    return glass.partition(g(np.linspace(0, 2, 5)), g(r.uniform(0.2, 1, size=5)), sh, method=m)


def _grid(f):
    def fn(g, r, bad):
        kw = {} if bad == "neither" else {"dz": 0.25, "num": 3} if bad == "both" else api.pick(r, {"dz": 0.25}, {"num": 3})
        return f(g, r, kw)

    return fn


def _register(name, f):
    fn = _grid(f)
    fn.__name__ = name
    entry(ValueError, "both", "neither")(fn)


_register("redshift_grid", lambda g, r, kw: glass.redshift_grid(0.0, 1.0, **kw, xp=g.xp))
_register("distance_grid", lambda g, r, kw: glass.distance_grid(Cosmo(p=1.5, xp=g.xp), 0.0, 1.0, **{{"dz": "dx"}.get(k, k): v for k, v in kw.items()}))
_register("fixed_zbins", lambda g, r, kw: glass.fixed_zbins(0.0, 1.0, **{{"num": "nbins"}.get(k, k): v for k, v in kw.items()}, xp=g.xp))


# ---------------------------------------------------------------- lensing, points and galaxies


@entry(ValueError, "equal", "before", "same-after")
def add_plane(g, r, bad):
    """Refused planes do not count."""
    m = glass.MultiPlaneConvergence(Cosmo(p=1.5, xp=g.xp))
    z = np.cumsum(r.uniform(0.1, 0.4, size=3))
    d = [g(r.normal(size=3)) for _ in range(3)]
    for i in range(2):
        m.add_plane(d[i], float(z[i]))
    last = {"equal": z[1], "before": z[0], "same-after": np.nextafter(z[1], 0)}.get(bad, z[2])
    if bad is None and r.integers(2):
        last = np.nextafter(z[1], 9)
    m.add_plane(d[2], float(last))
    return m.kappa


@entry(ValueError, "more", "fewer", "scalar")
def multi_plane_weights(g, r, bad):
    k = 3
    sh = api.windows(g, r, k)
    n = {"more": k + 1, "fewer": k - 1}.get(bad, k)
    w = np.array(1.0) if bad == "scalar" else r.uniform(0.1, 1, size=(n, *api.pick(r, (), (3,), (2, 3))))
    return glass.multi_plane_weights(g(w), sh, Cosmo(p=1.5, xp=g.xp))


@entry(TypeError, "name", "number")
def positions_from_delta(g, r, bad):
    model = {"name": "linear_bias", "number": 1.5}.get(bad, glass.linear_bias)
    return list(glass.positions_from_delta(g(np.array(1e-7)), g(r.uniform(-0.5, 0.5, size=12)), g(np.array(1.0)), bias_model=model, rng=g.rng))


@entry(ValueError, "equal", "exchanged", "one", "shape")
def gaussian_phz(g, r, bad):
    z = r.uniform(0.5, 1.0, size=3)
    lo, hi = z - 0.3, z + 0.3
    i = many(r, 0, 3)
    if bad == "equal":
        hi[i] = lo[i]
    elif bad == "exchanged":
        lo, hi = hi, lo
    elif bad == "one":
        lo[i], hi[i] = hi[i], lo[i]
    elif bad == "shape":
        lo, hi = lo[:2], hi[:2]
    return glass.gaussian_phz(g(z), 0.1, lower=g(lo), upper=g(hi), rng=g.rng)


@entry(ValueError, "limit", "above", "negative", "one")
def ellipticity_intnorm(g, r, bad):
    s = r.uniform(0.0, 0.6, size=3)
    if bad is None:
        s[0] = api.pick(r, 0.0, float(np.nextafter(math.sqrt(0.5), 0) - 1e-12), 0.3)
    else:
        v = {"limit": 0.5**0.5, "above": float(r.uniform(0.71, 3)), "negative": -api.pick(r, 1e-300, 1e-3, 0.5)}.get(bad, 0.75)
        s[:] = v if bad == "above" and r.integers(2) else s
        s[many(r, 0, 3)] = v
    return glass.ellipticity_intnorm(g(np.array([2, 1, 3])), g(s), rng=g.rng)


@entry(ValueError, "both", "varg", "vargamma")
def resample_shapes(g, r, bad):
    e = r.uniform(0.1, 0.8) * np.exp(2j * np.pi * r.random(6))
    v = float(np.mean(np.abs(e) ** 2))
    small = v * float(r.uniform(0, 0.5))
    if bad is None and r.integers(3) == 0:
        # all of the variance, exactly
        e = api.pick(r, 0.5, 0.25) * 1j ** np.arange(8)
        v = float(abs(e[0]) ** 2)
        return glass.resample_shapes(g(e), rng=g.rng, **api.pick(r, {"varg": v}, {"vargamma": v}))
    kw = {"both": {"varg": small, "vargamma": small}, "varg": {"varg": v * api.pick(r, 1.001, 1.5)}, "vargamma": {"vargamma": v * api.pick(r, 1.001, 1.5)}}.get(bad, api.pick(r, {}, {"varg": small}, {"vargamma": small}, {"varg": v * 0.999}, {"vargamma": v * 0.999}))
    return glass.resample_shapes(g(e), rng=g.rng, **kw)


def _mismatch(name, exc, f):
    @entry(exc, "more", "fewer", "axis")
    def fn(g, r, bad):
        """Two arguments that are broadcast against each other."""
        n = many(r, 3, 5)
        k = {"more": n + 1, "fewer": n - 1}.get(bad, n)
        return f(g, r, (n,), (k, n + 3) if bad == "axis" else (k,))

    fn.__name__ = name
    TABLE[name] = (fn, *TABLE.pop("fn")[1:])



_mismatch("phz_sigma", (ValueError, TypeError), lambda g, r, a, b: glass.gaussian_phz(g(r.uniform(0.5, 1, size=a)), g(r.uniform(0.01, 0.02, size=b)), rng=g.rng))
_mismatch("gaussian_sigma", (ValueError, TypeError), lambda g, r, a, b: glass.ellipticity_gaussian(g(r.integers(1, 4, size=a)), g(r.uniform(0.1, 0.2, size=b)), rng=g.rng))
_mismatch("intnorm_sigma", (ValueError, TypeError), lambda g, r, a, b: glass.ellipticity_intnorm(g(r.integers(1, 4, size=a)), g(r.uniform(0.1, 0.2, size=b)), rng=g.rng))
_mismatch("weights_bias", (ValueError, TypeError), lambda g, r, a, b: glass.position_weights(g(r.uniform(1, 2, size=(*a, api.pick(r, b[0], b[0], 2)))), g(r.uniform(1, 2, size=b))))
_mismatch("nz_rows", (ValueError, TypeError), lambda g, r, a, b: glass.redshifts_from_nz(g(r.integers(1, 4, size=a)), g(np.linspace(0, 1, 7)), g(r.uniform(1, 2, size=(*b, 7))), rng=g.rng, warn=False))
_mismatch("populations", (ValueError, TypeError), lambda g, r, a, b: list(glass.positions_from_delta(g(r.uniform(1e-8, 2e-8, size=a)), g(r.uniform(-0.5, 0.5, size=(*b, 12))), rng=g.rng)))


@entry(TypeError, "one", "three", "empty")
def vmap(g, r, bad):
    band = {"one": (1.0,), "three": (1.0, 1.2, 1.4), "empty": ()}.get(bad, (1.0, 1.4))
    kw = {api.pick(r, "galactic", "ecliptic"): band}
    return glass.vmap_galactic_ecliptic(2, **kw, xp=g.xp)


@entry(ValueError, "numbers", "raw", "name", libs="jax")
def from_key(g, r, bad):
    import jax

    key = {"numbers": g(np.array([1, 2])), "raw": jax.random.PRNGKey(1), "name": "key"}.get(bad, jax.random.key(3))
    return glass.jax.Generator.from_key(key).random(3)


@entry(ValueError, "longer", "shorter", "rank", libs="jax")
def jax_shapes(g, r, bad):
    rng = glass.jax.Generator(many(r, 0, 9))
    a, b = g(r.uniform(1, 2, size=(2, 3))), g(r.uniform(1, 2, size=3))
    s = {"longer": (2, 4), "shorter": (2,), "rank": (1, 2, 3)}.get(bad, (2, 3))
    f = api.pick(r, lambda: rng.normal(a, b, size=s), lambda: rng.uniform(a, a + b, size=s), lambda: rng.poisson(a, size=s))
    return f()


# ---------------------------------------------------------------- the check


@st.composite
def cases(draw):
    name = draw(evenly(sorted(TABLE)))
    _, _, bads, libs = TABLE[name]
    lib = draw(st.sampled_from(libs))
    return {"function": name, "bad": draw(evenly(bads)), "lib": lib, "seed": draw(seeds) if lib != "jax" else draw(st.integers(0, 4))}


def attempt(case, bad):
    fn = TABLE[case["function"]][0]
    g = api.Given(case["lib"], case["seed"], rng=lambda: Scripted(case["seed"]))
    try:
        return g, api.flatten(fn(g, rnd(case["seed"]), bad))
    except Exception as e:  # noqa: BLE001
        return g, e


@sub("C41", strategy=cases, rule="always", quick=900, shards=3)
def refused(case):
    """The call which breaks one documented requirement raises the documented error and changes no argument; the valid call succeeds before and after it, with the same result."""
    exc = TABLE[case["function"]][1]
    what = f"{case['function']} ({case['bad']})"
    with np.errstate(all="ignore"):
        g, first = attempt(case, None)
        if isinstance(first, Exception):
            raise AssertionError(f"{case['function']}: valid arguments are refused: {type(first).__name__}: {first}") from first
        g.unchanged()
        g, err = attempt(case, case["bad"])
        if not isinstance(err, Exception):
            raise AssertionError(f"{what}: invalid arguments are accepted: {err}"[:600])
        assert isinstance(err, exc), f"{what}: {type(err).__name__} instead of {exc.__name__}: {err}"
        assert str(err).strip(), f"{what}: the error does not say what is wrong"
        g.unchanged()
        g, second = attempt(case, None)
        assert not isinstance(second, Exception), f"{case['function']}: valid arguments are refused after invalid ones: {second}"
    tol = type("E", (), {"rtol": 1e-11, "atol": 1e-14})
    api.compare(first, second, tol, f"{case['function']} before and after a refused call")
    return True
