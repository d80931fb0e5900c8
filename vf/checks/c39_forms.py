"""C39: a number may be given as a number, a zero-dimensional array or an array of one entry."""

import inspect

import numpy as np
from hypothesis import strategies as st

import glass
import glass.arraytools
import glass.healpix as hp
from vf.be import F, N, XPS, backend, close, equal, evenly, increasing, rnd, seeds, tidy
from vf.core import sub
from vf.cosmo import Cosmo
from vf.rec import Scripted

TABLE = {}


def entry(*params, groups=()):
    """params: strategies of the numbers; groups: sets of parameters which are given in the same form."""

    def deco(fn):
        TABLE[fn.__name__] = (fn, params, groups)
        assert len(inspect.signature(fn).parameters) == len(params) + 3
        return fn

    return deco


unit = tidy(0.05, 0.95)
positive = tidy(0.1, 3.0)
angle = tidy(-170.0, 170.0)
latitude = tidy(-89.0, 89.0)
count = st.integers(0, 6)


def complex_number(draw_part=tidy(-0.6, 0.6)):
    return st.tuples(draw_part, draw_part)


def library(case, args):
    """The library is named where there is nothing else to tell it."""
    return {"xp": XPS[case["xp"]]} if case["named"] or all(isinstance(a, (int, float, complex)) for a in args) else {}


@entry(angle, latitude, complex_number())
def displace(case, d, rng, lon, lat, alpha):
    # needs an array to tell the library
    if all(isinstance(a, (int, float, complex)) for a in (lon, lat, alpha)):
        lon = XPS[case["xp"]].asarray(lon)
    return glass.displace(lon, lat, alpha)


@entry(angle, latitude, complex_number())
def deflect(case, d, rng, lon, lat, alpha):
    return glass.deflect(lon, lat, alpha, **library(case, (lon, lat, alpha)))


@entry(angle, latitude, angle, latitude)
def displacement(case, d, rng, lon1, lat1, lon2, lat2):
    return glass.displacement(lon1, lat1, lon2, lat2)


@entry(unit, unit)
def triaxial_axis_ratio(case, d, rng, zeta, xi):
    size = {"size": (3,)} if case["sized"] else {}
    return glass.triaxial_axis_ratio(zeta, xi, rng=rng, **size, **library(case, (zeta, xi)))


@entry(tidy(-3.0, -0.5), unit, unit, tidy(0.01, 0.1))
def ellipticity_ryden04(case, d, rng, mu, sigma, gamma, sigma_gamma):
    size = {"size": (3,)} if case["sized"] else {}
    return glass.ellipticity_ryden04(mu, sigma, gamma, sigma_gamma, rng=rng, **size, **library(case, (mu, sigma, gamma, sigma_gamma)))


@entry(count, tidy(0.05, 0.5))
def ellipticity_gaussian(case, d, rng, n, sigma):
    return glass.ellipticity_gaussian(n, sigma, rng=rng, **library(case, (n, sigma)))


@entry(count, tidy(0.05, 0.5))
def ellipticity_intnorm(case, d, rng, n, sigma):
    return glass.ellipticity_intnorm(n, sigma, rng=rng, **library(case, (n, sigma)))


@entry(tidy(0.0, 2.0), tidy(0.01, 0.2))
def gaussian_phz(case, d, rng, z, sigma):
    return glass.gaussian_phz(z, sigma, rng=rng, **library(case, (z, sigma)))


@entry(tidy(0.2, 2.0), tidy(0.01, 0.2), tidy(0.05, 0.2), tidy(2.0, 3.0), groups=[(0, 1, 2, 3)])
def gaussian_phz_bounds(case, d, rng, z, sigma, lower, upper):
    return glass.gaussian_phz(z, sigma, lower=lower, upper=upper, rng=rng, **library(case, (z, sigma, lower, upper)))


@entry(positive, positive)
def gaussian_nz(case, d, rng, mean, sigma):
    return glass.gaussian_nz(d("z"), mean, sigma)


@entry(positive, positive, positive)
def gaussian_nz_norm(case, d, rng, mean, sigma, norm):
    return glass.gaussian_nz(d("z"), mean, sigma, norm=norm)


@entry(positive, positive, positive)
def smail_nz(case, d, rng, mode, alpha, beta):
    return glass.smail_nz(d("z"), mode, alpha, beta)


@entry(positive, positive, positive, positive)
def smail_nz_norm(case, d, rng, mode, alpha, beta, norm):
    return glass.smail_nz(d("z"), mode, alpha, beta, norm=norm)


@entry(positive)
def linear_bias(case, d, rng, b):
    return glass.linear_bias(d("delta"), b)


@entry(positive)
def loglinear_bias(case, d, rng, b):
    return glass.loglinear_bias(d("delta"), b)


@entry(tidy(0.0001, 0.001, 4), positive)
def positions_from_delta(case, d, rng, ngal, bias):
    return list(glass.positions_from_delta(ngal, d("delta"), bias, rng=rng))


@entry(tidy(0.0001, 0.001, 4))
def uniform_positions(case, d, rng, ngal):
    return list(glass.uniform_positions(ngal, rng=rng, **library(case, (ngal,))))


@entry(positive)
def position_weights(case, d, rng, bias):
    return glass.position_weights(d("nz"), bias)


@entry(count)
def redshifts_from_nz(case, d, rng, n):
    return glass.redshifts_from_nz(n, d("z"), d("nz"), rng=rng, warn=False)


@entry(count)
def redshifts(case, d, rng, n):
    return glass.redshifts(n, glass.RadialWindow(d("z"), d("nz"), 0.5), rng=rng)


@entry(tidy(-0.5, 3.5))
def ndinterp(case, d, rng, x):
    return glass.arraytools.ndinterp(x, d("z"), d("nz"))


@entry(tidy(0.0, 3.14), tidy(0.0, 6.28))
def ang2pix(case, d, rng, theta, phi):
    return hp.ang2pix(8, theta, phi, **({"xp": XPS[case["xp"]]} if not all(isinstance(a, float) for a in (theta, phi)) else {}))


@entry(tidy(0.0, 3.14), tidy(0.0, 6.28))
def ang2vec(case, d, rng, theta, phi):
    return hp.ang2vec(theta, phi, **({"xp": XPS[case["xp"]]} if not all(isinstance(a, float) for a in (theta, phi)) else {}))


@entry(tidy(0.1, 0.9), tidy(1.01, 2.0))
def add_plane(case, d, rng, z1, z2):
    m = glass.MultiPlaneConvergence(Cosmo(xp=XPS[case["xp"]]))
    m.add_plane(d("delta"), z1)
    m.add_plane(d("other"), z2)
    return [m.kappa]


small = st.integers(1, 3)
zero = st.integers(0, 2)
WHOLE = {
    "displace": (zero, zero, None),
    "displacement": (zero, zero, zero, zero),
    "gaussian_nz": (small, small),
    "gaussian_nz_norm": (small, small, small),
    "smail_nz": (small, small, small),
    "smail_nz_norm": (small, small, small, small),
    "linear_bias": (small,),
    "loglinear_bias": (small,),
    "position_weights": (small,),
    "positions_from_delta": (None, small),
    "gaussian_phz": (zero, None),
    "ellipticity_ryden04": (st.integers(-3, -1), None, None, None),
    "ndinterp": (zero,),
    "add_plane": (st.just(1), st.integers(2, 3)),
}
FORMS = ["number", "zero-dim", "one"]


@st.composite
def cases(draw, name=None, libraries=None):
    name = name or draw(evenly(sorted(TABLE)))
    _, params, groups = TABLE[name]
    forms = [draw(st.sampled_from([*FORMS, "number"])) for _ in params]
    for g in groups:
        for i in g:
            forms[i] = forms[g[0]]
    x = draw(backend(8, 4, 1) if libraries is None else libraries)
    if name == "add_plane":
        forms = [f if f != "one" else "zero-dim" for f in forms]
    if name == "displacement":
        forms = [f if f != "number" else "zero-dim" for f in forms]
    if x == "np":
        forms = [draw(st.sampled_from(["number", "scalar"])) if f == "number" else f for f in forms]
    values = [draw(p) for p in params]
    # numbers that are whole may be written as integers (the array API standard itself does not mix kinds)
    if name in WHOLE and (x != "strict" or name == "position_weights") and draw(st.booleans()):
        for i, w in enumerate(WHOLE[name]):
            if w is not None and forms[i] == "number":
                values[i], forms[i] = float(draw(w)), "int"
    return {
        "xp": x,
        "function": name,
        "values": values,
        "forms": forms,
        "z": draw(increasing(0.0, 3.0, 4, 4, gap=0.1)),
        "named": draw(st.booleans()),
        "sized": draw(st.booleans()),
        "seed": draw(seeds),
    }


def given(xp, v, form):
    v = complex(*v) if isinstance(v, list) else v
    if form == "number":
        return v
    if form == "int":
        return int(v)
    if form == "scalar":
        return np.asarray(v)[()]
    return xp.asarray(v) if form == "zero-dim" else xp.asarray([v])


def values(x):
    """Everything in a result as flat arrays."""
    if isinstance(x, (list, tuple)):
        return [w for v in x for w in values(v)]
    return [N(x).reshape(-1)]


def shapes(x):
    if isinstance(x, (list, tuple)):
        return [shapes(v) for v in x]
    return np.shape(N(x))


def run(case, forms):
    xp = XPS[case["xp"]]
    r = rnd(case["seed"])
    data = {"z": np.array(case["z"]), "nz": r.uniform(0.2, 1.0, size=4), "delta": r.uniform(-0.6, 0.6, size=12), "other": r.normal(size=12)}
    args = [given(xp, v, f) for v, f in zip(case["values"], forms)]
    keep = [N(a) for a in args]
    out = TABLE[case["function"]][0](case, lambda k: F(xp, data[k]), Scripted(case["seed"]), *args)
    for a, k in zip(args, keep):
        equal(N(a), k, "argument after the call")
    return out


@sub("C39", strategy=cases, rule="at least one parameter is given as a number and there is a result", quick=500, shards=2)
def forms(case):
    """For the same random variates, the values are those for arrays of one entry, whichever way each parameter is given; numbers and zero-dimensional arrays give the same shapes."""
    out = run(case, case["forms"])
    whole = [("zero-dim" if case["function"] == "add_plane" else "one") for _ in case["forms"]]
    ref = run(case, whole)
    a, b = values(out), values(ref)
    assert len(a) == len(b), f"{len(a)} results, {len(b)} for arrays"
    for i, (u, v) in enumerate(zip(a, b)):
        assert u.dtype.kind == v.dtype.kind, f"{case['function']}: result {i} of type {u.dtype}, for arrays {v.dtype}"
        close(u, v, f"{case['function']}: result {i} for {case['forms']}", rtol=1e-12, atol=1e-14)
    if any(f in ("number", "scalar", "int") for f in case["forms"]):
        dims = run(case, ["zero-dim" if f in ("number", "scalar", "int") else f for f in case["forms"]])
        s, t = shapes(out), shapes(dims)
        assert s == t, f"{case['function']}: shapes {s} for numbers, {t} for zero-dimensional arrays"
    return any(f in ("number", "scalar", "int") for f in case["forms"]) and any(v.size for v in a)


@sub("C39", strategy=lambda: st.tuples(*(cases(name, st.sampled_from(["np", "np", "strict"])) for name in sorted(TABLE))), rule="some parameters are numbers", quick=40, thorough=800, shards=2)
def every(case):
    """The same, for all functions in turn."""
    return sum(forms(c) for c in case) > 5
