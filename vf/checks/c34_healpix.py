"""C34: HEALPix and harmonic wrappers."""

import math
import os

import healpix
import healpy
import numpy as np
from hypothesis import strategies as st
from scipy.special import gammaln, lpmv

import glass.harmonics
import glass.healpix as hp
from glass._array_api_utils import numpy_fallback
from vf import hpdata
from vf.be import A, F, N, XPS, backend, check_ns, close, equal, raises, rnd, seeds
from vf.core import sub
from vf.rec import Scripted
from vf.stats import generator, uniform


def degrees(lmax):
    """Degree and order of each mode in HEALPix order."""
    lm = [(ell, m) for m in range(lmax + 1) for ell in range(m, lmax + 1)]
    return np.array([a for a, _ in lm]), np.array([b for _, b in lm])


def modes(r, lmax):
    ell, m = degrees(lmax)
    a = r.normal(size=ell.size) + 1j * r.normal(size=ell.size)
    a[m == 0] = a[m == 0].real
    return a


@st.composite
def harmonic(draw):
    return {
        "xp": draw(backend(6, 4, 2)),
        "lmax": draw(st.sampled_from([5, 0, 1, 2, 8])),
        "nfl": draw(st.integers(0, 12)),
        "cplx": draw(st.booleans()),
        "inplace": draw(st.booleans()),
        "nside": draw(st.sampled_from([1, 2, 4, 8])),
        "pol": draw(st.booleans()),
        "many": draw(st.sampled_from(["one", "one", "list", "tuple", "array"])),
        "spin": draw(st.integers(1, 3)),
        "cut": draw(st.booleans()),
        "weights": draw(st.booleans()),
        "seed": draw(seeds),
    }


@sub("C34", strategy=harmonic, rule="at least one mode of degree one", quick=500)
def filters(case):
    """Filters multiply exactly the modes of each degree, in HEALPix order with zero where the filter is not defined, in GLASS order for as many values as degrees; in place only when asked."""
    xp, r, lmax = XPS[case["xp"]], rnd(case["seed"]), case["lmax"]
    ell, m = degrees(lmax)
    a, fl = modes(r, lmax), r.normal(size=case["nfl"]) + 0.0
    if case["cplx"]:
        fl = fl * np.exp(1j * r.normal(size=fl.size))
    alm, f = A(xp, a), A(xp, fl)
    out = hp.almxfl(alm, f, inplace=case["inplace"] and case["xp"] != "jax")
    check_ns(out, xp)
    full = np.concatenate([fl, np.zeros(lmax + 1)])
    close(N(out), a * full[ell], "filtered modes", rtol=1e-14)
    equal(N(f), fl, "filter after the call")
    if not case["inplace"] or case["xp"] == "jax":
        equal(N(alm), a, "modes after the call")
    elif case["xp"] == "np":
        close(alm, a * full[ell], "modes after the call in place", rtol=1e-14)
    # GLASS order: by degree
    lg = np.repeat(np.arange(lmax + 1), np.arange(lmax + 1) + 1)
    b, bl = r.normal(size=lg.size) + 1j * r.normal(size=lg.size), r.normal(size=lmax + 1)
    alm, f = A(xp, b), A(xp, bl)
    out = glass.harmonics.multalm(alm, f)
    check_ns(out, xp)
    equal(N(alm), b, "modes after the call")
    equal(N(f), bl, "filter after the call")
    close(N(out), b * bl[lg], "filtered modes", rtol=1e-14)
    return lmax >= 1


@sub("C34", strategy=lambda: st.fixed_dictionaries({"xp": backend(4, 1, 1), "lmax": st.one_of(st.integers(100, 1500), st.sampled_from([127, 128, 255, 256, 511, 512, 1023, 1024])), "short": st.integers(0, 50), "seed": seeds}), rule="more than 32768 modes", quick=60)
def large_filters(case):
    """Filters for many degrees: the same exact multiplication in both orders, with values of any magnitude and in the precision of the modes."""
    xp, r, lmax = XPS[case["xp"]], rnd(case["seed"]), case["lmax"]
    lg = np.repeat(np.arange(lmax + 1), np.arange(lmax + 1) + 1)
    b, bl = r.normal(size=lg.size) + 1j * r.normal(size=lg.size), r.normal(size=lmax + 1) * np.exp(r.uniform(-40, 40, size=lmax + 1))
    out = glass.harmonics.multalm(A(xp, b), A(xp, bl))
    close(N(out), b * bl[lg], "filtered modes in GLASS order", rtol=1e-14)
    ell = np.concatenate([np.arange(k, lmax + 1) for k in range(lmax + 1)])
    fl = bl[: bl.size - case["short"]]
    full = np.concatenate([fl, np.zeros(lmax + 1)])
    close(N(hp.almxfl(A(xp, b), A(xp, fl))), b * full[ell], "filtered modes in HEALPix order", rtol=1e-14)
    return lg.size > 32768


def ylm(ell, m, theta, phi):
    """Spherical harmonic with the Condon-Shortley phase."""
    c = math.sqrt((2 * ell + 1) / (4 * math.pi) * math.exp(gammaln(ell - m + 1) - gammaln(ell + m + 1)))
    return c * lpmv(m, ell, np.cos(theta)) * np.exp(1j * m * phi)


@sub("C34", strategy=harmonic, rule="at least one mode of degree one", quick=300, shards=2)
def synthesis(case):
    """Maps are the sums of spherical harmonics at the centres of the pixels; sets of modes give the same as the HEALPix library in every form of input."""
    xp, r, lmax, nside = XPS[case["xp"]], rnd(case["seed"]), case["lmax"], case["nside"]
    if case["pol"] and case["many"] != "one":
        lmax = max(lmax, 2)  # modes of spin two
    ell, m = degrees(lmax)
    npix = 12 * nside**2
    theta, phi = healpy.pix2ang(nside, np.arange(npix))
    kw = {"lmax": lmax} if case["cut"] else {}
    if case["many"] == "one":
        a = modes(r, lmax)
        want = np.zeros(npix)
        for c, p, q in zip(a, ell, m):
            want += (1 if q == 0 else 2) * (c * ylm(p, q, theta, phi)).real
        alm = A(xp, a)
        out = hp.alm2map(alm, nside, pol=case["pol"], **kw)
        check_ns(out, xp)
        equal(N(alm), a, "modes after the call")
        close(N(out), want, "map", rtol=1e-9, atol=1e-9)
    else:
        k = 3 if case["pol"] else 2 + case["seed"] % 2
        a = np.array([modes(r, lmax) for _ in range(k)])
        alm = A(xp, a) if case["many"] == "array" else [A(xp, v) for v in a]
        if case["many"] == "tuple":
            alm = tuple(alm)
        out = hp.alm2map(alm, nside, pol=case["pol"], **kw)
        want = healpy.alm2map(a, nside, pol=case["pol"])
        if case["many"] != "array":
            for v in alm:
                check_ns(v, xp)
        equal(np.stack([N(v) for v in alm]) if case["many"] != "array" else N(alm), a, "modes after the call")
        res = np.stack([N(v) for v in out]) if isinstance(out, (list, tuple)) else N(out)
        close(res, np.array(want), "maps", rtol=1e-9, atol=1e-9)
    nside, lm = max(nside, 2), lmax
    a = np.array([modes(r, lm) for _ in range(2)])
    out = hp.alm2map_spin([A(xp, v) for v in a], nside, case["spin"], lm)
    assert isinstance(out, list) and len(out) == 2, f"{type(out)}"
    # no modes below the spin
    for v, w in zip(out, healpy.alm2map_spin(list(a), nside, case["spin"], lm) if lm >= case["spin"] else np.zeros((2, 12 * nside**2))):
        check_ns(v, xp)
        close(N(v), w, "spin map", rtol=1e-9, atol=1e-9)
    return lmax >= 1


@sub("C34", strategy=harmonic, rule="at least one mode of degree one", quick=300, shards=2)
def analysis(case):
    """Modes of maps are those of the HEALPix library for the same maximum degree, polarisation and pixel weights, and recover the modes of band-limited maps; windows are those of the data files."""
    xp, r, lmax, nside = XPS[case["xp"]], rnd(case["seed"]), case["lmax"], case["nside"]
    if case["pol"] and case["many"] != "one":
        lmax = max(lmax, 2)  # modes of spin two
    npix = 12 * nside**2
    k = 1 if case["many"] == "one" else 3
    maps = r.normal(size=(k, npix))
    kw = {"lmax": lmax} if case["cut"] else {}
    with hpdata.datapath(weights=0.1) as d:
        given = A(xp, maps[0]) if k == 1 else A(xp, maps) if case["many"] == "array" else [A(xp, v) for v in maps]
        kw |= {"pol": case["pol"], "use_pixel_weights": case["weights"]}
        out = hp.map2alm(given, **kw)
        want = healpy.map2alm(maps[0] if k == 1 else list(maps), datapath=d, **kw)
        res = np.stack([N(v) for v in out]) if isinstance(out, (list, tuple)) else N(out)
        close(res, np.array(want), "modes", rtol=1e-9, atol=1e-12)
        equal(np.stack([N(v) for v in given]) if isinstance(given, list) else N(given), maps if k > 1 else maps[0], "maps after the call")
        for v in out if isinstance(out, (list, tuple)) else [out]:
            check_ns(v, xp)
        kw = {"lmax": lmax} if case["cut"] else {}
        w = hp.pixwin(nside, pol=case["pol"], xp=xp, **kw)
        pt, pp = hpdata.window(nside)
        cut = slice(lmax + 1) if case["cut"] else slice(3 * nside)
        for v, ref in zip(w if case["pol"] else [w], (pt, pp)):
            check_ns(v, xp)
            close(N(v), ref[cut], "pixel window", rtol=1e-6)
        assert isinstance(w, tuple) == case["pol"], f"pixel windows: {type(w)}"
    if nside >= 4 and lmax <= 2 * nside:
        a = modes(r, lmax)
        m = hp.alm2map(A(xp, a), nside, pol=False)
        b = hp.map2alm(m, lmax=lmax, pol=False)
        close(N(b), a, "modes of a band-limited map", rtol=0, atol=3e-2 * np.abs(a).max())
    old = os.environ.get("HEALPY_DATAPATH")
    try:
        os.environ["HEALPY_DATAPATH"] = "/nonexistent/verif"
        raises(ValueError, lambda: hp.pixwin(nside, xp=xp), "missing directory of data files")
        raises(ValueError, lambda: hp.map2alm(A(xp, maps[0])), "missing directory of data files")
    finally:
        if old is None:
            del os.environ["HEALPY_DATAPATH"]
        else:
            os.environ["HEALPY_DATAPATH"] = old
    return lmax >= 1


@st.composite
def angles(draw):
    return {
        "xp": draw(backend(6, 4, 2)),
        "nside": draw(st.sampled_from([4, 1, 2, 3, 7, 32, 1024, 2**20])),
        "shape": draw(st.sampled_from([[5], [], [2, 3], [1], [0]])),
        "scalar": draw(st.booleans()),
        "lonlat": draw(st.booleans()),
        "rng": draw(st.sampled_from(["scripted", "none", "real"])),
        "seed": draw(seeds),
    }


@sub("C34", strategy=angles, rule="at least two positions", quick=500)
def positions(case):
    """Pixel numbers, vectors and random positions in pixels belong to the directions given, for numbers and arrays of any shape, in radians or degrees."""
    xp, r, nside = XPS[case["xp"]], rnd(case["seed"]), case["nside"]
    assert hp.nside2npix(nside) == 12 * nside**2 and type(hp.nside2npix(nside)) is int, "number of pixels"
    assert hp.npix2nside(12 * nside**2) == nside and type(hp.npix2nside(12 * nside**2)) is int, "resolution"
    shape = tuple(case["shape"])
    lon, z = r.uniform(0, 360, size=shape), r.uniform(-1, 1, size=shape)
    if z.size:
        z.flat[0] = r.choice([1.0, -1.0, 0.1])
    lat = np.degrees(np.arcsin(z))
    args = (lon, lat) if case["lonlat"] else (np.radians(90 - lat), np.radians(lon))
    plain = case["scalar"] and not shape
    given = tuple(float(a) if plain else F(xp, a) for a in args)
    pix = hp.ang2pix(nside, *given, lonlat=case["lonlat"])
    vec = hp.ang2vec(*given, lonlat=case["lonlat"])
    for g, a in zip(given, args):
        equal(N(g), a, "angles after the call")
    if not plain and shape:
        check_ns(pix, xp, "pixel numbers")
        for v in vec:
            check_ns(v, xp, "vector")
    p = N(pix)
    assert p.shape == shape and p.dtype.kind == "i", f"pixels of shape {p.shape} and type {p.dtype}"
    equal(p, healpy.ang2pix(nside, lon, lat, lonlat=True) if z.size else p, "pixel numbers")
    assert np.all((p >= 0) & (p < 12 * nside**2)), "pixel number out of range"
    assert isinstance(vec, tuple) and len(vec) == 3, "three coordinates"
    s = np.cos(np.radians(lat))
    for v, w in zip(vec, (s * np.cos(np.radians(lon)), s * np.sin(np.radians(lon)), np.sin(np.radians(lat)))):
        close(N(v), w, "coordinate", rtol=0, atol=1e-12)
    # random positions
    if shape:
        rng = {"scripted": Scripted(case["seed"]), "none": None, "real": generator(case)}[case["rng"]]
        ipix = xp.asarray(p)
        ang = hp.randang(nside, ipix, lonlat=case["lonlat"], rng=rng)
        assert isinstance(ang, tuple) and len(ang) == 2, "two coordinates"
        equal(N(ipix), p, "pixels after the call")
        for v in ang:
            check_ns(v, xp, "angle")
            assert N(v).shape == shape, f"shape {N(v).shape} of angles for pixels {shape}"
        if p.size and nside <= 1024:
            equal(healpy.ang2pix(nside, N(ang[0]), N(ang[1]), lonlat=case["lonlat"]), p, "pixels of the random positions")
            if case["rng"] == "none":
                again = hp.randang(nside, ipix, lonlat=case["lonlat"])
                equal(N(again[0]), N(ang[0]), "positions with the default generator")
        if case["rng"] == "scripted" and p.size:
            u = np.concatenate([np.ravel(e[1]) for e in rng.log])
            assert u.size == 2 * p.size, f"{u.size} variates for {p.size} positions"
            us = [u[: p.size].reshape(shape), u[p.size :].reshape(shape)]
            ok = []
            for a, b in (us, us[::-1]):
                t, f = np.array(healpix._chp.ring2ang_uv(nside, p, a, b)) if not case["lonlat"] else lonlat_of(healpix._chp.ring2ang_uv(nside, p, a, b))
                ok.append(np.allclose(t, N(ang[0]), rtol=0, atol=1e-9) and np.allclose(f, N(ang[1]), rtol=0, atol=1e-9))
            assert any(ok), "positions do not belong to the variates drawn"
    return p.size > 1


def lonlat_of(x):
    th, ph = x
    return np.degrees(ph), 90 - np.degrees(th)


@sub("C34", strategy=lambda: st.fixed_dictionaries({"xp": backend(4, 3, 2), "nside": st.sampled_from([2, 4, 16]), "lonlat": st.booleans(), "seed": seeds}), rule="always", quick=30, thorough=600)
def within_pixels(case):
    """Thousands of random positions cover a pixel evenly."""
    nside, xp = case["nside"], XPS[case["xp"]]
    i = rnd(case["seed"]).integers(12 * nside**2)
    ang = hp.randang(nside, xp.asarray(np.full(3000, i)), lonlat=case["lonlat"], rng=generator(case))
    lon, lat = (N(v) for v in ang)
    th, ph = (np.radians(90 - lat), np.radians(lon)) if case["lonlat"] else (lon, lat)
    ip, u, v = healpix._chp.ang2ring_uv(nside, th, ph)
    equal(ip, np.full(3000, i), "pixel")
    uniform(np.clip(u, 0, 1), "first coordinate within the pixel")
    uniform(np.clip(v, 0, 1), "second coordinate within the pixel")
    return True


@st.composite
def mapping(draw):
    return {
        "xp": draw(backend(6, 4, 2)),
        "nside": draw(st.sampled_from([4, 1, 2, 8, 16])),
        "coord": draw(st.sampled_from(["GC", "CE", "GE", "CG", "EG", "C", None])),
        "form": draw(st.sampled_from(["str", "list"])),
        "many": draw(st.sampled_from(["one", "one", "three"])),
        "cuts": draw(st.tuples(st.integers(0, 100), st.integers(0, 100))),
        "dtype": draw(st.sampled_from([None, "int64", "float64", "int32", "float32", "bool"])),
        "default": draw(st.booleans()),
        "seed": draw(seeds),
    }


@sub("C34", strategy=mapping, rule="more than twelve pixels", quick=400)
def maps(case):
    """Strips contain exactly the pixels between the colatitudes, of the type asked for; maps are rotated into the other frame by interpolation at the rotated positions of the pixels; the resolution of maps is recognised."""
    from vf.checks.c27_visibility import rotated

    xp, r, nside = XPS[case["xp"]], rnd(case["seed"]), case["nside"]
    npix = 12 * nside**2
    th = healpy.pix2ang(nside, np.arange(npix))[0]
    a, b = (math.pi * (c + 0.37) / 101 for c in case["cuts"])
    kw = {} if case["dtype"] is None else {"dtype": getattr(xp, case["dtype"], None) or xp.bool}
    if not (case["xp"] == "np" and case["default"]):
        kw["xp"] = xp
    out = hp.query_strip(nside, (a, b), **kw)
    check_ns(out, xp)
    if a != b:
        want = (th > a) & (th < b) if a < b else (th > a) | (th < b)
        equal(N(out).astype(float), want.astype(float), f"strip from {a} to {b}")
    assert N(out).shape == (npix,) and str(N(out).dtype) == (case["dtype"] or "int64"), f"strip of type {out.dtype}"
    m = r.normal(size=npix)
    x = F(xp, m)
    ns_ = hp.get_nside(x)
    assert ns_ == nside and type(ns_) is int, f"resolution {ns_}"
    c = case["coord"] if case["form"] == "str" or case["coord"] is None else list(case["coord"])
    rot = hp.Rotator(coord=c)
    y = rot.rotate_map_pixel(x)
    check_ns(y, xp)
    equal(N(x), m, "map after the call")
    if case["coord"] in (None, "C"):
        close(N(y), m, "map which is not rotated", rtol=1e-9, atol=1e-9)
    else:
        close(N(y), rotated(m, np.array(healpy.Rotator(coord=case["coord"]).mat)), "rotated map", rtol=0, atol=1e-9)
    if case["many"] == "three":
        t = r.normal(size=(3, npix))
        y = rot.rotate_map_pixel(F(xp, t))
        res = np.stack([N(v) for v in y]) if isinstance(y, (list, tuple)) else N(y)
        close(res, np.array(healpy.Rotator(coord=c).rotate_map_pixel(t)), "rotated maps", rtol=1e-9, atol=1e-9)
    return npix > 12


@st.composite
def numbers(draw):
    near = st.tuples(st.sampled_from([1, 2, 3, 4, 8, 16]), st.integers(-4, 4)).map(lambda t: 12 * t[0] ** 2 + t[1])
    return {"xp": draw(backend(4, 3, 2)), "n": draw(st.one_of(near, st.integers(0, 400))), "lead": draw(st.sampled_from([0, 0, 1, 2]))}


def outcome(fn):
    try:
        x = fn()
    except Exception as e:  # noqa: BLE001
        return type(e).__name__
    assert type(x) is int, f"resolution of type {type(x)}"
    return x


@sub("C34", strategy=numbers, rule="not the size of a map", quick=300)
def sizes(case):
    """Sizes that are not those of a map are treated as the HEALPix library does: never taken for another size."""
    xp, n = XPS[case["xp"]], case["n"]
    shape = (case["lead"], n) if case["lead"] else (n,)
    want = outcome(lambda: int(healpy.get_nside(np.zeros(shape))))
    got = outcome(lambda: hp.get_nside(xp.zeros(shape)))
    assert got == want, f"resolution of an array of shape {shape}: {got} instead of {want}"
    got, want = outcome(lambda: hp.npix2nside(n)), outcome(lambda: int(healpix.npix2nside(n)))
    assert got == want, f"resolution of {n} pixels: {got} instead of {want}"
    if isinstance(want, int) and want > 0:
        assert hp.nside2npix(want) == n, f"{n} pixels"
        return False
    return True


@st.composite
def nested(draw):
    leaf = st.sampled_from(["array", "number", "text", "none", "array"])
    tree = st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=3).map(lambda v: ["list", *v]), st.lists(c, max_size=3).map(lambda v: ["tuple", *v]), st.lists(c, max_size=2).map(lambda v: ["dict", *v])), max_leaves=6)
    return {"xp": draw(backend(2, 3, 2)), "args": draw(st.lists(tree, max_size=3)), "kwargs": draw(st.lists(tree, max_size=2)), "seed": draw(seeds)}


@sub("C34", strategy=nested, rule="arrays inside of containers", quick=400)
def fallback(case):
    """Functions run with NumPy arrays see plain NumPy copies of all arrays, however nested, everything else as it is, and their results come back in the caller's library in the same structure."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    count = [0]

    def build(t):
        if isinstance(t, str):
            if t == "array":
                count[0] += 1
                return F(xp, r.normal(size=2))
            return {"number": 3.5, "text": "text", "none": None}[t]
        kind, *rest = t
        v = [build(s) for s in rest]
        return v if kind == "list" else tuple(v) if kind == "tuple" else {f"k{i}": s for i, s in enumerate(v)}

    def same(a, b, arrays):
        if hasattr(a, "__array_namespace__"):
            assert arrays(b), f"not an array of the right library: {type(b)}"
            equal(N(a), N(b), "array")
        elif isinstance(a, (list, tuple)):
            assert type(a) is type(b) and len(a) == len(b), f"{a} became {b}"
            for s, t in zip(a, b):
                same(s, t, arrays)
        elif isinstance(a, dict):
            assert isinstance(b, dict) and list(a) == list(b), f"{a} became {b}"
            for k in a:
                same(a[k], b[k], arrays)
        else:
            assert a == b and type(a) is type(b), f"{a} became {b}"

    args, kwargs = [build(t) for t in case["args"]], {f"kw{i}": build(t) for i, t in enumerate(case["kwargs"])}
    seen = {}

    @numpy_fallback
    def function(*a, **k):
        """The documentation."""
        seen["a"], seen["k"] = a, k
        return list(a), k, (len(a), "x")

    out = function(*args, **kwargs)
    assert function.__doc__ == "The documentation." and function.__name__ == "function", "name or documentation of the function"
    same(list(args), list(seen["a"]), lambda v: isinstance(v, np.ndarray))
    same(kwargs, seen["k"], lambda v: isinstance(v, np.ndarray))
    assert isinstance(out, tuple) and len(out) == 3, f"result {out}"
    same(list(args), out[0], lambda v: hasattr(v, "__array_namespace__") and v.__array_namespace__().__name__ == xp.__name__)
    same(kwargs, out[1], lambda v: hasattr(v, "__array_namespace__") and v.__array_namespace__().__name__ == xp.__name__)
    assert out[2] == (len(args), "x"), f"result {out}"
    return count[0] > 0
