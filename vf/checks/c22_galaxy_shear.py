"""C22: galaxy shears."""

import healpix
import numpy as np
from hypothesis import strategies as st

import glass
from vf.be import F, N, XPS, backend, check_ns, close, equal, rnd, same, seeds
from vf.core import sub


@st.composite
def cases(draw, jaxw=1):
    x = draw(backend(14, 6, jaxw))
    n = draw(st.one_of(st.sampled_from([0, 1, 2, 50]), st.integers(1, 300), st.sampled_from([9999, 10000, 10001, 20005, 31000])))
    if x == "jax":
        n = draw(st.sampled_from([5, 10001]))
    return {
        "xp": x,
        "n": n,
        "nside": draw(st.sampled_from([1, 2, 4, 16, 1, 2, 4, 16, 64, 256])) if x != "jax" else 2,
        "reduced": draw(st.sampled_from([None, True, False])),
        "field": draw(st.sampled_from(["weak", "strong", "zero", "kappa", "gamma1", "gamma2", "dense"])),
        "eps": draw(st.sampled_from(["random", "random", "zero", "large"])),
        "pos": draw(st.sampled_from(["any", "any", "wrap", "poles"])),
        "seed": draw(seeds),
    }


def inputs(case, r):
    n, npix = case["n"], 12 * case["nside"] ** 2
    lon, lat = r.uniform(-180, 180, n), np.degrees(np.arcsin(r.uniform(-1, 1, n)))
    if case["pos"] == "wrap":
        lon = lon + 360.0 * r.integers(-1, 2, n)
    elif case["pos"] == "poles" and n:
        lat = np.where(r.random(n) < 0.3, r.choice([-90.0, 90.0], n), lat)
    s = {"strong": 0.5, "zero": 0.0}.get(case["field"], 0.02)
    k, g1, g2 = r.normal(0, 1, (3, npix)).clip(-1.8, 1.8) * s
    if case["field"] == "dense":
        k = np.where(r.random(npix) < 0.5, 1.5 + 40 * np.abs(k), k)
    if case["field"] in ("kappa", "gamma1", "gamma2"):
        g1, g2, k = (g1 * (case["field"] == "gamma1"), g2 * (case["field"] == "gamma2"), k * (case["field"] == "kappa"))
    e = np.sqrt(r.random(n)) * np.exp(2j * np.pi * r.random(n)) * (0.99 if case["eps"] == "large" else 0.4)
    if case["eps"] == "zero":
        e = e * 0
    return lon, lat, e, k, g1, g2


@sub("C22", strategy=cases, rule="at least two galaxies and non-zero fields", quick=400, shards=4)
def exact(case):
    """Each galaxy has the lensed ellipticity of its own pixel, for catalogues of any length."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    data = inputs(case, r)
    lon, lat, e, k, g1, g2 = data
    args = [xp.asarray(v.copy()) for v in data]
    kw = {} if case["reduced"] is None else {"reduced_shear": case["reduced"]}
    out = glass.galaxy_shear(*args, **kw)
    check_ns(out, xp)
    for name, a, v in zip(("lon", "lat", "eps", "kappa", "gamma1", "gamma2"), args, data):
        equal(N(a), v, f"{name} after the call")
    p = healpix.ang2pix(case["nside"], lon, lat, lonlat=True) if case["n"] else np.zeros(0, dtype=int)
    g = g1[p] + 1j * g2[p]
    if case["reduced"] is False:
        want = e + g
    else:
        g = g / (1 - k[p])
        want = (e + g) / (1 + np.conj(g) * e)
    got = N(out)
    assert got.shape == (case["n"],) and np.iscomplexobj(got), (got.shape, got.dtype)
    close(got, want, "shear", rtol=1e-9, atol=1e-12)
    if case["field"] not in ("strong",) and case["reduced"] is not False:
        assert np.all(np.abs(got) < 1), "modulus of one or more"
    if case["field"] == "zero":
        close(got, e, "ellipticity without lensing", rtol=0, atol=1e-15)
    return case["n"] >= 2 and case["field"] != "zero"


@sub("C22", strategy=lambda: cases(0), rule="at least two galaxies and non-zero fields", quick=200, shards=2)
def order(case):
    """Permuting the catalogue permutes the result, and parts give the parts of the result."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    lon, lat, e, k, g1, g2 = inputs(case, r)
    kw = {} if case["reduced"] is None else {"reduced_shear": case["reduced"]}

    def run(i):
        return N(glass.galaxy_shear(*(xp.asarray(v[i].copy()) for v in (lon, lat, e)), *(F(xp, v) for v in (k, g1, g2)), **kw))

    whole = run(np.arange(case["n"]))
    i = r.permutation(case["n"])
    same(run(i), whole[i], "permuted catalogue")
    m = case["n"] // 3
    same(run(np.arange(m)), whole[:m], "first part")
    same(run(np.arange(m, case["n"])), whole[m:], "second part")
    return case["n"] >= 2 and case["field"] != "zero"
