"""C16: potential, deflection and shear from the convergence."""

import healpy
import numpy as np
from hypothesis import strategies as st

import glass
from vf import hpdata
from vf.be import F, N, XPS, backend, check_ns, close, equal, rnd, seeds
from vf.core import sub

WEIGHTS = 0.002


def filters(lmax, discretized, nside):
    """Factors from convergence to potential, deflection and shear modes, from the documented relations."""
    ell = np.arange(lmax + 1.0)
    psi = np.zeros(lmax + 1)
    psi[1:] = -2 / (ell[1:] * (ell[1:] + 1))
    alpha = np.sqrt(ell * (ell + 1)) * psi
    gamma = 0.5 * np.sqrt(np.maximum((ell + 2) * (ell + 1) * ell * (ell - 1), 0)) * psi
    if discretized:
        pt, pp = hpdata.window(nside)
        gamma = gamma * pp[: lmax + 1] / pt[: lmax + 1]
    return psi, alpha, gamma


def maps(alm, nside, lmax, fs, on):
    """Transforms of filtered modes with those of the spins 0, 1, 2 which are wanted."""
    ell, _ = healpy.Alm.getlm(lmax)
    out = [healpy.alm2map(alm * fs[0][ell], nside, lmax=lmax)] if on[0] else []
    for s in (1, 2):
        if not on[s]:
            continue
        if lmax < s:  # no modes below the spin
            out.append(np.zeros(12 * nside**2, dtype=complex))
            continue
        a = alm * fs[s][ell]
        m = healpy.alm2map_spin([a, np.zeros_like(a)], nside, s, lmax)
        out.append(m[0] + 1j * m[1])
    return out


@st.composite
def cases(draw, jaxw=1):
    nside = draw(st.sampled_from([1, 2, 2, 4, 4, 8, 1, 2, 2, 4, 4, 8, 16, 32]))
    return {
        "xp": draw(backend(12, 5, jaxw)),
        "nside": nside,
        "lmax": draw(st.one_of(st.none(), st.integers(0, 4 * nside - 1), st.sampled_from([0, 1]))),
        "want": [draw(st.booleans()), draw(st.booleans()), draw(st.booleans())],
        "disc": draw(st.sampled_from([None, True, False])),
        "seed": draw(seeds),
        "kind": draw(st.sampled_from(["noise", "spike", "const"])),
    }


def call(case, xp, m):
    kw = dict(zip(("potential", "deflection", "shear"), case["want"]))
    if case["disc"] is not None:
        kw["discretized"] = case["disc"]
    if case["lmax"] is not None:
        kw["lmax"] = case["lmax"]
    kappa = F(xp, m)
    out = glass.from_convergence(kappa, **kw)
    equal(N(kappa), m, "map after the call")
    assert isinstance(out, tuple) and len(out) == sum(case["want"]), f"{len(out)} results for {kw}"
    for o in out:
        check_ns(o, xp)
        assert o.shape == m.shape, o.shape
    return [N(o) for o in out]


@sub("C16", strategy=cases, rule="at least two outputs are requested, or the shear", quick=300, shards=4)
def exact(case):
    """Maps agree to rounding with filtering the modes of the map, for all combinations of outputs."""
    xp = XPS[case["xp"]]
    nside = case["nside"]
    lmax = 3 * nside - 1 if case["lmax"] is None else case["lmax"]
    r = rnd(case["seed"])
    m = r.normal(size=12 * nside**2)
    if case["kind"] == "spike":
        m = np.where(np.arange(m.size) == r.integers(m.size), 1.0, 0.0)
    elif case["kind"] == "const":
        m = np.full(m.size, 1.5)
    with hpdata.datapath(WEIGHTS) as d:
        got = call(case, xp, m)
        alm = healpy.map2alm(m, lmax=lmax, pol=False, use_pixel_weights=True, datapath=d)
    want = maps(alm, nside, lmax, filters(lmax, case["disc"] is not False, nside), case["want"])
    for g, w, name in zip(got, want, [n for n, on in zip(("potential", "deflection", "shear"), case["want"]) if on]):
        assert np.iscomplexobj(g) == (name != "potential"), f"{name} has type {g.dtype}"
        close(g, w, name, rtol=0, atol=1e-9 * (1 + np.abs(alm).max()))
    return sum(case["want"]) >= 2 or case["want"][2]


@sub("C16", strategy=cases, rule="at least one output is requested", quick=120, shards=4)
def band_limited(case):
    """A map synthesised from random modes up to lmax <= nside gives the fields synthesised from the filtered modes, whatever is added to the monopole, and scales linearly."""
    xp = XPS[case["xp"]]
    nside = max(case["nside"], 2)
    lmax = min(nside if case["lmax"] is None else case["lmax"], nside)
    case = {**case, "lmax": lmax, "nside": nside}
    r = rnd(case["seed"])
    n = (lmax + 1) * (lmax + 2) // 2
    alm = r.normal(size=n) + 1j * r.normal(size=n)
    alm[: lmax + 1] = alm[: lmax + 1].real
    m = healpy.alm2map(alm, nside, lmax=lmax)
    fs = filters(lmax, case["disc"] is not False, nside)
    with hpdata.datapath():
        got = call(case, xp, m)
        shifted = call(case, xp, 2.0 * m + 3.0)
        ones = call(case, xp, np.ones(m.size))
    want = maps(alm, nside, lmax, fs, case["want"])
    for g, s, o, w in zip(got, shifted, ones, want):
        # the transform of healpy is approximate at the per cent level for these resolutions
        tol = 0.08 * np.abs(alm).max()
        close(g, w, "field from modes", rtol=0, atol=tol)
        close(s, 2 * g + 3 * o, "field of scaled and shifted map", rtol=0, atol=1e-10 * (1 + np.abs(alm).max()))
        close(o, np.zeros(o.shape), "field of a constant", rtol=0, atol=0.08)
    return any(case["want"])


@sub("C16", strategy=lambda: cases(0), rule="always", quick=80, shards=4)
def deprecated(case):
    """shear_from_convergence gives both components of the same shear."""
    nside = case["nside"]
    m = rnd(case["seed"]).normal(size=12 * nside**2)
    kw = {} if case["lmax"] is None else {"lmax": case["lmax"]}
    if case["disc"] is not None:
        kw["discretized"] = case["disc"]
    m0 = m.copy()
    with hpdata.datapath(WEIGHTS):
        a = glass.shear_from_convergence(m, **kw)
        (g,) = glass.from_convergence(m, shear=True, **kw)
    equal(m, m0, "map after the call")
    close(np.asarray(a[0]) + 1j * np.asarray(a[1]), g, "deprecated shear", rtol=0, atol=1e-9 * (1 + np.abs(g).max()))
    return True
