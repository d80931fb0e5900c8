"""C27: the galactic-ecliptic visibility map."""

import healpy
import numpy as np
from hypothesis import strategies as st

import glass
from vf.be import N, XPS, backend, check_ns, close, equal, raises, rnd, seeds
from vf.core import sub

# rotation matrices between the frames of unit vectors
GC = np.array(healpy.Rotator(coord="GC").mat)
CE = np.array(healpy.Rotator(coord="CE").mat)


def rotated(m, mat):
    """Map in the new frame: interpolated at the directions rotated back into the old frame."""
    nside = healpy.npix2nside(m.size)
    v = np.array(healpy.pix2vec(nside, np.arange(m.size)))
    x, y, z = mat.T @ v
    return healpy.get_interp_val(m, np.arctan2(np.hypot(x, y), z), np.arctan2(y, x))


def strip(nside, band):
    """Pixels with centres inside of the band; bands which decrease contain both polar caps."""
    th = healpy.pix2ang(nside, np.arange(12 * nside**2))[0]
    a, b = band
    return (th > a) & (th < b) if a < b else (th > a) | (th < b)


@st.composite
def bands(draw, nside):
    """Colatitudes in radians, at a distance from the centres of pixels."""
    rings = np.unique(np.round(healpy.pix2ang(nside, np.arange(12 * nside**2))[0], 9))
    cuts = [0.0, *((rings[1:] + rings[:-1]) / 2).tolist(), float(np.pi)]
    i = draw(st.integers(0, len(cuts) - 1))
    j = draw(st.integers(0, len(cuts) - 1))
    if i == j:
        i, j = 0, len(cuts) - 1
    if draw(st.integers(0, 3)):
        i, j = min(i, j), max(i, j)
    return [cuts[i], cuts[j]]


@st.composite
def cases(draw):
    nside = draw(st.sampled_from([4, 8, 2, 16, 1, 32, 4, 8, 2, 16, 1, 64]))
    return {
        "xp": draw(backend(8, 4, 2)),
        "nside": nside,
        "galactic": draw(st.one_of(bands(nside), st.none())),
        "ecliptic": draw(st.one_of(bands(nside), st.none())),
        "wider": draw(bands(nside)),
        "default_xp": draw(st.booleans()),
        "type": draw(st.sampled_from(["tuple", "list"])),
        "bad": draw(st.sampled_from([[], [1.0], [1.0, 2.0, 3.0]])),
        "which": draw(st.sampled_from(["galactic", "ecliptic"])),
    }


def call(case, **bands):
    xp = XPS[case["xp"]]
    kw = {k: (tuple(v) if case["type"] == "tuple" else list(v)) for k, v in bands.items() if v is not None}
    if not (case["xp"] == "np" and case["default_xp"]):
        kw["xp"] = xp
    out = glass.vmap_galactic_ecliptic(case["nside"], **kw)
    check_ns(out, xp)
    return N(out)


@sub("C27", strategy=cases, rule="at least one band was given", quick=500, shards=2)
def exact(case):
    """The map has one value for every pixel: ones without the first band, rotated from galactic to celestial coordinates, without the second band, rotated from celestial to ecliptic coordinates."""
    n, g, e = case["nside"], case["galactic"], case["ecliptic"]
    m = call(case, galactic=g, ecliptic=e)
    assert m.shape == (12 * n * n,), f"shape {m.shape} for nside {n}"

    def outside(band, default):
        if band is None:
            # the default bands are used as they are given to the library
            x = np.ones(12 * n * n)
            x[healpy.query_strip(n, *default)] = 0
            return x
        return 1.0 - strip(n, band)

    want = rotated(rotated(outside(g, (30, 90)), GC) * outside(e, (20, 80)), CE)
    close(m, want, "visibility", rtol=0, atol=1e-9)
    assert np.all((m >= -1e-12) & (m <= 1 + 1e-12)), "visibility outside of zero and one"
    raises(TypeError, lambda: call(case, **{case["which"]: case["bad"]}), f"band of {len(case['bad'])} values")
    return g is not None or e is not None


@sub("C27", strategy=cases, rule="the second band contains the first", quick=250)
def monotonic(case):
    """Adding to either band never makes any pixel more visible; a band from pole to pole leaves nothing visible, and far from both bands everything is."""
    n = case["nside"]
    g, e, w = case["galactic"] or [1.3, 1.9], case["ecliptic"] or [1.3, 1.9], case["wider"]
    a = call(case, galactic=g, ecliptic=e)
    gs, es = strip(n, g), strip(n, e)
    nontrivial = False
    for k, s, kw in (("galactic", gs, {"galactic": w, "ecliptic": e}), ("ecliptic", es, {"galactic": g, "ecliptic": w})):
        ws = strip(n, w)
        b = call(case, **kw)
        if np.all(ws >= s):
            assert np.all(b <= a + 1e-12), f"wider {k} band makes pixels more visible"
            nontrivial |= bool(np.any(ws > s))
        if np.all(ws <= s):
            assert np.all(b >= a - 1e-12), f"narrower {k} band makes pixels less visible"
            nontrivial |= bool(np.any(ws < s))
    everything = [0.0, float(np.pi)]
    equal(call(case, galactic=everything, ecliptic=e), np.zeros(12 * n * n), "everything in the galactic band")
    equal(call(case, galactic=g, ecliptic=everything), np.zeros(12 * n * n), "everything in the ecliptic band")
    # direction of each pixel in galactic coordinates, and that of the second band
    v = np.array(healpy.pix2vec(n, np.arange(12 * n * n)))
    res = 3 * healpy.nside2resol(n)

    def distance(vec, band):
        """Signed distance in colatitude: negative inside of the band."""
        th = np.arccos(np.clip(vec[2], -1, 1))
        lo, hi = band
        d = np.maximum(lo - th, th - hi) if lo < hi else np.minimum(lo - th, th - hi)
        return d

    dg, de = distance(GC.T @ (CE.T @ v), g), distance(CE.T @ v, e)
    free, hidden = (dg > res) & (de > res), (dg < -res) | (de < -res)
    close(a[free], np.ones(int(free.sum())), "visibility far from both bands", rtol=0, atol=1e-9)
    close(a[hidden], np.zeros(int(hidden.sum())), "visibility inside of a band", rtol=0, atol=1e-9)
    return nontrivial
