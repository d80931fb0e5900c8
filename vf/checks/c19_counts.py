"""C19: galaxy counts sampled from density maps."""

import math

import healpix
import numpy as np
from hypothesis import strategies as st

import glass
from vf.be import F, N, XPS, backend, check_ns, close, equal, raises, rnd, seeds
from vf.core import sub
from vf.rec import Scripted

SPHERE = 4 * math.pi * (180 / math.pi * 60) ** 2


def hashed(lam, mode):
    """A deterministic stand-in for Poisson counts that depends sensitively on the expectation."""
    n = np.floor(lam * 1000 + 0.377) % 5
    if mode == "sparse":
        n = np.where(np.floor(lam * 77 + 0.377) % 13 == 0, n, 0)
    elif mode == "spiky":
        n = np.where(np.floor(lam * 1000 + 0.377) % 17 == 0, n * 20, n)
    elif mode == "none":
        n = n * 0
    return np.where(lam > 0, n, 0).astype(np.int64)


class Counts(Scripted):
    """Counts are a hash of the expectation, positions stay off the pixel edges."""

    def __init__(self, mode, seed):
        super().__init__(seed)
        self.mode = mode

    def counts(self, lam):
        assert np.all(lam >= 0) and np.all(np.isfinite(lam)), "invalid expectation"
        return hashed(lam, self.mode)

    def unit_uniform(self, k):
        return 0.02 + 0.96 * self.base.random(k)


def square(delta, b):
    return b * delta**2 - 0.1


MODELS = {"default": None, "linear": glass.linear_bias, "loglinear": glass.loglinear_bias, "square": square}


@st.composite
def cases(draw):
    x = draw(backend(14, 6, 1))
    dims = draw(st.lists(st.integers(1, 3), max_size=2))
    if draw(st.integers(0, 2)) == 0:
        dims = []

    def sh():
        s = [n if draw(st.integers(0, 2)) else 1 for n in dims]
        return s[draw(st.integers(0, len(s))) if draw(st.booleans()) else 0 :]

    nside = draw(st.sampled_from([1, 2, 4, 4, 8] + ([16] if len(dims) < 2 else [])))
    if x == "jax":
        nside = 1
    return {
        "xp": x,
        "nside": nside,
        "ngal": draw(st.sampled_from(["float", "array"])),
        "s_ngal": sh(),
        "s_delta": sh(),
        "bias": draw(st.sampled_from(["none", "float", "array"])),
        "s_bias": sh(),
        "vis": draw(st.sampled_from(["none", "none", "map"])),
        "s_vis": sh(),
        "model": draw(st.sampled_from(sorted(MODELS))),
        "mono": draw(st.sampled_from([None, False, True])),
        "mode": draw(st.sampled_from(["hash", "hash", "sparse", "spiky", "none"])),
        "batch": draw(st.one_of(st.none(), st.integers(1, 40), st.integers(41, 3000))) if nside < 8 else draw(st.one_of(st.none(), st.integers(100, 3000))),
        "scale": draw(st.sampled_from([1e-6, 1e-4, 1e-2])),
        "seed": draw(seeds),
    }


@sub("C19", strategy=cases, rule="galaxies in several batches or several populations", quick=500, shards=6)
def exact(case):
    """Counts per pixel and population are the scripted counts of the expected numbers from density, bias, monopole and visibility; batches respect the limit, report their population and are complete."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    npix = 12 * case["nside"] ** 2
    delta = np.exp(r.normal(0, 0.8, size=(*case["s_delta"], npix)) - 0.32) - 1
    if r.integers(3) == 0:
        delta = np.where(r.random(delta.shape) < 0.3, -1.0, delta)
    ngal = r.uniform(0.5, 2, size=() if case["ngal"] == "float" else case["s_ngal"]) * case["scale"]
    kw, bias, vis = {}, None, None
    if case["bias"] != "none":
        bias = r.uniform(0.3, 2.5, size=() if case["bias"] == "float" else case["s_bias"])
    if case["vis"] != "none":
        vis = r.uniform(0, 1, size=(*case["s_vis"], npix)) * (r.random((*case["s_vis"], npix)) < 0.7)
    arrs = {"delta": F(xp, delta)}
    if case["ngal"] != "float":
        arrs["ngal"] = F(xp, ngal)
    if bias is not None:
        kw["bias"] = float(bias) if case["bias"] == "float" else F(xp, bias)
        if case["bias"] != "float":
            arrs["bias"] = kw["bias"]
    if vis is not None:
        kw["vis"] = arrs["vis"] = F(xp, vis)
    if MODELS[case["model"]] is not None:
        kw["bias_model"] = MODELS[case["model"]]
    if case["mono"] is not None:
        kw["remove_monopole"] = case["mono"]
    if case["batch"] is not None:
        kw["batch"] = case["batch"]
    before = {k: N(v) for k, v in arrs.items()}

    # expectation for all populations
    dims = np.broadcast_shapes(np.shape(ngal), delta.shape[:-1], () if bias is None else np.shape(bias), () if vis is None else vis.shape[:-1])
    d = np.broadcast_to(delta, (*dims, npix))
    if bias is not None:
        b = np.broadcast_to(bias, dims)[..., None]
        d = {"default": lambda: b * d, "linear": lambda: b * d, "loglinear": lambda: (1 + d) ** b - 1, "square": lambda: b * d**2 - 0.1}[case["model"]]()
    if case["mono"]:
        d = d - np.mean(d, axis=-1, keepdims=True)
    lam = SPHERE / npix * np.broadcast_to(ngal, dims)[..., None] * (1 + d)
    if vis is not None:
        lam = lam * vis
    lam = np.maximum(lam, 0)

    rng = Counts(case["mode"], case["seed"])
    got = np.zeros((*dims, npix), dtype=int)
    last, nb, total = -1, 0, 0
    for lon, lat, count in glass.positions_from_delta(float(ngal) if case["ngal"] == "float" else arrs["ngal"], arrs["delta"], rng=rng, **kw):
        check_ns(lon, xp)
        check_ns(lat, xp)
        lon, lat = N(lon), N(lat)
        assert lon.ndim == 1 and lon.shape == lat.shape, (lon.shape, lat.shape)
        c = np.asarray(count)
        assert c.shape == tuple(dims), f"count of shape {c.shape} for populations {dims}"
        if dims:
            check_ns(count, xp, "count")
        assert int(c.sum()) == lon.size, f"count {c.sum()} reported for {lon.size} positions"
        nb += 1
        if not lon.size:
            continue
        (k,) = np.flatnonzero(c)
        assert k >= last, "populations are not in order"
        last = k
        p = healpix.ang2pix(case["nside"], lon, lat, lonlat=True)
        if case["batch"] is not None:
            assert lon.size <= case["batch"] or np.unique(p).size == 1, f"batch of {lon.size} positions from {np.unique(p).size} pixels, limit {case['batch']}"
        np.add.at(got, (*np.unravel_index(k, dims), p), 1)
        total += lon.size
    for k, v in arrs.items():
        equal(N(v), before[k], f"{k} after the call")
    drawn = [np.ravel(x[1]) for x in rng.log if x[0] == "poisson"]
    if drawn and sum(map(len, drawn)) == lam.size:
        close(np.concatenate(drawn), lam.ravel(), "expected number of galaxies", rtol=1e-9, atol=1e-9 * lam.max())
    assert np.all(got[lam == 0] == 0), "galaxies in pixels of zero expectation"
    frac = np.abs((lam * 1000 + 0.377) - np.rint(lam * 1000 + 0.377)) < 1e-5 * (1 + lam)
    frac |= np.abs((lam * 77 + 0.377) - np.rint(lam * 77 + 0.377)) < 1e-5 * (1 + lam)
    frac |= (lam < 1e-9 * lam.max()) & (lam > 0)
    equal(got[~frac], hashed(lam, case["mode"])[~frac], "counts per population and pixel")
    return total > 0 and (nb > 1 or math.prod(dims) > 1)


@sub(
    "C19",
    strategy=lambda: st.fixed_dictionaries({"xp": backend(8, 3, 1), "seed": seeds, "pops": st.integers(0, 2), "mono": st.booleans(), "batch": st.sampled_from([None, 500])}),
    rule="always",
    quick=40,
    shards=4,
    thorough=600,
)
def poisson(case):
    """With an ordinary random number generator the counts scatter around the expectation as Poisson numbers (8 standard deviations), and differ between populations and seeds."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    delta = np.clip(r.normal(0, 0.4, size=48), -1, None)
    ngal = 5000 / SPHERE * r.uniform(0.5, 2)
    dims = () if case["pops"] == 0 else (case["pops"] + 1,)
    kw = {} if case["batch"] is None else {"batch": case["batch"]}
    got = np.zeros((*dims, 48))
    arg = float(ngal) if not dims else F(xp, np.full(dims, ngal))
    rng = rnd(case["seed"]) if case["xp"] != "jax" else glass.rng.default_rng(seed=case["seed"] % 1000, xp=xp)
    for lon, lat, count in glass.positions_from_delta(arg, F(xp, delta), rng=rng, remove_monopole=case["mono"], **kw):
        k = np.flatnonzero(np.asarray(count)) if dims else ()
        if dims and not len(k):
            continue
        got[(k[0],) if dims else ...] += np.bincount(healpix.ang2pix(2, N(lon), N(lat), lonlat=True), minlength=48)
    lam = SPHERE / 48 * ngal * np.maximum(1 + delta - (delta.mean() if case["mono"] else 0), 0)
    z = (got - lam) / np.sqrt(np.maximum(lam, 1))
    assert np.all(np.abs(z) < 9), f"counts deviate by {np.abs(z).max():.1f} standard deviations"
    chi2 = float(np.sum(z[..., lam > 5] ** 2))
    m = z[..., lam > 5].size
    assert abs(chi2 - m) < 10 * np.sqrt(3 * m), f"chi2 {chi2:.1f} for {m} pixels"
    if dims:
        assert not np.array_equal(got[0], got[1]), "populations have the same counts"
    return True


@sub("C19", strategy=lambda: st.fixed_dictionaries({"model": st.sampled_from(["linear", "missing", 3, None, [1]]), "xp": backend()}), rule="always", quick=20, thorough=60)
def refused(case):
    """A bias model that is not a function is refused."""
    xp = XPS[case["xp"]]
    raises(TypeError, lambda: list(glass.positions_from_delta(1e-6, F(xp, np.zeros(12)), 1.0, bias_model=case["model"], rng=rnd(0))), "bias model")
    return True
