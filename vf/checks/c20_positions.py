"""C20: sampled positions."""

import math

import healpix
import numpy as np
from healpix import _chp
from hypothesis import strategies as st

import glass
from vf.be import F, N, XPS, backend, check_ns, close, equal, rnd, same, seeds
from vf.core import sub
from vf.rec import Scripted
from vf.stats import correlated, generator, uniform

SPHERE = 4 * math.pi * (180 / math.pi * 60) ** 2


def angles(xp, lon, lat, count, dims):
    check_ns(lon, xp)
    check_ns(lat, xp)
    lon, lat = N(lon), N(lat)
    assert lon.ndim == 1 and lon.shape == lat.shape, (lon.shape, lat.shape)
    assert np.all(np.isfinite(lon)) and np.all(np.isfinite(lat)) and np.all(np.abs(lat) <= 90) and np.all(np.abs(lon) <= 360), "angles out of range"
    c = np.asarray(count)
    assert c.shape == tuple(dims) and int(c.sum()) == lon.size, f"count {c} for {lon.size} positions"
    return lon, lat, c


@sub(
    "C20",
    strategy=lambda: st.fixed_dictionaries({"xp": backend(8, 3, 1), "nside": st.sampled_from([1, 2, 4, 16, 1, 2, 4, 16, 64]), "pops": st.integers(1, 2), "batch": st.sampled_from([None, 700, 1500]), "spike": st.booleans(), "seed": seeds}),
    rule="more than a thousand galaxies",
    quick=60,
    thorough=1200,
    shards=4,
)
def in_pixels(case):
    """Positions within their pixels are uniform in both pixel coordinates, uncorrelated with each other and between galaxies, and never repeated, across batches and populations."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    nside = case["nside"] if case["xp"] != "jax" else 1
    npix = 12 * nside**2
    delta = np.full(npix, -1.0)
    on = r.permutation(npix)[: 1 if case["spike"] else 12]
    delta[on] = 0.0
    ngal = 3000 / on.size * npix / SPHERE
    us, vs, seen = [], [], []
    kw = {} if case["batch"] is None else {"batch": case["batch"]}
    pops = case["pops"]
    for lon, lat, count in glass.positions_from_delta(F(xp, np.full(pops, ngal)), F(xp, delta), rng=generator(case), **kw):
        lon, lat, _ = angles(xp, lon, lat, count, (pops,))
        t, p = np.radians(90 - lat), np.radians(lon)
        _, u, v = _chp.ang2ring_uv(nside, t, p)
        ipix = healpix.ang2pix(nside, lon, lat, lonlat=True)
        assert np.all(np.isin(ipix, on)), "position outside of the pixels with galaxies"
        us.append(u)
        vs.append(v)
        seen.append(np.stack([lon, lat], axis=1))
    u, v, s = np.concatenate(us), np.concatenate(vs), np.concatenate(seen)
    assert len(np.unique(s, axis=0)) == len(s), "repeated positions"
    # coordinates within pixels must not repeat from one pixel, batch or population to another either
    assert len(np.unique(np.rint(u * 1e8) * 1e9 + np.rint(v * 1e8))) > 0.99 * len(u), "pixels have the same positions within"
    uniform(u, "first pixel coordinate")
    uniform(v, "second pixel coordinate")
    correlated(u, v, "pixel coordinates")
    correlated(u[1:], v[:-1], "pixel coordinates of neighbouring galaxies")
    return len(u) > 1000


class Uniform(Scripted):
    def __init__(self, seed, mode):
        super().__init__(seed)
        self.mode = mode

    def counts(self, lam):
        return (np.floor(np.asarray(lam) * 1000 + 0.377) % 7).astype(np.int64)

    def unit_uniform(self, k):
        u = self.base.random(k)
        if self.mode == "edges":
            u = np.where(self.base.random(k) < 0.5, self.base.choice([0.0, 1 - 2.0**-53, 0.5], size=k), u)
        return u


@st.composite
def ucases(draw):
    x = draw(backend(14, 6, 1))
    return {"xp": x, "dims": draw(st.sampled_from([[], [1], [3], [2, 3], [2, 1, 2]])) if x != "jax" else draw(st.sampled_from([[], [2]])), "mode": draw(st.sampled_from(["plain", "edges"])), "xparg": draw(st.booleans()), "rate": draw(st.sampled_from([0.0, 1e-7, 1e-3])), "seed": draw(seeds)}


@sub("C20", strategy=ucases, rule="several populations with galaxies", quick=250, shards=3)
def uniform_batches(case):
    """One batch per population in order, sized by the scripted count of the density times the area of the sphere, angles in range for any variates."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    dims = tuple(case["dims"])
    ngal = r.uniform(0.5, 2, size=dims) * case["rate"]
    rng = Uniform(case["seed"], case["mode"])
    if dims:
        a = F(xp, ngal)
        it = glass.uniform_positions(a, rng=rng, **({"xp": xp} if case["xparg"] else {}))
    else:
        a = float(ngal)
        it = glass.uniform_positions(a, rng=rng, xp=xp)
    lam = ngal * SPHERE
    want = rng.counts(lam)
    n = 0
    kept = []
    for k, (lon, lat, count) in zip(np.ndindex(dims), it, strict=True):
        kept.append(((lon, lat, count), tuple(np.array(N(x) if hasattr(x, "shape") else x) for x in (lon, lat, count))))
        lon, lat, c = angles(xp, lon, lat, count, dims)
        if dims:
            assert c[k] == lon.size, f"population {k} reported as {np.argwhere(c)}"
        near = abs(lam[k] * 1000 + 0.377 - np.rint(lam[k] * 1000 + 0.377)) < 1e-5 * (1 + lam[k])
        assert near or lon.size == want[k], f"{lon.size} positions for scripted count {want[k]}"
        n += lon.size
    for i, (now, then) in enumerate(kept):
        for x, y, what in zip(now, then, ("longitudes", "latitudes", "counts")):
            equal(N(x) if hasattr(x, "shape") else np.array(x), y, f"{what} of batch {i} after the last")
    if dims:
        equal(N(a), ngal, "densities after the call")
    return len(dims) > 0 and n > 1


class Strata(Scripted):
    """Uniform variates are the centres of equal intervals, in random order."""

    def unit_uniform(self, k):
        return (self.base.permutation(k) + 0.5) / max(k, 1)

    def counts(self, lam):
        return np.rint(np.asarray(lam)).astype(np.int64)


@sub("C20", strategy=lambda: st.fixed_dictionaries({"xp": backend(8, 3, 1), "n": st.one_of(st.integers(1, 50), st.sampled_from([1000, 40_000, 200_000])), "dims": st.sampled_from([[], [1]]), "seed": seeds}), rule="always", quick=40, thorough=800, shards=2)
def strata(case):
    """Positions for evenly spaced variates are evenly spaced in longitude and in the sine of latitude, to the poles."""
    xp = XPS[case["xp"]]
    n = case["n"] if case["xp"] != "jax" else 50
    arg = F(xp, np.full(case["dims"], n / SPHERE)) if case["dims"] else n / SPHERE
    [(lon, lat, count)] = glass.uniform_positions(arg, rng=Strata(case["seed"]), xp=xp)
    lon, lat, _ = angles(xp, lon, lat, count, tuple(case["dims"]))
    assert lon.size == n, f"{lon.size} positions, expected {n}"
    want = (np.arange(n) + 0.5) / n
    v = np.sort(np.sin(np.radians(lat)) + 1) / 2
    close(v, want, "sines of latitude", rtol=0, atol=1e-8)
    u = np.sort((lon / 360) % 1.0)
    d = np.diff(np.append(u, u[0] + 1.0))
    close(d, np.full(n, 1 / n), "spacing of longitudes", rtol=0, atol=1e-8)
    return True


@sub("C20", strategy=lambda: st.fixed_dictionaries({"xp": backend(8, 3, 1), "dims": st.sampled_from([[], [2]]), "seed": seeds}), rule="always", quick=60, thorough=1200, shards=3)
def uniform_sphere(case):
    """Longitudes and sines of latitudes are uniform, uncorrelated and not repeated over populations, and the number is Poisson with the right mean."""
    xp = XPS[case["xp"]]
    dims = tuple(case["dims"])
    mean = 4000.0
    ngal = mean / SPHERE
    arg = F(xp, np.full(dims, ngal)) if dims else ngal
    lons, lats = [], []
    for lon, lat, count in glass.uniform_positions(arg, rng=generator(case), xp=xp):
        lon, lat, _ = angles(xp, lon, lat, count, dims)
        assert abs(lon.size - mean) < 9 * np.sqrt(mean), f"{lon.size} positions, expected {mean}"
        lons.append(lon)
        lats.append(lat)
    if dims:
        assert lons[0].size != lons[1].size or not np.array_equal(lons[0], lons[1]), "populations have the same positions"
        m = min(map(len, lons))
        correlated((lons[0][:m] % 360) / 360, (lons[1][:m] % 360) / 360, "longitudes of populations")
    u = (np.concatenate(lons) % 360) / 360
    v = (np.sin(np.radians(np.concatenate(lats))) + 1) / 2
    assert len(np.unique(u)) == len(u), "repeated longitudes"
    uniform(u, "longitude")
    uniform(v, "sine of latitude")
    correlated(u, v, "longitude and latitude")
    return True


@sub("C20", strategy=lambda: st.fixed_dictionaries({"xp": backend(8, 4, 1), "kind": st.sampled_from(["delta", "uniform"]), "dims": st.sampled_from([[], [2]]), "seed": seeds}), rule="always", quick=80, shards=3)
def reproducible(case):
    """The same seed gives the same batches, another seed different ones; the generator state alone decides, not earlier calls."""
    xp = XPS[case["xp"]]
    dims = tuple(case["dims"])
    ngal = 40.0 / SPHERE
    arg = F(xp, np.full(dims, ngal)) if dims else ngal

    def run(rng):
        if case["kind"] == "uniform":
            it = glass.uniform_positions(arg, rng=rng, xp=xp)
        else:
            it = glass.positions_from_delta(arg, F(xp, np.linspace(-0.5, 0.5, 12)), rng=rng, batch=15)
        out = [(N(a), N(b), np.asarray(c)) for a, b, c in it]
        return np.concatenate([np.concatenate([a, b, c.ravel()]) for a, b, c in out]) if out else np.zeros(0)

    a = run(generator(case))
    run(generator(case, 5))
    same(run(generator(case)), a, "second run with the same seed")
    b = run(generator(case, 1))
    assert a.size == 0 or a.shape != b.shape or not np.array_equal(a, b), "other seed, same positions"
    return True
