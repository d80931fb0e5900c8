"""C17: displacement on the sphere."""

import numpy as np
from hypothesis import strategies as st

import glass
from vf.be import F, N, XPS, backend, check_ns, close, equal, rnd, seeds
from vf.core import sub


def vec(lon, lat):
    lon, lat = np.broadcast_arrays(np.radians(lon), np.radians(lat))
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], axis=-1)


def frame(lon, lat):
    """North and east unit vectors."""
    lon, lat = np.radians(lon), np.radians(lat)
    north = np.stack([-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)], axis=-1)
    east = np.stack([-np.sin(lon), np.cos(lon), np.zeros_like(lon)], axis=-1)
    return north, east


def moved(lon, lat, alpha):
    """End points of geodesics as unit vectors."""
    lon, lat, alpha = np.broadcast_arrays(lon, lat, alpha)
    n, e = frame(lon, lat)
    a = np.abs(alpha)
    u = np.where(a > 0, alpha / np.where(a > 0, a, 1), 1.0)[..., None]
    return vec(lon, lat) * np.cos(a)[..., None] + (n * u.real + e * u.imag) * np.sin(a)[..., None]


@st.composite
def cases(draw):
    x = draw(backend(14, 6, 1))
    full = draw(st.lists(st.integers(1, 4), max_size=3)) if x != "jax" else [4]
    masks = [[draw(st.integers(0, 3)) > 0 for _ in full] for _ in range(3)]
    cuts = [draw(st.integers(0, len(full))) if draw(st.integers(0, 3)) == 0 else 0 for _ in range(3)]
    if x == "jax":
        masks, cuts = [[True]] * 3, [0] * 3
    return {
        "xp": x,
        "shapes": [[n if keep else 1 for n, keep in zip(full, m)][c:] for m, c in zip(masks, cuts)],
        "pos": draw(st.sampled_from(["any", "any", "poles", "near-poles", "equator", "line"])),
        "dist": draw(st.sampled_from(["any", "any", "tiny", "zero", "compass", "quarter", "far", "antipode"])),
        "real": draw(st.booleans()),
        "seed": draw(seeds),
    }


def positions(r, kind, s1, s2):
    lon, lat = r.uniform(-400, 400, size=s1), np.degrees(np.arcsin(r.uniform(-1, 1, size=s2)))
    if kind == "poles":
        lat = r.choice([-90.0, 90.0], size=s2)
    elif kind == "near-poles":
        lat = r.choice([-1.0, 1.0], size=s2) * (90 - 10.0 ** r.uniform(-8, 0, size=s2))
    elif kind == "equator":
        lat = np.zeros(s2)
        lon = r.choice([0.0, 90.0, 180.0, -180.0, 270.0], size=s1)
    elif kind == "line":
        lon = r.choice([-180.0, 180.0, 0.0, 360.0], size=s1) + r.uniform(-1e-3, 1e-3, size=s1)
    return np.asarray(lon, dtype=float), np.asarray(lat, dtype=float)


def displacements(r, kind, s):
    a = np.arccos(r.uniform(-1, 1, size=s))
    g = r.uniform(-np.pi, np.pi, size=s)
    if kind == "tiny":
        a = 10.0 ** r.uniform(-9, -2, size=s)
    elif kind == "zero":
        a = np.zeros(s)
    elif kind == "compass":
        return np.asarray(a * r.choice([1, 1j, -1, -1j], size=s))
    elif kind == "quarter":
        a = np.full(s, np.pi / 2)
    elif kind == "far":
        a = r.uniform(3.0, 3.13, size=s)
    elif kind == "antipode":
        a = np.pi - 10.0 ** r.uniform(-9, -2, size=s)
    return np.asarray(a * np.exp(1j * g))


def angles(xp, out, shape, what):
    for o in out:
        check_ns(o, xp, what)
    lon, lat = (N(o) for o in out)
    # the latitude does not depend on the original longitude, and need not have its shape
    assert lon.shape == shape and np.broadcast_shapes(lat.shape, shape) == shape, f"{what}: shapes {lon.shape}, {lat.shape}, not {shape}"
    lat = np.broadcast_to(lat, shape)
    assert np.all(np.isfinite(lon)) and np.all(np.isfinite(lat)), f"{what}: not finite"
    assert np.all(np.abs(lat) <= 90 + 1e-12), f"{what}: latitude out of range"
    return lon, lat


def alpha_arg(xp, alpha, real):
    return F(xp, np.stack([alpha.real, alpha.imag])) if real else xp.asarray(np.array(alpha))


@sub("C17", strategy=cases, rule="more than one position, with non-zero displacements", quick=1500, shards=3)
def geodesic(case):
    """displace() and deflect() end where the geodesic in the local north-east frame ends."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    s1, s2, s3 = (tuple(s) for s in case["shapes"])
    lon, lat = positions(r, case["pos"], s1, s2)
    alpha = displacements(r, case["dist"], s3)
    shape = np.broadcast_shapes(s1, s2, s3)
    if case["real"] and len(s3) < len(shape):
        alpha = alpha.reshape((1,) * (len(shape) - len(s3)) + s3)
    a, b, c = F(xp, lon), F(xp, lat), alpha_arg(xp, alpha, case["real"])
    keep = N(c)
    with_lon = angles(xp, glass.displace(a, b, c), shape, "displace")
    close(vec(*with_lon), moved(lon, lat, alpha), "displaced position", rtol=0, atol=2e-13)
    other = angles(xp, glass.deflect(a, b, c), shape, "deflect")
    close(vec(*other), moved(lon, lat, np.conj(alpha)), "deflected position", rtol=0, atol=2e-13)
    equal(N(a), lon, "longitudes after the call")
    equal(N(b), lat, "latitudes after the call")
    equal(N(c), keep, "displacements after the call")
    return int(np.prod(shape)) > 1 and case["dist"] != "zero"


@sub("C17", strategy=cases, rule="non-zero displacements of more than one position", quick=1500, shards=3)
def inverse(case):
    """displacement() recovers the displacement applied, for distances up to 180 degrees less 1e-7, and has the angular separation as modulus."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    s1, s2, s3 = (tuple(s) for s in case["shapes"])
    lon, lat = positions(r, case["pos"], s1, s2)
    alpha = displacements(r, case["dist"], s3)
    if case["dist"] != "antipode":
        alpha = np.where(np.abs(alpha) > 3.13, alpha / 2, alpha)
    tlon, tlat = (N(v) for v in glass.displace(lon, lat, alpha))
    if r.integers(2):
        tlon = tlon + 360.0 * r.integers(-1, 2, size=tlon.shape)
    args = [F(xp, v) for v in (lon, lat, tlon, tlat)]
    out = glass.displacement(*args)
    check_ns(out, xp)
    d = N(out)
    shape = np.broadcast_shapes(s1, s2, s3)
    assert d.shape == shape and np.iscomplexobj(d), (d.shape, d.dtype)
    for v, w in zip(args, (lon, lat, tlon, tlat)):
        equal(N(v), w, "positions after the call")
    p, q = np.broadcast_arrays(vec(lon, lat), vec(tlon, tlat))
    sep = np.arctan2(np.linalg.norm(np.cross(p, q), axis=-1), np.sum(p * q, axis=-1))
    close(np.abs(d), sep, "distance", rtol=0, atol=1e-12)
    # rounding of the end point (in degrees) is amplified towards the antipode
    want = np.broadcast_to(alpha, shape)
    tol = 1e-12 * (1 + 1 / np.maximum(np.sin(np.abs(want)), 0.01) * np.abs(want))
    if case["dist"] == "antipode":
        tol = 1e-11 / np.sin(np.abs(want))
    err = np.abs(d - want)
    assert np.all(err <= tol), f"displacement {d[err > tol][0]} instead of {want[err > tol][0]}"
    return int(np.prod(shape)) > 1 and case["dist"] != "zero"


@sub("C17", strategy=cases, rule="more than one pair", quick=900, shards=2)
def between(case):
    """displace() by displacement() between two arbitrary positions, also opposite ones, arrives at the second one, and has their distance as modulus."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    s1, s2, s3 = (tuple(s) for s in case["shapes"])
    lon, lat = positions(r, case["pos"], s1, s2)
    tlon, tlat = positions(r, "any" if case["dist"] != "zero" else case["pos"], s3, s3)
    if case["dist"] == "antipode":
        s3 = np.broadcast_shapes(s1, s2)
        tlon = np.broadcast_to(lon, s3) + r.choice([180.0, -180.0, 540.0]) + r.choice([0.0, 1e-9, 1e-6], size=s3)
        tlat = -np.broadcast_to(lat, s3)
    d = glass.displacement(F(xp, lon), F(xp, lat), F(xp, tlon), F(xp, tlat))
    assert np.all(np.isfinite(N(d)))
    assert np.all(np.abs(N(d)) <= np.pi + 1e-12), "distance above 180 degrees"
    got = angles(xp, glass.displace(F(xp, lon), F(xp, lat), d), d.shape, "displace")
    want = np.broadcast_to(vec(tlon, tlat), (*d.shape, 3))
    close(vec(*got), want, "position", rtol=0, atol=2e-12)
    p, q = np.broadcast_arrays(vec(lon, lat), want)
    close(np.abs(N(d)), np.arctan2(np.linalg.norm(np.cross(p, q), axis=-1), np.sum(p * q, axis=-1)), "distance", rtol=0, atol=1e-12)
    return int(np.prod(d.shape)) > 1
