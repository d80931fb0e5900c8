"""C24: sampled galaxy ellipticities."""

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import quad
from scipy.stats import norm

import glass
from vf.be import F, N, XPS, backend, check_ns, close, equal, raises, rnd, seeds, tidy
from vf.core import sub
from vf.rec import Scripted
from vf.stats import correlated, generator, uniform

MODELS = {"gaussian": glass.ellipticity_gaussian, "intnorm": glass.ellipticity_intnorm}


def bshape(draw, full):
    s = [n if draw(st.integers(0, 2)) else 1 for n in full]
    return s[draw(st.integers(0, len(s))) if draw(st.booleans()) else 0 :]


def part(rng, kind):
    e = [np.ravel(e[1]) for e in rng.log if e[0] == kind]
    return np.concatenate(e) if e else np.zeros(0)


def drawn(v, g, what, tol=1e-9):
    """Every value is one of the variates."""
    g = np.sort(g)
    i = np.clip(np.searchsorted(g, v), 1, max(1, g.size - 1)) if g.size > 1 else np.zeros(np.size(v), int)
    d = np.minimum(np.abs(g[i] - v), np.abs(g[i - 1] - v))
    assert np.all(d <= tol * np.maximum(1, np.abs(v))), f"{what}: {v[d.argmax()]!r} is not one of the variates drawn"


@st.composite
def populations(draw):
    x = draw(backend(14, 6, 1))
    full = draw(st.sampled_from([[2], [3], [2, 3], [4, 2], [1, 3], []]))
    if x == "jax":
        full = draw(st.sampled_from([[], [2]]))
    return {
        "xp": x,
        "model": draw(st.sampled_from(["gaussian", "intnorm"])),
        "s_count": bshape(draw, full),
        "s_sigma": bshape(draw, full),
        "count": draw(st.sampled_from(["array", "array", "array", "scalar"])),
        "sigma": draw(st.sampled_from(["array", "array", "array", "scalar"])),
        "max": draw(st.sampled_from([12, 5, 2, 0])) if x != "jax" else 3,
        "width": draw(st.sampled_from([0.5, 0.02, 0.2, 0.7, 1.2, 0.0])),
        "seed": draw(seeds),
    }


def setup(case, big=0):
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    sc = () if case["count"] == "scalar" else tuple(case["s_count"])
    ss = () if case["sigma"] == "scalar" else tuple(case["s_sigma"])
    count = r.integers(big, big + case["max"] + 1, size=sc)
    w = min(case["width"], 0.7) if case["model"] == "intnorm" else case["width"]
    sigma = w * r.uniform(0.6, 1, size=ss)
    kw = {}
    c = int(count) if case["count"] == "scalar" else xp.asarray(np.array(count))
    s = float(sigma) if case["sigma"] == "scalar" else F(xp, sigma)
    if case["count"] == case["sigma"] == "scalar":
        kw["xp"] = xp
    return xp, c, s, kw, np.array(count), np.array(sigma)


@sub("C24", strategy=populations, rule="at least two galaxies and two populations", quick=500, shards=2)
def exact(case):
    """Each population has its number of galaxies, in order, and each ellipticity is in the unit disk and the Gaussian or intrinsic-norm transformation of variates drawn, with the width of its own population."""
    xp, c, s, kw, count, sigma = setup(case)
    rng = Scripted(case["seed"])
    out = MODELS[case["model"]](c, s, rng=rng, **kw)
    check_ns(out, xp)
    for a, v in zip((c, s), (count, sigma)):
        equal(N(a), v, "input after the call")
    cb, sb = np.broadcast_arrays(count, sigma)
    e = N(out)
    assert e.dtype.kind == "c", f"ellipticities of type {e.dtype}"
    assert e.shape == (cb.sum(),), f"{e.shape} ellipticities for counts {cb.tolist()}"
    assert np.all(np.abs(e) <= 1), "ellipticity outside of the unit disk"
    g = part(rng, "normal")
    m = np.repeat(sb.ravel(), cb.ravel())
    if case["width"] == 0:
        equal(e, np.zeros(e.shape), "ellipticity without width")
    elif e.size and case["model"] == "gaussian":
        drawn(e.real / m, g, "component of the ellipticity")
        drawn(e.imag / m, g, "component of the ellipticity")
        v = np.sort(np.concatenate([e.real / m, e.imag / m]))
        assert np.all(np.diff(v) > 0), "a variate is used twice"
    elif e.size:
        # the direction identifies the pair of variates
        a, b = np.meshgrid(g, g, indexing="ij")
        for t in range(e.size):
            i, j = np.nonzero((np.abs(a * e[t].imag - b * e[t].real) < 1e-11 * np.abs(e[t]) * np.hypot(a, b)) & (a * e[t].real + b * e[t].imag > 0))
            assert i.size, f"the direction of ellipticity {e[t]} is not that of a pair of variates"
            if np.abs(e[t]) > 0.999:
                continue
            eta = 2 * np.arctanh(np.abs(e[t]))
            ok = [abs(width_for(float(q)) / m[t] - 1) < 5e-3 for q in eta / np.hypot(a[i, j], b[i, j])]
            assert any(ok), f"the ellipticity {e[t]} does not belong to a width of {m[t]}"
    return e.size >= 2 and cb.size >= 2 and case["width"] > 0


def width_for(se):
    """Standard deviation per component of tanh(eta/2) for normal eta of the given width."""
    if se > 50:
        return 1.0
    n = 400
    x = (np.arange(n) + 0.5) / n
    # E[tanh^2] over the quantiles of the Rayleigh distribution
    return float(np.sqrt(np.mean(np.tanh(se * np.sqrt(-2 * np.log1p(-x)) / 2) ** 2) / 2)) if se > 0 else 0.0


@sub("C24", strategy=populations, rule="always", quick=60, thorough=1000, shards=3)
def distributed(case):
    """Thousands of ellipticities with an ordinary generator follow the truncated Gaussian and the intrinsic-norm distribution, with independent random directions."""
    case = dict(case, s_count=case["s_count"][:1], s_sigma=case["s_sigma"][:1], width=case["width"] or 0.3)
    if len(case["s_count"]) and len(case["s_sigma"]) and case["s_count"] != case["s_sigma"]:
        case["s_sigma"] = case["s_count"]
    xp, c, s, kw, count, sigma = setup(case, big=3000)
    e = N(MODELS[case["model"]](c, s, rng=generator(case, 1), **kw))
    cb, sb = np.broadcast_arrays(count, sigma)
    m = np.repeat(sb.ravel(), cb.ravel())
    assert e.size == m.size, f"{e.size} ellipticities, expected {m.size}"
    r = np.abs(e)
    if case["model"] == "gaussian":
        assert np.all(r <= 1), "ellipticity outside of the unit disk"
        u = np.expm1(-((r / m) ** 2) / 2) / np.expm1(-1 / m**2 / 2)
    else:
        se = np.repeat([eta_for(float(v)) for v in sb.ravel()], cb.ravel())
        u = -np.expm1(-((2 * np.arctanh(np.minimum(r, 1 - 1e-16)) / se) ** 2) / 2)
    phi = np.mod(np.angle(e) / (2 * np.pi), 1)
    uniform(np.clip(u, 0, 1), "cumulative probability of the modulus")
    uniform(phi, "direction of the ellipticity")
    correlated(u, phi, "modulus and direction")
    return True


def eta_for(s):
    lo, hi = 0.0, 1000.0
    for _ in range(60):
        mid = (lo + hi) / 2
        v = np.sqrt(quad(lambda r: np.tanh(r * mid / 2) ** 2 * r * np.exp(-r * r / 2), 0, 12, limit=200, points=[0.01, 0.1, 1])[0] / 2) if mid < 50 else 0.70710678
        lo, hi = (mid, hi) if v < s else (lo, mid)
    return lo


@sub("C24", strategy=lambda: st.fixed_dictionaries({"xp": backend(6, 4, 1), "n": st.integers(1, 4), "bad": st.sampled_from([0.7072, 0.70710678119, 1.0, 5.0, -0.001, -1.0, float("inf")]), "at": st.integers(0, 3), "arr": st.booleans()}), rule="always", quick=120, thorough=1000)
def refused(case):
    """The intrinsic-norm model refuses widths outside of the range from zero to the square root of one half, for any of the populations, and accepts those inside."""
    xp = XPS[case["xp"]]
    s = np.full(case["n"], 0.25)
    ok = F(xp, s)
    if case["bad"] != float("inf"):
        glass.ellipticity_intnorm(2, ok, rng=rnd(1))
    s[case["at"] % case["n"]] = case["bad"]
    if case["arr"]:
        raises(ValueError, lambda: glass.ellipticity_intnorm(2, F(xp, s), rng=rnd(1)), f"widths {s}")
    else:
        raises(ValueError, lambda: glass.ellipticity_intnorm(2, case["bad"], rng=rnd(1), xp=xp), f"width {case['bad']}")
    return True


class Ends(Scripted):
    """Uniform variates which include special values, or are all the same."""

    def __init__(self, seed, const=None):
        super().__init__(seed)
        self.const = const

    def unit_uniform(self, k):
        if self.const is not None:
            return np.full(k, self.const)
        u = self.base.random(k)
        return np.where(self.base.random(k) < 0.2, self.base.choice([0.0, 0.25, 0.5, 0.75, 1 - 2.0**-53], size=k), u)


def projected(zeta, xi, mu, phi):
    """Axis ratio of the shadow of an ellipsoid with axes (1, zeta, xi) along a direction."""
    s = np.sqrt(np.maximum(0, 1 - mu**2))
    n = np.stack([s * np.cos(phi), s * np.sin(phi), mu], axis=-1)
    # orthonormal basis of the plane of projection
    t = np.stack([-np.sin(phi), np.cos(phi), 0 * phi], axis=-1)
    w = np.cross(n, t)
    d = np.stack([np.ones_like(zeta), zeta, xi], axis=-1) ** 2
    a, b, c = (np.sum(t * d * t, -1), np.sum(t * d * w, -1), np.sum(w * d * w, -1))
    h = np.hypot((a - c) / 2, b)
    big = (a + c) / 2 + h
    return np.sqrt(np.maximum(0, a * c - b * b)) / big


@st.composite
def ellipsoids(draw):
    x = draw(backend(14, 6, 1))
    full = draw(st.one_of(st.lists(st.integers(1, 5), min_size=1, max_size=3), st.lists(st.integers(0, 2), max_size=3)))
    if x == "jax":
        full = draw(st.sampled_from([[], [3]]))
    return {
        "xp": x,
        "full": full,
        "s_zeta": bshape(draw, full),
        "s_xi": bshape(draw, full),
        "size": draw(st.sampled_from(["none", "none", "tuple", "int"])),
        "degenerate": draw(st.sampled_from(["no", "no", "no", "prolate", "oblate", "round", "flat"])),
        "scalars": draw(st.booleans()),
        "seed": draw(seeds),
    }


@sub("C24", strategy=ellipsoids, rule="at least two projections", quick=600, shards=2)
def projection(case):
    """The axis ratio is that of the shadow of the ellipsoid along the random direction, for scalars and arrays and with or without a given size, between the smallest axis ratio and one."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    s1, s2 = tuple(case["s_zeta"]), tuple(case["s_xi"])
    full = np.broadcast_shapes(s1, s2)
    zeta = r.uniform(0.3, 1, size=s1)
    xi = r.uniform(0.02, 0.3, size=s2)
    if case["degenerate"] in ("oblate", "round"):
        zeta = np.ones(s1)
    if case["degenerate"] == "prolate":
        zeta, xi, s2 = r.uniform(0.1, 1, size=full), None, full
        xi = zeta.copy()
        s1 = full
    if case["degenerate"] == "round":
        xi = np.ones(s2)
    if case["degenerate"] == "flat":
        xi = np.zeros(s2)
    kw, size = {}, full
    if case["size"] == "tuple":
        size = (2, *full) if case["seed"] % 2 else full
        kw["size"] = size
    elif case["size"] == "int" and len(full) <= 1:
        size = full or (4,)
        kw["size"] = size[0]
    if not s1 and not s2 and case["scalars"]:
        args, kw["xp"] = (float(zeta), float(xi)), xp
    else:
        args = (F(xp, zeta), F(xp, xi))
    rng = Ends(case["seed"])
    out = glass.triaxial_axis_ratio(*args, rng=rng, **kw)
    check_ns(out, xp)
    for a, v in zip(args, (zeta, xi)):
        equal(N(a), v, "input after the call")
    q = N(out)
    assert q.shape == size, f"{q.shape} axis ratios for {s1}, {s2} and size {kw.get('size')}"
    zb, xb = np.broadcast_to(zeta, size), np.broadcast_to(xi, size)
    if case["degenerate"] == "round":
        close(q, np.ones(size), "round object", rtol=1e-7)
    assert np.all(q >= np.minimum(xb, zb) * (1 - 1e-7) - 1e-9) and np.all(q <= 1 + 1e-12), "axis ratio not between the smallest axis ratio and one"
    u = part(rng, "uniform")
    assert u.size == 2 * q.size, f"{u.size} variates for {q.size} projections"
    u1, u2 = u[: q.size].reshape(size), u[q.size :].reshape(size)
    # cancellation in the smaller eigenvalue limits its accuracy
    want = [projected(zb, xb, 2 * a - 1, 2 * np.pi * b) for a, b in ((u1, u2), (u2, u1))]
    tol = [2e-15 / np.maximum(w, 1e-8) + 1e-9 * w for w in want]
    err = [np.abs(q - w) - t for w, t in zip(want, tol)]
    bad = [e.max() if e.size else 0.0 for e in err]
    assert min(bad) <= 0, f"axis ratio {q.ravel()[:5]} differs from {want[0].ravel()[:5]} for zeta {zb.ravel()[:5]}, xi {xb.ravel()[:5]}"
    return q.size >= 2


@st.composite
def ryden(draw):
    x = draw(backend(14, 6, 1))
    full = draw(st.one_of(st.lists(st.integers(1, 4), min_size=1, max_size=3), st.lists(st.integers(0, 2), max_size=3)))
    if x == "jax":
        full = draw(st.sampled_from([[], [3]]))
    return {
        "xp": x,
        "full": full,
        "shapes": [bshape(draw, full) for _ in range(4)],
        "size": draw(st.sampled_from(["none", "none", "tuple", "int"])),
        "scalars": draw(st.booleans()),
        "width": draw(st.sampled_from([0.3, 2.0, 0.0])),
        "const": draw(st.sampled_from([None, 0.0, 0.5])),
        "seed": draw(seeds),
    }


@sub("C24", strategy=ryden, rule="at least two galaxies with scatter", quick=600, shards=2)
def ryden04(case):
    """Ellipticities of projected ellipsoids: the axis ratios are those of truncated normal variates, the modulus is (1-q)/(1+q), the direction is random; any broadcastable parameters and size."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    sh = [tuple(s) for s in case["shapes"]]
    full = np.broadcast_shapes(*sh)
    w = case["width"]
    mu = r.uniform(-3.0, -0.5, size=sh[0]) + (0.3 if w == 2 else 0)
    sg = r.uniform(0.5, 1, size=sh[1]) * w
    gam = r.uniform(0.1, 0.9, size=sh[2])
    sgam = r.uniform(0.1, 0.3, size=sh[3]) * w
    kw, size = {}, full
    if case["size"] == "tuple":
        size = (3, *full) if case["seed"] % 2 else full
        kw["size"] = size
    elif case["size"] == "int" and len(full) <= 1:
        size = full or (4,)
        kw["size"] = size[0]
    vals = (mu, sg, gam, sgam)
    if not any(sh) and case["scalars"]:
        args, kw["xp"] = tuple(float(v) for v in vals), xp
    else:
        args = tuple(F(xp, v) for v in vals)
    rng = Ends(case["seed"], case["const"])
    out = glass.ellipticity_ryden04(*args, rng=rng, **kw)
    check_ns(out, xp)
    for a, v in zip(args, vals):
        equal(N(a), v, "input after the call")
    e = N(out)
    assert e.shape == size, f"{e.shape} ellipticities for {sh} and size {kw.get('size')}"
    assert e.dtype.kind == "c", f"ellipticities of type {e.dtype}"
    assert np.all(np.abs(e) <= 1 + 1e-12), "ellipticity outside of the unit disk"
    if not e.size:
        return False
    mb, sb, gb, tb = (np.broadcast_to(v, size) for v in vals)
    u, g = part(rng, "uniform"), part(rng, "normal")
    q = ((1 - np.abs(e)) / (1 + np.abs(e))).ravel()
    if case["const"] is None:
        d = np.ravel(np.mod(np.angle(e) / (2 * np.pi), 1.0))
        big = np.abs(e).ravel() > 1e-6
        if np.any(big):
            v = np.concatenate([u, [1.0]])
            drawn(d[big], np.sort(v), "direction", 1e-8)
        if w == 0:
            zeta, xi = (-np.expm1(mb)).ravel(), ((1 - gb) * -np.expm1(mb)).ravel()
            n = q.size
            for a in range(0, u.size - n + 1, n):
                for b in range(0, u.size - n + 1, n):
                    if a != b and np.all(np.abs(q - projected(zeta, xi, 2 * u[a : a + n] - 1, 2 * np.pi * u[b : b + n])) < 1e-7):
                        return False
            raise AssertionError(f"axis ratios {q[:5]} of the ellipticities are not those of the projected ellipsoids")
    elif case["const"] == 0.0:
        # seen along the shortest axis
        eps = np.log1p(-q).reshape(size)
        close(np.zeros(size), e.imag, "direction", atol=1e-12)
        if w:
            drawn(np.ravel((eps - mb) / sb), g, "scaled log(1 - B/A)", 1e-7)
        else:
            close(eps, mb, "log(1 - B/A)", rtol=1e-8)
    else:
        # seen along the longest axis
        ga = (1 - q).reshape(size)
        close(-np.abs(e), e.real, "direction", atol=1e-12)
        if w:
            drawn(np.ravel((ga - gb) / tb), g, "scaled 1 - C/B", 1e-7)
        else:
            close(ga, gb, "1 - C/B", rtol=1e-8)
    return e.size >= 2 and w > 0


@sub("C24", strategy=lambda: st.fixed_dictionaries({"xp": backend(8, 4, 1), "mu": tidy(-3, 0), "sigma": tidy(0.1, 2), "gamma": tidy(0, 1), "sigma_gamma": tidy(0.05, 0.5), "view": st.sampled_from([0.0, 0.5, None]), "seed": seeds}), rule="always", quick=80, thorough=1500, shards=2)
def ryden04_distributed(case):
    """Thousands of random ellipsoids have truncated normal distributions of both parameters, and isotropic directions of view."""
    xp = XPS[case["xp"]]
    n = 4000
    p = (case["mu"], case["sigma"], case["gamma"], case["sigma_gamma"])
    mu, s, ga, sg = p
    rng = Ends(case["seed"], case["view"]) if case["view"] is not None else generator(case, 3)
    e = N(glass.ellipticity_ryden04(*p, size=n, rng=rng, xp=xp))
    q = (1 - np.abs(e)) / (1 + np.abs(e))
    assert e.shape == (n,), f"shape {e.shape}"
    if case["view"] == 0.0:
        eps = np.log1p(-q)
        u = norm.cdf((eps - mu) / s) / norm.cdf(-mu / s)
    elif case["view"] == 0.5:
        a, b = norm.cdf(-ga / sg), norm.cdf((1 - ga) / sg)
        u = (norm.cdf((1 - q - ga) / sg) - a) / (b - a)
    else:
        uniform(np.mod(np.angle(e) / (2 * np.pi), 1.0), "direction of the ellipticity")
        # reference sample
        r = rnd(case["seed"] + 99)
        m = 40000
        x = norm.ppf(r.uniform(size=m) * norm.cdf(-mu / s)) * s + mu
        a, b = norm.cdf(-ga / sg), norm.cdf((1 - ga) / sg)
        y = norm.ppf(a + (b - a) * r.uniform(size=m)) * sg + ga
        zeta = -np.expm1(x)
        w = np.sort(projected(zeta, (1 - y) * zeta, r.uniform(-1, 1, size=m), r.uniform(0, 2 * np.pi, size=m)))
        u = np.searchsorted(w, q) / m
    uniform(np.clip(u, 0, 1), "cumulative probability of the axis ratio")
    return True
