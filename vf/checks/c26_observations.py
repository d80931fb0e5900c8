"""C26: redshift distributions and tomographic bins."""

import numpy as np
from hypothesis import strategies as st
from scipy.special import log_ndtr, ndtr

import glass
from vf.be import backend, check_ns, close, equal, F, fine, increasing, N, raises, refined, rnd, seeds, tidy, XPS
from vf.core import Skip, sub


def bshape(draw, full):
    s = [n if draw(st.integers(0, 2)) else 1 for n in full]
    return s[draw(st.integers(0, len(s))) if draw(st.booleans()) else 0 :]


def trapz(y, x):
    return np.sum((y[..., 1:] + y[..., :-1]) / 2 * np.diff(x), axis=-1)


@st.composite
def dist(draw):
    x = draw(backend(12, 6, 1))
    k = draw(st.integers(2, 12)) if x != "jax" else 5
    full = draw(st.lists(st.integers(1, 4), max_size=2)) if x != "jax" else draw(st.sampled_from([[], [2]]))
    return {
        "xp": x,
        "z": ([0.0] if draw(st.booleans()) else []) + draw(increasing(0.0, 3.0, k, k, gap=0.01)),
        "kind": draw(st.sampled_from(["gaussian", "smail"])),
        "shapes": [bshape(draw, full) for _ in range(3)],
        "scalars": [draw(st.booleans()) for _ in range(3)],
        "norm": draw(st.sampled_from(["none", "none", "float", "array"])),
        "fine": draw(fine) if x != "jax" else 0,
        "seed": draw(seeds),
    }


@sub("C26", strategy=dist, rule="at least two distributions", quick=600, shards=2)
def distributions(case):
    """Gaussian and Smail distributions are proportional to their formula for every population, integrate to one or to the norm, and do not alter their inputs."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    (z,) = refined(case["fine"], case["z"])
    n = 2 if case["kind"] == "gaussian" else 3
    sh = [tuple(s) if s or True else () for s in case["shapes"][:n]]
    rng = [(0.3, 2.0), (0.3, 1.0)] if n == 2 else [(0.2, 1.5), (0.5, 3), (0.5, 3)]
    par = [r.uniform(a, b, size=s) for s, (a, b) in zip(sh, rng)]
    args = [float(p) if not p.ndim and sc else F(xp, p) for p, sc in zip(par, case["scalars"])]
    kw, norm = {}, 1.0
    if case["norm"] != "none":
        norm = r.uniform(0.1, 30)
        kw["norm"] = float(norm) if case["norm"] == "float" else F(xp, norm)
    zz = F(xp, z)
    out = (glass.gaussian_nz if n == 2 else glass.smail_nz)(zz, *args, **kw)
    check_ns(out, xp)
    equal(N(zz), z, "redshifts after the call")
    for a, p in zip(args, par):
        equal(N(a), p, "parameters after the call")
    full = np.broadcast_shapes(*sh)
    p = [v[..., None] for v in par]
    if n == 2:
        lw = -(((z - p[0]) / p[1]) ** 2) / 2
    else:
        with np.errstate(divide="ignore"):
            z0 = p[0] * (p[2] / p[1]) ** (1 / p[2])
            lw = p[1] * np.log(z / z0) - (z / z0) ** p[2]
    raw = lw if n == 2 else lw + p[1] * np.log(z0)  # what is computed may underflow, entirely if the grid is far off the peak
    f = np.exp(lw - lw.max(axis=-1, keepdims=True))
    f = f / trapz(f, z)[..., None] * norm
    y = N(out)
    assert y.shape == (*full, z.size), f"shape {y.shape} for parameters {sh}"
    raw, f = np.broadcast_to(raw, y.shape), np.broadcast_to(f, y.shape)
    seen = raw.max(axis=-1) > -600
    far = raw < -650
    close(np.where(far, 0.0, y)[seen], np.where(far, 0.0, f)[seen], f"{case['kind']} distribution", rtol=1e-9, atol=1e-280)
    close(y[seen], f[seen], "far tail", rtol=1e-9, atol=1e-15 * np.max(np.abs(f), initial=0.0))
    close(trapz(y, z)[seen], np.full(full, norm)[seen], "integral", rtol=1e-12)
    return y.size > z.size


@st.composite
def zbins(draw):
    lo, n, d = draw(tidy(0, 2, 2)), draw(st.integers(1, 30)), draw(tidy(0.01, 1, 2))
    return {
        "xp": draw(backend(6, 3, 1)),
        "how": draw(st.sampled_from(["dz", "nbins"])),
        "zmin": lo,
        "zmax": draw(st.one_of(st.just(round(lo + n * d, 2)), tidy(lo + 0.01, lo + 5))),
        "dz": d,
        "nbins": n,
    }


@sub("C26", strategy=zbins, rule="at least two bins", quick=500)
def fixed(case):
    """Bins of fixed size are consecutive and equally wide; a number of bins ends at the upper limit, a width starts at the lower limit and covers the upper one, with no bin more than needed beyond rounding."""
    xp = XPS[case["xp"]]
    lo, hi = case["zmin"], case["zmax"]
    kw = {case["how"]: case[case["how"]]}
    b = glass.fixed_zbins(lo, hi, xp=xp, **kw)
    assert isinstance(b, list) and all(len(t) == 2 for t in b), f"not a list of pairs: {b}"
    for t in b:
        for v in t:
            check_ns(v, xp, "edge")
    e = np.array([[float(v) for v in t] for t in b])
    assert len(b) > 0, "no bins"
    equal(e[1:, 0], e[:-1, 1], "bins are consecutive")
    assert abs(e[0, 0] - lo) < 1e-12, f"first bin starts at {e[0, 0]}, not {lo}"
    w = e[:, 1] - e[:, 0]
    if case["how"] == "nbins":
        assert len(b) == case["nbins"], f"{len(b)} bins, not {case['nbins']}"
        assert abs(e[-1, 1] - hi) < 1e-12, f"last bin ends at {e[-1, 1]}, not {hi}"
        close(w, np.full(len(b), (hi - lo) / case["nbins"]), "widths", rtol=1e-9, atol=1e-12)
    else:
        close(w, np.full(len(b), case["dz"]), "widths", rtol=1e-9, atol=1e-12)
        assert e[-1, 1] >= hi - 1e-9 * case["dz"], f"bins end at {e[-1, 1]}, before {hi}"
        assert e[-1, 0] <= hi + 1e-9 * case["dz"], f"the last bin starts at {e[-1, 0]}, after {hi}"
        # one more only if the width divides the range
        need = (hi - lo) / case["dz"]
        if abs(need - round(need)) > 1e-9:
            assert len(b) == int(np.ceil(need)), f"{len(b)} bins of width {case['dz']} for {lo} to {hi}"
    raises(ValueError, lambda: glass.fixed_zbins(lo, hi, xp=xp, nbins=case["nbins"], dz=case["dz"]), "both")
    raises(ValueError, lambda: glass.fixed_zbins(lo, hi, xp=xp), "neither")
    return len(b) > 1


@st.composite
def sources(draw):
    x = draw(backend(12, 6, 1))
    k = draw(st.integers(2, 15)) if x != "jax" else 6
    z = ([0.0] if draw(st.booleans()) else []) + draw(increasing(0.0, 3.0, k, k, gap=0.01))
    nz = draw(st.lists(st.one_of(tidy(0.01, 5, 2), st.just(0.0)), min_size=len(z), max_size=len(z)))
    if not any(nz):
        nz[0] = 1.0
    e = draw(increasing(0.0, 3.5, 2, 6, gap=0.05))
    return {
        "xp": x,
        "z": z,
        "nz": nz,
        "nbins": draw(st.integers(1, 8)),
        "sigma": draw(st.sampled_from([0.05, 0.001, 0.01, 0.3, 1.0])),
        "edges": draw(st.sampled_from([e, [0.0, *e]])),
        "bins": draw(st.sampled_from(["equal", "given", "given", "shuffled", "array", "overlap", "fixed"])),
        "scale": draw(st.sampled_from([1.0, 1e-9, 1e6])),
        "fine": draw(fine) if x != "jax" else 0,
        "seed": draw(seeds),
    }


@sub("C26", strategy=sources, rule="at least two bins", quick=500)
def equal_density(case):
    """Equal-density bins are consecutive, within the range, cover all of the distribution, and contain the same share of it each."""
    xp = XPS[case["xp"]]
    z, nz = refined(case["fine"], case["z"], case["nz"])
    nz, n = nz * case["scale"], case["nbins"]
    zz, nn = F(xp, z), F(xp, nz)
    b = glass.equal_dens_zbins(zz, nn, n)
    equal(N(zz), z, "redshifts after the call")
    equal(N(nn), nz, "distribution after the call")
    assert isinstance(b, list) and len(b) == n, f"{len(b)} bins, not {n}"
    for t in b:
        for v in t:
            check_ns(v, xp, "edge")
    e = np.array([[float(v) for v in t] for t in b])
    equal(e[1:, 0], e[:-1, 1], "bins are consecutive")
    e = np.concatenate([e[:, 0], e[-1:, 1]])
    assert np.all(e >= z[0] - 1e-12) and np.all(e <= z[-1] + 1e-12), f"edges {e} outside of the range"
    c = np.concatenate([[0], np.cumsum((nz[1:] + nz[:-1]) / 2 * np.diff(z))])
    if c[-1] == 0:
        raise Skip
    # the cumulative distribution of a piecewise constant density
    close(np.interp(e, z, c / c[-1]), np.arange(n + 1) / n, "cumulative distribution at the edges", rtol=0, atol=1e-9)
    if nz[0] + nz[1] > 0:
        assert abs(e[0] - z[0]) < 1e-12, f"bins start at {e[0]}, not {z[0]}"
    if nz[-1] + nz[-2] > 0:
        assert abs(e[-1] - z[-1]) < 1e-12, f"bins end at {e[-1]}, not {z[-1]}"
    return n > 1


@sub("C26", strategy=sources, rule="at least two bins", quick=500, shards=2)
def tomographic(case):
    """Each part is the distribution times the probability that a Gaussian error, truncated at zero, moves the redshift into the bin: for bins in any order, form and number; parts of disjoint bins never exceed the whole, and amount to it where the bins cover everything."""
    xp = XPS[case["xp"]]
    z, nz = refined(case["fine"], case["z"], case["nz"])
    nz, s = nz * case["scale"], case["sigma"]
    e = np.array(case["edges"])
    bins = [(float(a), float(b)) for a, b in zip(e[:-1], e[1:])]
    zz, nn = F(xp, z), F(xp, nz)
    given = bins
    if case["bins"] == "equal":
        if np.sum(nz[1:] + nz[:-1]) == 0:
            raise Skip
        given = glass.equal_dens_zbins(zz, nn, case["nbins"])
        bins = [(float(a), float(b)) for a, b in given]
    elif case["bins"] == "fixed":
        given = glass.fixed_zbins(0.0, float(z[-1]), nbins=case["nbins"], xp=xp)
        bins = [(float(a), float(b)) for a, b in given]
    elif case["bins"] == "shuffled":
        bins = [bins[i] for i in rnd(case["seed"]).permutation(len(bins))]
        given = bins
    elif case["bins"] == "overlap":
        bins = [(bins[0][0], b) for _, b in bins] + bins
        given = bins
    elif case["bins"] == "array":
        given = F(xp, bins)
    out = glass.tomo_nz_gausserr(zz, nn, s, given)
    check_ns(out, xp)
    equal(N(zz), z, "redshifts after the call")
    equal(N(nn), nz, "distribution after the call")
    y = N(out)
    sd = s * (1 + z)
    want = np.stack([nz * (ndtr((b - z) / sd) - ndtr((a - z) / sd)) / np.exp(log_ndtr(z / sd)) for a, b in bins])
    assert y.shape == (len(bins), z.size), f"shape {y.shape} for {len(bins)} bins"
    close(y, want, "part of the distribution", rtol=1e-9, atol=1e-14 * nz.max())
    assert np.all(y >= -1e-14 * nz.max()), "negative part"
    if case["bins"] != "overlap":
        assert np.all(y.sum(axis=0) <= nz + 1e-12 * nz.max()), "parts exceed the whole"
    everything = N(glass.tomo_nz_gausserr(zz, nn, s, [(0.0, 1.0), (1.0, 3.0), (3.0, 1e3)]))
    close(everything.sum(axis=0), nz, "sum over bins that cover everything", rtol=1e-9, atol=1e-13 * nz.max())
    return len(bins) > 1
