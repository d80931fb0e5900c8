"""C21: sampled redshifts."""

import warnings

import numpy as np
from hypothesis import strategies as st

import glass
from vf.be import backend, check_ns, close, equal, F, fine, increasing, N, refined, rnd, seeds, tidy, XPS
from vf.core import sub
from vf.rec import Scripted
from vf.stats import generator, uniform


def cdf(z, nz):
    c = np.concatenate([[0.0], np.cumsum((nz[1:] + nz[:-1]) / 2 * np.diff(z))])
    return c / c[-1]


def pit(x, z, nz):
    """Cumulative probability of redshifts; the density is piecewise constant in between the nodes."""
    return np.interp(x, z, cdf(z, nz))


def density(draw, z):
    if not draw(st.integers(0, 4)):
        return [draw(st.sampled_from([1.0, 3e-9, 5e8]))] * len(z)
    nz = draw(st.lists(st.one_of(st.just(0.0), tidy(0.01, 4.0, 2)), min_size=len(z), max_size=len(z)))
    if sum(nz) == 0:
        nz[draw(st.integers(0, len(z) - 1))] = 1.0
    return nz


class Edges(Scripted):
    def __init__(self, seed, edges):
        super().__init__(seed)
        self.edges = edges

    def unit_uniform(self, k):
        u = self.base.random(k)
        return np.where(self.base.random(k) < 0.3, self.base.choice([0.0, 1 - 2.0**-53, 0.5], size=k), u) if self.edges else u


@st.composite
def cases(draw):
    x = draw(backend(14, 6, 1))
    k = draw(st.integers(2, 8)) if x != "jax" else 4
    dims = draw(st.lists(st.integers(1, 3), max_size=2)) if x != "jax" else draw(st.sampled_from([[], [2]]))
    z = draw(increasing(0.0, 2.0, k, k, gap=0.01))

    def sh():
        s = [n if draw(st.integers(0, 2)) else 1 for n in dims]
        return s[draw(st.integers(0, len(s))) if draw(st.booleans()) else 0 :]

    return {
        "xp": x,
        "z": z,
        "nz": [density(draw, z) for _ in range(4)],
        "s_count": sh(),
        "s_z": sh(),
        "s_nz": sh(),
        "count": draw(st.sampled_from(["array", "int"])),
        "edges": draw(st.booleans()),
        "how": draw(st.sampled_from(["nz", "nz", "window"])),
        "warn": draw(st.sampled_from([None, True, False])),
        "max": draw(st.sampled_from([0, 3, 40])) if x != "jax" else 3,
        "fine": draw(fine) if x != "jax" else 0,
        "seed": draw(seeds),
    }


@sub("C21", strategy=cases, rule="at least two redshifts", quick=500, shards=3)
def exact(case):
    """The redshifts of each population are the inverse cumulative distribution at the uniform variates drawn, in range, with the requested numbers and order, and warned about as documented."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    window = case["how"] == "window"
    sz = [] if window else case["s_z"]
    sn = [] if window else case["s_nz"]
    z, nzs = refined(case["fine"], case["z"], case["nz"])
    z = z + 0.1 * np.arange(np.prod(sz, dtype=int)).reshape(*sz, 1)
    nz = nzs[r.integers(0, 4, size=sn)]
    cs = [] if case["count"] == "int" else case["s_count"]
    count = r.integers(0, case["max"] + 1, size=cs)
    dims = np.broadcast_shapes(cs, tuple(sz), tuple(sn))
    k = z.shape[-1]
    cb, zb, nb = np.broadcast_to(count, dims), np.broadcast_to(z, (*dims, k)), np.broadcast_to(nz, (*dims, k))
    rng = Edges(case["seed"], case["edges"])
    zz, nn = F(xp, z), F(xp, nz)
    c = int(count) if case["count"] == "int" else xp.asarray(count.copy())
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        if window:
            out = glass.redshifts(c, glass.RadialWindow(zz, nn, 0.5), rng=rng)
            expect = False
        else:
            out = glass.redshifts_from_nz(c, zz, nn, rng=rng, **({} if case["warn"] is None else {"warn": case["warn"]}))
            expect = case["warn"] is not False
    about = [w for w in caught if "redshifts_from_nz" in str(w.message)]
    assert bool(about) == expect, f"warnings: {[str(w.message) for w in caught]}"
    check_ns(out, xp)
    equal(N(zz), z, "grid after the call")
    equal(N(nn), nz, "distribution after the call")
    x = N(out)
    assert x.shape == (int(cb.sum()),), f"{x.shape} redshifts for counts {cb.tolist()}"
    u = np.concatenate([np.ravel(e[1]) for e in rng.log if e[0] == "uniform"] or [np.zeros(0)])
    i = 0
    for j in np.ndindex(dims):
        n = int(cb[j])
        part = x[i : i + n]
        zj, nj = zb[j], nb[j]
        assert np.all((part >= zj[0]) & (part <= zj[-1])), "redshift outside of the grid"
        lo, hi = np.flatnonzero(nj > 0)[[0, -1]]
        assert np.all((part >= zj[max(lo - 1, 0)] - 1e-12) & (part <= zj[min(hi + 1, k - 1)] + 1e-12)), "redshift where the distribution vanishes"
        if u.size == x.size:
            close(np.sort(pit(part, zj, nj)), np.sort(u[i : i + n]), "cumulative probabilities of redshifts", rtol=0, atol=1e-9)
        i += n
    return x.size >= 2


@sub("C21", strategy=cases, rule="always", quick=60, thorough=1500, shards=3)
def distributed(case):
    """With an ordinary generator the cumulative probabilities of thousands of redshifts are uniform and independent, and never repeat between populations."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    z = np.array(case["z"])
    nz = np.array(case["nz"][:2])
    if case["how"] == "window":
        x = N(glass.redshifts(3000, glass.RadialWindow(F(xp, z), F(xp, nz[0]), 0.1), rng=generator(case)))
        parts = [(x, nz[0])]
    else:
        n = np.array([1500, 2500])
        x = N(glass.redshifts_from_nz(xp.asarray(n), F(xp, z), F(xp, nz), rng=generator(case), warn=False))
        parts = [(x[:1500], nz[0]), (x[1500:], nz[1])]
    for p, d in parts:
        uniform(pit(p, z, d), "cumulative probability of redshift")
    if len(parts) == 2:
        a, b = pit(parts[0][0], z, nz[0]), pit(parts[1][0][:1500], z, nz[1])
        assert np.mean(np.abs(a - b) < 1e-9) < 0.01, "populations use the same variates"
    return True


@st.composite
def bcases(draw):
    x = draw(backend(14, 6, 1))
    k = draw(st.integers(2, 6))
    return {
        "xp": x,
        "z": draw(increasing(0.0, 1.0, k, k, gap=0.01)),
        "nbins": draw(st.integers(1, 5)),
        "labels": draw(st.sampled_from(["int", "int", "negative", "float", "str", "array"] if x == "np" else ["int", "negative", "float"])),
        "shape": draw(st.sampled_from([[0], [1], [7], [30], [4, 5], [2, 3, 4], [0, 3], []])) if x != "jax" else [6],
        "extra": draw(st.booleans()),
        "seed": draw(seeds),
    }


@sub("C21", strategy=bcases, rule="at least two bins with galaxies", quick=400, shards=2)
def bins(case):
    """Each galaxy of a catalogue of bin labels, of any shape and label type, gets a redshift from the distribution of its own label."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    k, nb = len(case["z"]), case["nbins"]
    # one grid for all; bin b lives in its own stretch of it
    z = np.concatenate([np.array(case["z"]) + 2.0 * b for b in range(nb)])
    labels = {"int": lambda: list(r.permutation(20)[:nb]), "negative": lambda: list(r.permutation(20)[:nb] - 10), "float": lambda: list(r.permutation(20)[:nb] / 4), "str": lambda: [f"bin{i}" for i in r.permutation(20)[:nb]], "array": lambda: [np.int64(i) for i in r.permutation(20)[:nb]]}[case["labels"]]()
    labels = [v.item() if isinstance(v, np.generic) and case["labels"] != "array" else v for v in labels]
    dist = {}
    for b, label in enumerate(labels):
        nz = np.zeros(k * nb)
        nz[b * k : (b + 1) * k] = r.uniform(0.1, 1, size=k)
        dist[label] = nz
    used = labels[: max(1, nb - 1)] if case["extra"] else labels
    shape = tuple(case["shape"])
    pick = r.integers(0, len(used), size=shape)
    arr = np.array(used)[pick]
    bb = xp.asarray(arr.copy()) if case["xp"] != "np" else arr.copy()
    if case["xp"] == "np" and not shape:
        bb = np.asarray(bb)
    order = r.permutation(nb)
    d = {labels[i]: F(xp, dist[labels[i]]) for i in order}
    rng = Edges(case["seed"], False)
    out = glass.redshifts_from_bins(bb, F(xp, z), d, rng=rng)
    check_ns(out, xp)
    x = N(out)
    assert x.shape == shape, f"{x.shape} for labels of shape {shape}"
    assert np.array_equal(N(bb), arr), "labels changed"
    which = np.array([labels.index(v) for v in np.array(used)[pick].ravel().tolist()], dtype=int).reshape(shape) if shape or True else 0
    lo, hi = z[which * k], z[which * k + k - 1]
    # up to the ends of the segments next to the stretch of the bin
    zlo = np.where(which > 0, z[which * k - 1], lo)
    zhi = np.where(which < nb - 1, z[np.minimum(which * k + k, z.size - 1)], hi)
    assert np.all((x >= zlo) & (x <= zhi)), "redshift outside of the distribution of its bin"
    u = np.concatenate([np.ravel(e[1]) for e in rng.log if e[0] == "uniform"] or [np.zeros(0)])
    if u.size == x.size:
        got = np.array([pit(v, z, dist[labels[w]]) for v, w in zip(x.ravel(), np.ravel(which))])
        close(np.sort(got), np.sort(u), "cumulative probabilities of redshifts", rtol=0, atol=1e-9)
    return np.unique(which).size >= 2
