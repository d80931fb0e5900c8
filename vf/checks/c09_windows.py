"""C09: radial window functions."""

import dataclasses
import warnings

import numpy as np
from hypothesis import strategies as st

import glass
from vf.be import F, N, XPS, backend, check_ns, close, equal, increasing, raises, rnd, seeds, tidy
from vf.core import sub

KINDS = {"tophat": glass.tophat_windows, "linear": glass.linear_windows, "cubic": glass.cubic_windows}


def weight_ref(a):
    return {"none": None, "z2": lambda z: z**2 + 0.01, "exp": lambda z: np.exp(-z), "ez": lambda z: 1 / (1 + z) ** 1.5, "steep": lambda z: np.exp(-9 * z), "step": lambda z: np.where(z < 0.8, 1.0 + z, 7.0), "hump": lambda z: 1 / (1 + ((z - 0.6) / 0.02) ** 2)}[a]


def weight_xp(a, xp):
    if a == "none":
        return None
    return {"z2": lambda z: z**2 + 0.01, "exp": lambda z: xp.exp(-z), "ez": lambda z: 1 / (1 + z) ** 1.5, "steep": lambda z: xp.exp(-9 * z), "step": lambda z: xp.where(z < 0.8, 1.0 + z, 7.0), "hump": lambda z: 1 / (1 + ((z - 0.6) / 0.02) ** 2)}[a]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    k = draw(st.integers(2 if kind == "tophat" else 3, 7))
    edges = draw(increasing(0.0, draw(st.sampled_from([1.0, 3.0])), k, k, gap=1e-3))
    if draw(st.booleans()):
        edges[0] = 0.0
    return {
        "kind": kind,
        "edges": edges,
        "dz": draw(st.sampled_from([None, 0.003, 0.01, 0.07, 0.1, 0.15, 0.5])),
        "weight": draw(st.sampled_from(["none", "z2", "exp", "ez", "steep", "step", "hump"])),
        "xp": draw(backend(14, 5, 1)),
    }


def bump(kind, u):
    """Rise from zero to one over the unit interval."""
    return u if kind == "linear" else u * u * (3 - 2 * u)


@sub("C09", strategy=cases, rule="at least two windows", quick=1000, shards=2)
def shape(case):
    """Grids, values, weights and effective redshifts of every window against the piecewise definition."""
    xp, kind, e = XPS[case["xp"]], case["kind"], np.array(case["edges"])
    dz = case["dz"] or 1e-3
    arr = F(xp, e)
    kw = {} if case["dz"] is None else {"dz": case["dz"]}
    if case["weight"] != "none":
        kw["weight"] = weight_xp(case["weight"], xp)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        ws = KINDS[kind](arr, **kw)
    assert bool(w) == (e[0] != 0), f"warnings: {[str(x.message) for x in w]} for first edge {e[0]}"
    equal(N(arr), e, "edges after the call")
    nw = e.size - 1 if kind == "tophat" else e.size - 2
    assert len(ws) == nw, f"{len(ws)} windows from {e.size} edges"
    wref = weight_ref(case["weight"]) or np.ones_like
    for i, win in enumerate(ws):
        assert isinstance(win, glass.RadialWindow)
        check_ns(win.za, xp)
        check_ns(win.wa, xp)
        z, v = N(win.za), N(win.wa)
        assert z.ndim == 1 and z.shape == v.shape and z.size >= 2, (z.shape, v.shape)
        assert np.all(np.diff(z) > 0), "redshifts of the window are not increasing"
        parts = [(e[i], e[i + 1])] if kind == "tophat" else [(e[i], e[i + 1]), (e[i + 1], e[i + 2])]
        close(z[[0, -1]], [parts[0][0], parts[-1][1]], f"support of window {i}", rtol=1e-12, atol=1e-15)
        for lo, hi in parts:
            s = z[(z >= lo - 1e-12) & (z <= hi + 1e-12)]
            d = np.diff(s)
            if d.size > 1:
                close(d, np.full(d.size, d.mean()), "spacing", rtol=1e-6)
            assert d.max() <= 3 * dz or s.size == 2, f"spacing {d.max()} for dz={dz}"
            assert d.size <= 2 * (hi - lo) / dz + 1, f"{d.size} intervals for width {hi - lo}, dz={dz}"
            if kind != "tophat":
                assert np.any(np.abs(s - lo) < 1e-12) and np.any(np.abs(s - hi) < 1e-12), "a node is not on the grid"
        if kind == "tophat":
            want = wref(z)
        else:
            _, mid, hi = e[i : i + 3]
            lo = e[i]
            u = np.where(z <= mid, (z - lo) / (mid - lo), (hi - z) / (hi - mid))
            want = bump(kind, np.clip(u, 0, 1)) * wref(z)
        close(v, want, f"{kind} window {i}", rtol=1e-9, atol=1e-9)
        zeff = float(win.zeff)
        if kind == "tophat":
            close(zeff, np.trapezoid(z * want, z) / np.trapezoid(want, z), "effective redshift", rtol=1e-9)
            assert z[0] <= zeff <= z[-1], "effective redshift outside the window"
        else:
            close(zeff, e[i + 1], "effective redshift", rtol=1e-12)
    return nw >= 2


@sub("C09", strategy=cases, rule="at least three windows", quick=200, shards=2)
def cover(case):
    """Sum of all windows at arbitrary redshifts is the weight function, inside the covered range; documented support between effective redshifts."""
    xp, kind, e = XPS[case["xp"]], case["kind"], np.array(case["edges"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ws = KINDS[kind](F(xp, e), **({} if case["dz"] is None else {"dz": case["dz"]}))
    lo, hi = (e[0], e[-1]) if kind == "tophat" else (e[1], e[-2])
    # grid points (exact for the cubic kind, whose values between grid points are interpolated) and points in between
    z = np.unique(np.concatenate([N(w.za) for w in ws]))
    z = np.concatenate([z, (z[1:] + z[:-1]) / 2])
    inner = z[np.abs(z[:, None] - e).min(axis=1) > 1e-9]
    if kind == "tophat":
        z = inner  # neighbouring shells share their edges
    z = z[(z >= lo) & (z <= hi)]
    vals = np.array([np.interp(z, N(w.za), N(w.wa), left=0.0, right=0.0) for w in ws])
    close(vals.sum(axis=0), np.ones(z.size), "sum of windows", rtol=0, atol=1e-9)
    assert np.all(vals >= 0) and np.all(vals <= 1 + 1e-12)
    assert np.all((vals > 0).sum(axis=0) <= (1 if kind == "tophat" else 2)), "too many windows overlap"
    if kind == "tophat":
        assert np.all((vals == 1) | (vals == 0))
    zeff = [float(w.zeff) for w in ws]
    assert np.all(np.diff(zeff) > 0), "effective redshifts are not increasing"
    for i, w in enumerate(ws):
        za, wa = N(w.za), N(w.wa)
        for j, z0 in enumerate(zeff):
            if kind != "tophat" and i != j:
                assert abs(np.interp(z0, za, wa, left=0, right=0)) < 1e-12, f"window {i} does not vanish at the effective redshift of {j}"
    return len(ws) >= 3


@sub(
    "C09",
    strategy=lambda: st.fixed_dictionaries({"kind": st.sampled_from(sorted(KINDS)), "n": st.integers(0, 3), "ndim": st.integers(0, 2), "xp": backend(3, 2, 1), "z": st.lists(tidy(0, 3), min_size=2, max_size=6, unique=True).map(sorted), "v": st.lists(tidy(0.1, 2), min_size=6, max_size=6)}),
    rule="the edge list is invalid",
    quick=150,
)
def invalid(case):
    """Too few edges or edges that are not one-dimensional are refused; windows are immutable, and compute their mean redshift if none is given."""
    xp, kind = XPS[case["xp"]], case["kind"]
    need = 2 if kind == "tophat" else 3
    n, ndim = case["n"], case["ndim"]
    if ndim == 1:
        edges = np.linspace(0, 1, n) if n else np.zeros(0)
    elif ndim == 0:
        edges = np.array(1.0)
    else:
        edges = np.linspace(0, 1, 4 * max(n, 1)).reshape(max(n, 1), 4)
    bad = ndim != 1 or n < need
    if bad:
        raises(ValueError, lambda: KINDS[kind](F(xp, edges)), f"{kind} windows from edges of shape {edges.shape}")
    else:
        KINDS[kind](F(xp, edges), dz=0.1)
    z, v = np.array(case["z"]), np.array(case["v"])[: len(case["z"])]
    w = glass.RadialWindow(F(xp, z), F(xp, v))
    close(float(w.zeff), np.trapezoid(z * v, z) / np.trapezoid(v, z), "effective redshift", rtol=1e-9)
    assert z[0] <= float(w.zeff) <= z[-1]
    assert w.__array_namespace__().__name__ == xp.__name__
    w2 = glass.RadialWindow(w.za, w.wa, 0.25)
    assert w2.zeff == 0.25
    for name in ("za", "wa", "zeff"):
        raises(dataclasses.FrozenInstanceError, lambda name=name: setattr(w2, name, 1.0), f"setting {name}")
        raises(dataclasses.FrozenInstanceError, lambda name=name: delattr(w2, name), f"deleting {name}")
    w3 = dataclasses.replace(w2, zeff=0.5)
    assert w3.zeff == 0.5 and w2.zeff == 0.25
    equal(N(w3.za), z)
    a, b, c = w3
    equal(N(a), z)
    equal(N(b), v)
    assert c == 0.5
    return bad
