"""C18: galaxy bias and positional weights."""

import numpy as np
from hypothesis import strategies as st

import glass
from vf.be import backend, check_ns, close, equal, F, fine, increasing, N, refined, rnd, seeds, tidy, XPS
from vf.core import Skip, sub


@st.composite
def windows(draw):
    z = draw(increasing(0.0, 2.0, 2, 7, gap=0.01))
    w = draw(st.lists(tidy(0.0, 3.0, 2), min_size=len(z), max_size=len(z)))
    return {"z": z, "w": w, "fine": draw(fine)}


@st.composite
def ecases(draw):
    return {
        "xp": draw(backend(14, 6, 0)),
        "win": draw(windows()),
        "bz": draw(increasing(-0.5, 2.5, 2, 9, gap=0.01)),
        "cover": draw(st.booleans()),
        "same": draw(st.integers(0, 5)),
        "kind": draw(st.sampled_from(["free", "const", "linear"])),
        "fine": draw(fine),
        "seed": draw(seeds),
    }


@sub("C18", strategy=ecases, rule="the bias is not constant over the window", quick=400, shards=2)
def effective(case):
    """The effective bias is the trapezoidal weighted mean on the union of both grids; constants are exact and the mean stays between the extremes."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    za, wa = refined(case["win"]["fine"], case["win"]["z"], case["win"]["w"])
    if np.trapezoid(wa, za) == 0:
        raise Skip
    (z,) = refined(case["fine"], case["bz"])
    if case["cover"]:
        z = np.concatenate([[min(z[0], za[0]) - 0.1], z, [max(z[-1], za[-1]) + 0.1]])
    if case["same"] == 0:
        z = za.copy()
    elif case["same"] == 1:
        z = np.union1d(z, za)
    elif case["same"] == 2:  # other points, but as many and to the same ends
        z = np.concatenate([za[:1], np.sort(r.uniform(za[0], za[-1], size=za.size - 2)), za[-1:]])
        z = z if np.all(np.diff(z) > 1e-6) else za.copy()
    b = {"free": lambda: r.uniform(0.2, 4, size=z.size), "const": lambda: np.full(z.size, 1.7), "linear": lambda: 1 + 0.8 * z}[case["kind"]]()
    w = glass.RadialWindow(F(xp, za), F(xp, wa), 0.5)
    zz, bb = F(xp, z), F(xp, b)
    out = glass.effective_bias(zz, bb, w)
    for a, k in ((zz, z), (bb, b), (w.za, za), (w.wa, wa)):
        equal(N(a), k, "input after the call")
    got = float(out)
    lo, hi = max(z[0], za[0]), min(z[-1], za[-1])
    if lo >= hi:
        assert got == 0, f"{got} without overlap"
        return False
    g = np.union1d(z, za)
    g = g[(g >= lo) & (g <= hi)]
    norm = np.sum(np.diff(za) * (wa[1:] + wa[:-1]) / 2)
    y = np.interp(g, z, b) * np.interp(g, za, wa)
    want = np.sum(np.diff(g) * (y[1:] + y[:-1]) / 2) / norm
    close(got, want, "effective bias", rtol=1e-10, atol=1e-12)
    if z[0] <= za[0] and z[-1] >= za[-1]:
        assert b.min() - 1e-12 <= got <= b.max() + 1e-12, f"{got} outside of [{b.min()}, {b.max()}]"
        if case["kind"] == "const":
            close(got, 1.7, "effective bias of a constant", rtol=1e-12)
    return case["kind"] != "const"


@st.composite
def mcases(draw):
    x = draw(backend(14, 6, 1))
    n = draw(st.integers(1, 20)) if x != "jax" else 5
    return {
        "xp": x,
        "shape": draw(st.sampled_from([[n], [n], [2, n], [3, 1, n]])) if x != "jax" else [5],
        "kind": draw(st.sampled_from(["void", "lognormal", "tiny", "normal", "zero"])),
        "b": draw(st.one_of(tidy(0.01, 4.0, 2), st.sampled_from([1.0, 2.0, 0.5, -0.7]))),
        "arr": draw(st.sampled_from(["float", "0d", "array"])) if x != "jax" else "float",
        "seed": draw(seeds),
    }


@sub("C18", strategy=mcases, rule="bias other than one and contrasts not all zero", quick=400, shards=2)
def models(case):
    """Linear bias multiplies; log-linear bias is a power law, accurate also for tiny contrasts and exact for empty pixels."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    shape = tuple(case["shape"])
    d = {
        "void": lambda: np.where(r.random(shape) < 0.5, -1.0, r.uniform(-1, 3, size=shape)),
        "lognormal": lambda: np.exp(r.normal(size=shape)) - 1,
        "tiny": lambda: r.choice([-1, 1], size=shape) * 10.0 ** r.uniform(-13, -8, size=shape),
        "normal": lambda: np.maximum(r.normal(size=shape), -0.999),
        "zero": lambda: np.zeros(shape),
    }[case["kind"]]()
    b = case["b"]
    if b < 0 and case["kind"] == "void":
        b = -b
    barr = np.broadcast_to(np.array(b), shape[:-1] + (1,)) * (1 + np.arange(np.prod(shape[:-1], dtype=int)).reshape(shape[:-1] + (1,))) if case["arr"] == "array" else np.array(b)
    arg = b if case["arr"] == "float" else F(xp, barr)
    dd = F(xp, d)
    lin = glass.linear_bias(dd, arg)
    check_ns(lin, xp)
    close(N(lin), barr * d, "linear bias", rtol=1e-14)
    log = glass.loglinear_bias(dd, arg)
    check_ns(log, xp)
    equal(N(dd), d, "contrast after the call")
    ld = d.astype(np.longdouble)
    want = (1 + ld) ** barr.astype(np.longdouble) - 1
    if case["kind"] == "tiny":
        want = barr * ld * (1 + (barr - 1) * ld / 2)
        close(N(log).astype(float), want.astype(float), "log-linear bias of tiny contrast", rtol=1e-11, atol=0)
    close(N(log).astype(float), want.astype(float), "log-linear bias", rtol=1e-10, atol=1e-15)
    big = np.abs(want) > 1e-3
    close(N(log)[big], want[big].astype(float), "log-linear bias", rtol=1e-11)
    if b > 0:
        assert np.all(N(log) >= -1), "log-linear bias below -1"
    return b != 1 and bool(np.any(d != 0))


@st.composite
def pcases(draw):
    x = draw(backend(14, 6, 1))
    n = draw(st.integers(1, 6)) if x != "jax" else 3
    dims = draw(st.lists(st.integers(1, 3), max_size=2)) if x != "jax" else draw(st.sampled_from([[], [3]]))
    bias = draw(st.sampled_from(["none", "float", "0d", "shell", "full", "outer"]))
    return {"xp": x, "n": n, "dims": dims, "bias": bias, "seed": draw(seeds)}


@sub("C18", strategy=pcases, rule="at least two shells", quick=400, shards=2)
def weights(case):
    """Positional weights are the shares of the total over the shells times the bias, for all shapes."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    n, dims = case["n"], tuple(case["dims"])
    d = r.uniform(0, 5, size=(n, *dims)) * (r.random((n, *dims)) < 0.8)
    d[0] += 0.1
    dd = F(xp, d)
    shape = (n, *dims)
    kind = case["bias"]
    if kind == "none":
        b = np.array(1.0)
        args = (dd,) if r.integers(2) else (dd, None)
    elif kind in ("float", "0d"):
        b = np.array(r.uniform(0.5, 3))
        args = (dd, float(b) if kind == "float" else F(xp, b))
    else:
        bs = {"shell": (n,) + (1,) * len(dims), "full": shape, "outer": (n, *dims, 2) if not dims else (n, 2, *dims)}[kind]
        b = r.uniform(-0.5, 3, size=bs)
        args = (dd, F(xp, b if kind != "shell" or r.integers(2) else b))
    out = glass.position_weights(*args)
    check_ns(out, xp)
    equal(N(dd), d, "densities after the call")
    if kind == "outer":
        # trailing axes broadcast, the first axis being the shells
        total = np.broadcast_to(np.moveaxis(np.moveaxis(d, 0, -1)[..., :] if dims else d[None, :].repeat(2, 0), -1, 0), b.shape) if not dims else np.stack([d] * 2, axis=1)
    else:
        total = d
    want = total / np.sum(total, axis=0, keepdims=True) * b
    close(N(out), want, "weights", rtol=1e-12)
    if kind == "none":
        close(np.sum(N(out), axis=0), np.ones(dims), "sum of weights", rtol=1e-12)
    return n >= 2
