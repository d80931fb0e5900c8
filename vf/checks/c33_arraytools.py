"""C33: array utilities."""

import math

import numpy as np
from hypothesis import strategies as st

import glass.arraytools as at
from glass._array_api_utils import xp_additions as uxpx
from vf.be import A, backend, check_ns, close, equal, F, fine, increasing, N, raises, refined, rnd, seeds, tidy, XPS
from vf.core import sub


def bshape(draw, full):
    s = [n if draw(st.integers(0, 2)) else 1 for n in full]
    return s[draw(st.integers(0, len(s))) if draw(st.booleans()) else 0 :]


@st.composite
def several(draw):
    first = draw(st.integers(1, 4))
    full = draw(st.one_of(st.lists(st.integers(1, 4), min_size=1, max_size=3), st.lists(st.integers(0, 2), max_size=2)))
    k = draw(st.integers(1, 4))
    arrays = []
    for _ in range(k):
        if draw(st.integers(0, 5)) == 0:
            arrays.append(None)
        else:
            arrays.append([first if draw(st.integers(0, 3)) else 1, *bshape(draw, full)])
    return {
        "xp": draw(backend(8, 4, 2)),
        "arrays": arrays,
        "lead": [bshape(draw, full) for _ in range(k)],
        "trail": [draw(st.lists(st.integers(0, 3), max_size=2)) for _ in range(k)],
        "python": draw(st.booleans()),
        "seed": draw(seeds),
    }


@sub("C33", strategy=several, rule="at least two arrays", quick=400)
def broadcast_first(case):
    """Entry (i, j, k, ...) of each result is the entry of the array with the same first index and the others broadcast from the right."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    # one-dimensional arrays have only the common axis
    a = [r.normal(size=() if s is None else tuple(s)) for s in case["arrays"]]
    given = [F(xp, v) for v in a]
    out = at.broadcast_first(*given)
    assert isinstance(out, tuple) and len(out) == len(a), f"{len(out)} results"
    first = max([v.shape[0] for v in a if v.ndim and v.shape[0] != 1] or [1 if any(v.ndim for v in a) else 0])
    rest = np.broadcast_shapes(*[v.shape[1:] for v in a if v.ndim])
    full = (first, *rest) if any(v.ndim for v in a) else ()
    for g, v, o in zip(given, a, out):
        check_ns(o, xp)
        equal(N(g), v, "array after the call")
        o = N(o)
        assert o.shape == full, f"shape {o.shape} of result, expected {full} for {[v.shape for v in a]}"
        for i in np.ndindex(*full):
            if v.ndim == 0:
                w = v
            else:
                tail = i[1:][len(i) - v.ndim :] if v.ndim > 1 else ()
                w = v[(0 if v.shape[0] == 1 else i[0], *[0 if n == 1 else j for n, j in zip(v.shape[1:], tail)])]
            assert o[i] == w, f"entry {i} is {o[i]}, not {w}"
    return len(a) > 1 and len(full) > 1


@sub("C33", strategy=several, rule="at least two arrays", quick=400)
def broadcast_leading(case):
    """All but the last axes are broadcast, for arrays and plain numbers, and the shape of the leading axes is returned."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    args, ref = [], []
    for lead, trail in zip(case["lead"], case["trail"]):
        v = r.normal(size=(*lead, *trail))
        scalar = case["python"] and not lead and not trail
        args.append((float(v) if scalar else F(xp, v), len(trail)))
        ref.append(v)
    kw = {"xp": xp} if all(isinstance(a, float) for a, _ in args) or case["seed"] % 2 else {}
    dims, *out = at.broadcast_leading_axes(*args, **kw)
    want = np.broadcast_shapes(*map(tuple, case["lead"]))
    assert tuple(dims) == want, f"leading axes {dims}, expected {want}"
    assert len(out) == len(ref), f"{len(out)} results"
    for o, v, t in zip(out, ref, case["trail"]):
        check_ns(o, xp)
        equal(N(o), np.broadcast_to(v, (*want, *t)), "broadcast array")
    return len(args) > 1


@st.composite
def interpolation(draw):
    x = draw(backend(8, 4, 1))
    k = draw(st.integers(1, 6)) if x != "jax" else 4
    dims = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)) if x != "jax" else [2, 3]
    return {
        "xp": x,
        "xq": draw(increasing(-2.0, 3.0, k, k, gap=0.01)),
        "dims": dims,
        "axis": draw(st.integers(0, len(dims) - 1)),
        "negative": draw(st.booleans()),
        "new": draw(st.sampled_from([[5], [1], [2, 3], []])) if x != "jax" else [5],
        "left": draw(st.one_of(st.none(), tidy(-5, 5))),
        "right": draw(st.one_of(st.none(), tidy(-5, 5))),
        "period": draw(st.sampled_from([None, None, None, 6.0])),
        "default": draw(st.booleans()),
        "fine": draw(fine) if x != "jax" else 0,
        "seed": draw(seeds),
    }


def lerp(x, xq, fq, left, right, period):
    """Linear interpolation of one value."""
    if period is not None:
        x = x % period
        q = np.asarray(xq) % period
        o = np.argsort(q)
        xq = np.concatenate([[q[o[-1]] - period], q[o], [q[o[0]] + period]])
        fq = np.concatenate([[fq[o[-1]]], fq[o], [fq[o[0]]]])
    elif x < xq[0]:
        return fq[0] if left is None else left
    elif x > xq[-1]:
        return fq[-1] if right is None else right
    if len(xq) == 1:
        return fq[0]
    i = min(max(int(np.searchsorted(xq, x, side="right")) - 1, 0), len(xq) - 2)
    t = (x - xq[i]) / (xq[i + 1] - xq[i])
    return fq[i] + t * (fq[i + 1] - fq[i])


@sub("C33", strategy=interpolation, rule="at least two functions", quick=500, shards=2)
def ndinterp(case):
    """Interpolation over any axis is the interpolation of each one-dimensional function, at, between and outside of its nodes, with values to the left and right or periodic."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    (xq,) = refined(case["fine"], case["xq"])
    dims, ax = list(case["dims"]), case["axis"]
    if case["default"]:
        ax = len(dims) - 1
    dims[ax] = xq.size
    fq = r.normal(size=dims)
    x = r.uniform(xq[0] - 1, xq[-1] + 1, size=case["new"])
    x = np.where(r.uniform(size=x.shape) < 0.3, r.choice(xq, size=x.shape), x)
    kw = {k: case[k] for k in ("left", "right", "period") if case[k] is not None}
    if not case["default"]:
        kw["axis"] = ax - len(dims) if case["negative"] else ax
    xa, qa, fa = (float(x) if x.ndim == 0 else F(xp, x)), F(xp, xq), F(xp, fq)
    out = at.ndinterp(xa, qa, fa, **kw)
    check_ns(out, xp)
    for g, v in ((xa, x), (qa, xq), (fa, fq)):
        equal(N(g), v, "array after the call")
    want = np.zeros((*dims[:ax], *x.shape, *dims[ax + 1 :]))
    for i in np.ndindex(*dims[:ax]):
        for j in np.ndindex(*dims[ax + 1 :]):
            for k in np.ndindex(*x.shape):
                want[i + k + j] = lerp(x[k], xq, fq[i + (slice(None),) + j], kw.get("left"), kw.get("right"), kw.get("period"))
    close(N(out), want, "interpolation", rtol=1e-9, atol=1e-12)
    f = fq.reshape(-1, xq.size)[0]
    kw.pop("axis", None)
    out = uxpx.interp(F(xp, x), qa, F(xp, f), **kw)
    check_ns(out, xp)
    close(N(out), np.array([lerp(v, xq, f, kw.get("left"), kw.get("right"), kw.get("period")) for v in x.ravel()]).reshape(x.shape), "interpolation of one function", rtol=1e-9, atol=1e-12)
    return fq.size > xq.size


@st.composite
def functions(draw):
    x = draw(backend(8, 4, 1))
    k = draw(st.sampled_from([2, 1, 3, 4, 6, 9])) if x != "jax" else 2
    common = draw(increasing(0.0, 3.0, 12, 12, gap=0.01))
    fs = []
    for _ in range(k):
        n = draw(st.integers(2, 6)) if x != "jax" else 4
        if draw(st.booleans()):
            i = draw(st.integers(0, 12 - n))
            z = common[i : i + n]
        else:
            a = draw(tidy(0.0, 0.8))
            z = draw(increasing(a, a + draw(tidy(0.5, 2.0)), n, n, gap=0.001))
        fs.append(z)
    return {"xp": x, "z": fs, "axis": draw(st.sampled_from([None, -1, 0])), "fine": draw(fine) if x != "jax" else 0, "seed": draw(seeds)}


@sub("C33", strategy=functions, rule="at least two functions overlap", quick=500)
def trapezoid_product(case):
    """The integral of a product of functions is the trapezoidal rule over all of their nodes in the common range; it does not depend on the order of the functions, is zero without a common range, and is the exact integral when all but one are constant."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    fs = [refined(case["fine"], z)[0] for z in case["z"]]
    fs = [(z, r.normal(size=len(z))) for z in fs]
    given = [(F(xp, z), F(xp, f)) for z, f in fs]
    kw = {} if case["axis"] is None else {"axis": case["axis"]}
    out = at.trapezoid_product(*given, **kw)
    for (a, b), (z, f) in zip(given, fs):
        equal(N(a), z, "nodes after the call")
        equal(N(b), f, "values after the call")
    lo, hi = max(z[0] for z, _ in fs), min(z[-1] for z, _ in fs)
    x = np.unique(np.concatenate([z[(z >= lo) & (z <= hi)] for z, _ in fs]))
    y = np.ones(x.size)
    for z, f in fs:
        y = y * np.interp(x, z, f)
    want = np.sum((y[1:] + y[:-1]) / 2 * np.diff(x))
    close(float(out), want, f"integral over {x.size} nodes", rtol=1e-9, atol=1e-11)
    if len(fs) > 1:
        o = at.trapezoid_product(*given[::-1])
        close(float(o), want, "integral of the functions in reverse", rtol=1e-9, atol=1e-11)
    return len(fs) > 1 and x.size > 1


@st.composite
def grids(draw):
    x = draw(backend(8, 4, 1))
    k = draw(st.integers(1, 8)) if x != "jax" else 4
    return {
        "xp": x,
        "x": draw(increasing(-1.0, 4.0, k, k, gap=0.001)),
        "dims": draw(st.lists(st.integers(1, 3), max_size=2)) if x != "jax" else [2],
        "axis": draw(st.integers(0, 2)),
        "negative": draw(st.booleans()),
        "how": draw(st.sampled_from(["x", "x", "full", "dx", "default"])),
        "dx": draw(tidy(0.1, 3)),
        "int": draw(st.booleans()),
        "lead_x": draw(st.booleans()),
        "fine": draw(fine) if x != "jax" else 0,
        "seed": draw(seeds),
    }


@sub("C33", strategy=grids, rule="at least two intervals", quick=500)
def integration(case):
    """The cumulative integral over the last axis is the running sum of trapezoids from zero, for any leading axes of function or grid and for integers; the integral is the sum over any axis, with nodes, spacing or unit spacing."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    (x,) = refined(case["fine"], case["x"])
    x1 = x
    k, dims = x.size, list(case["dims"])
    f = r.integers(-9, 9, size=(*dims, k)) if case["int"] else r.normal(size=(*dims, k))
    if case["lead_x"]:
        x = x + np.arange(np.prod(dims, dtype=int)).reshape(*dims, 1)
    fa, xa = xp.asarray(f.copy()), F(xp, x)
    out = at.cumulative_trapezoid(fa, xa)
    check_ns(out, xp)
    equal(N(fa), f, "function after the call")
    equal(N(xa), x, "grid after the call")
    c = np.zeros(f.shape)
    for i in range(1, k):
        c[..., i] = c[..., i - 1] + (f[..., i] + f[..., i - 1]) / 2 * (x[..., i] - x[..., i - 1])
    close(N(out), c, "cumulative integral", rtol=1e-9, atol=1e-12)
    # the integral over any axis
    ax = case["axis"] % (len(dims) + 1)
    g = np.moveaxis(f, -1, ax).astype(float)
    kw = {"axis": ax - g.ndim if case["negative"] else ax}
    if case["how"] == "x":
        kw["x"], d = F(xp, x1), np.diff(x1)
    elif case["how"] == "full":
        xf = np.moveaxis(np.broadcast_to(x1, f.shape), -1, ax)
        kw["x"], d = F(xp, xf), np.diff(x1)
    elif case["how"] == "dx":
        kw["dx"], d = case["dx"], np.full(k - 1, case["dx"])
    else:
        d = np.ones(k - 1)
    out = uxpx.trapezoid(F(xp, g), **kw)
    want = np.sum((f[..., 1:] + f[..., :-1]) / 2 * d, axis=-1)
    assert np.shape(out) == want.shape, f"shape {np.shape(out)} of the integral over axis {ax} of {g.shape}"
    close(np.asarray(out), want, "integral", rtol=1e-9, atol=1e-12)
    return k > 2


def by_loops(spec, ops):
    """Einstein sum from its definition."""
    ins, out = spec.split("->")
    ins = ins.split(",")
    size = {c: n for s, o in zip(ins, ops) for c, n in zip(s, o.shape)}
    free = [c for c in size if c not in out]
    res = np.zeros([size[c] for c in out])
    for i in np.ndindex(*res.shape):
        for j in np.ndindex(*[size[c] for c in free]):
            v = dict(zip(out, i)) | dict(zip(free, j))
            t = 1.0
            for s, o in zip(ins, ops):
                t *= o[tuple(v[c] for c in s)]
            res[i] += t
    return res


@st.composite
def linear(draw):
    x = draw(backend(5, 5, 1))
    return {
        "xp": x,
        "n": draw(st.integers(1, 6)) if x != "jax" else 4,
        "m": draw(st.integers(1, 5)) if x != "jax" else 3,
        "rank": draw(st.integers(1, 5)),
        "cols": draw(st.sampled_from([None, 1, 3])) if x != "jax" else None,
        "spec": draw(st.sampled_from(["ij,jk->ik", "ij,ij->j", "i,j->ij", "ij->ji", "ii->i", "ij->", "ij,jk,kl->il", "ijk,jk->i", "i,i->"])),
        "seed": draw(seeds),
    }


@sub("C33", strategy=linear, rule="at least two rows and columns", quick=300)
def linear_algebra(case):
    """Least squares is the solution of smallest norm, with rank and singular values; Einstein sums are sums over products of entries."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    n, m, k = case["n"], case["m"], min(case["rank"], case["n"], case["m"])
    a = r.normal(size=(n, k)) @ r.normal(size=(k, m))
    b = r.normal(size=(n,) if case["cols"] is None else (n, case["cols"]))
    aa, ba = F(xp, a), F(xp, b)
    x, res, rank, s = uxpx.linalg_lstsq(aa, ba, rcond=1e-10)
    equal(N(aa), a, "matrix after the call")
    check_ns(x, xp)
    close(N(x), np.linalg.pinv(a, rcond=1e-10) @ b, "solution", rtol=1e-6, atol=1e-6 * np.abs(np.linalg.pinv(a, rcond=1e-10)).max())
    assert int(rank) == k, f"rank {rank}, expected {k}"
    close(N(s), np.linalg.svd(a, compute_uv=False), "singular values", rtol=1e-6, atol=1e-10)
    size = dict(zip("ijkl", (n, m, 2, 3)))
    if case["spec"] == "ii->i":
        size["i"] = m
    ins = case["spec"].split("->")[0].split(",")
    ops = [r.normal(size=[size[c] for c in s]) for s in ins]
    out = uxpx.einsum(case["spec"], *(F(xp, o) for o in ops))
    close(np.asarray(out), by_loops(case["spec"], ops), f"Einstein sum {case['spec']}", rtol=1e-9, atol=1e-12)
    return n > 1 and m > 1


@st.composite
def arrays(draw):
    return {
        "xp": draw(backend(4, 4, 1)),
        "shape": draw(st.lists(st.integers(1, 4), max_size=3)),
        "k": draw(st.integers(-3, 3)),
        "n": draw(st.integers(0, 5)),
        "m": draw(st.one_of(st.none(), st.integers(0, 5))),
        "len": draw(st.integers(2, 9)),
        "axis": draw(st.integers(0, 2)),
        "seed": draw(seeds),
    }


@sub("C33", strategy=arrays, rule="more than one entry", quick=300)
def elementwise(case):
    """Gradient, angles, vectorised functions, index listings and functions along an axis agree with their definition."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    f = r.normal(size=case["len"])
    g = N(uxpx.gradient(F(xp, f)))
    want = np.array([f[min(i + 1, f.size - 1)] - f[max(i - 1, 0)] for i in range(f.size)]) / np.array([1 if i in (0, f.size - 1) else 2 for i in range(f.size)])
    close(g, want, "gradient", rtol=1e-12, atol=1e-14)
    a = r.normal(size=case["shape"]) * 100
    for fn, c in ((uxpx.degrees, 180 / math.pi), (uxpx.radians, math.pi / 180)):
        out = fn(F(xp, a))
        check_ns(out, xp)
        close(N(out), a * c, "angle", rtol=1e-12)
    fn = uxpx.vectorize(lambda x, y: math.atan2(x, y) + 1, otypes=(float,), xp=xp)
    b = r.normal(size=case["shape"][-1:])
    close(np.asarray(fn(F(xp, a), F(xp, b))), np.arctan2(a, b) + 1, "vectorised function", rtol=1e-12)
    idx = uxpx.tril_indices(case["n"], k=case["k"], m=case["m"], xp=xp)
    m = case["n"] if case["m"] is None else case["m"]
    pairs = [(i, j) for i in range(case["n"]) for j in range(m) if j <= i + case["k"]]
    assert [(int(i), int(j)) for i, j in zip(*map(N, idx))] == pairs, f"lower triangle of {case['n']}, {m} with offset {case['k']}"
    shape = tuple(case["shape"])
    want = [tuple(int(v) for v in np.unravel_index(i, shape)) if shape else () for i in range(int(np.prod(shape, dtype=int)))]
    assert list(uxpx.ndindex(shape, xp=xp)) == want, "listing of indices"
    if a.ndim:
        ax = case["axis"] % a.ndim
        w = r.normal(size=a.shape[ax])
        out = uxpx.apply_along_axis(lambda p, v: p * v, (F(xp, w),), ax, F(xp, a))
        check_ns(out, xp)
        close(N(out), a * w.reshape([-1 if i == ax else 1 for i in range(a.ndim)]), "function along an axis", rtol=1e-12)
    return a.size > 1
