"""C10: restricting, partitioning and recombining functions of redshift."""

import warnings

import numpy as np
from hypothesis import strategies as st

import glass
import glass.shells
from vf.be import F, N, XPS, backend, check_ns, close, equal, fine, increasing, raises, refined, rnd, seeds, sizes, tidy
from vf.core import sub

KINDS = {"tophat": glass.tophat_windows, "linear": glass.linear_windows, "cubic": glass.cubic_windows}


@st.composite
def windows(draw, kinds=("tophat", "linear", "cubic", "random"), most=6):
    kind = draw(st.sampled_from(kinds))
    if kind == "random":
        out = []
        for _ in range(draw(st.integers(1, 4))):
            z = draw(increasing(0.0, 2.0, 2, 6, gap=1e-3))
            v = draw(st.lists(tidy(0.0, 2.0), min_size=len(z), max_size=len(z)))
            v[len(v) // 2] += 0.1
            out.append([z, v])
        return {"kind": kind, "w": out}
    k = draw(sizes(most + 1, 3 * most, least=2 if kind == "tophat" else 3))
    return {"kind": kind, "e": draw(increasing(0.0, 2.0, k, k, gap=1e-2)), "dz": draw(st.sampled_from([0.02, 0.05, 0.3]))}


def build(case, xp):
    if case["kind"] == "random":
        return [glass.RadialWindow(F(xp, z), F(xp, v)) for z, v in case["w"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return KINDS[case["kind"]](F(xp, case["e"]), dz=case["dz"])


lead = st.lists(st.integers(1, 3), max_size=2)


@st.composite
def restrict_cases(draw):
    return {
        "w": draw(windows()),
        "z": draw(increasing(0.0, 2.2, 2, 9, gap=1e-3)),
        "hit": draw(st.booleans()),
        "fine": draw(fine),
        "lead": draw(lead),
        "xp": draw(backend(14, 5, 0)),
        "seed": draw(seeds),
    }


@sub("C10", strategy=restrict_cases, rule="the function's grid has points inside the window's support", quick=300, shards=2)
def restriction(case):
    """Union grid over the support; product of the interpolated function (zero outside its grid) and window at every grid point."""
    xp = XPS[case["xp"]]
    ws = build(case["w"], xp)
    r = rnd(case["seed"])
    (z,) = refined(case["fine"], case["z"])
    if case["hit"]:  # shared grid points, in particular the ends of the support
        za = N(ws[0].za)
        z = np.unique(np.concatenate([z, za[[0, -1]], za[:: max(1, za.size // 3)]]))
    f = r.normal(size=(*case["lead"], z.size))
    az, af = F(xp, z), F(xp, f)
    inside = False
    for w in ws:
        za, wa = N(w.za), N(w.wa)
        zr, fr = glass.restrict(az, af, w)
        check_ns(zr, xp)
        check_ns(fr, xp)
        zr, fr = N(zr), N(fr)
        mid = z[(z > za[0]) & (z < za[-1])]
        inside |= mid.size > 0
        want = np.unique(np.concatenate([za, mid]))
        equal(zr, want, "union grid")
        ff = np.array([np.interp(zr, z, row, left=0.0, right=0.0) for row in f.reshape(-1, z.size)]).reshape(*case["lead"], zr.size)
        close(fr, ff * np.interp(zr, za, wa), "restricted function", rtol=1e-9, atol=1e-12)
        equal(N(w.za), za, "window after the call")
        equal(N(w.wa), wa, "window after the call")
    equal(N(az), z, "grid after the call")
    equal(N(af), f, "function after the call")
    raises(ValueError, lambda: glass.restrict(F(xp, z[None]), af, ws[0]), "two-dimensional grid")
    part = glass.partition(az, af, ws, method="restrict")
    check_ns(part, xp)
    part = N(part)
    assert part.shape == (len(ws), *case["lead"]), part.shape
    for k, w in enumerate(ws):
        zr, fr = (N(x) for x in glass.restrict(az, af, w))
        close(part[k], np.trapezoid(fr, zr, axis=-1), f"restricted integral of window {k}", rtol=1e-9, atol=1e-12)
    return inside


@st.composite
def part_cases(draw):
    return {
        "w": draw(windows(("tophat", "linear", "cubic"), 5)),
        "z": draw(increasing(0.0, 2.2, 3, 12, gap=1e-2)),
        "lead": draw(lead),
        "method": draw(st.sampled_from(["nnls", "lstsq", "default"])),
        "sumtol": draw(st.sampled_from([None, 1e-6, 1e-3, 0.1, 1.0])),
        "signed": draw(st.booleans()),
        "xp": draw(backend(14, 5, 0)),
        "seed": draw(seeds),
    }


def system(z, f, ws, sumtol):
    """Documented matrix and target of the least-squares problem."""
    zp = np.unique(np.concatenate([z] + [N(w.za) for w in ws]))
    dz = np.gradient(zp)
    rows = []
    for w in ws:
        v = np.interp(zp, N(w.za), N(w.wa), left=0.0, right=0.0)
        rows.append(v / np.trapezoid(v, zp) * dz)
    lam = 1 / max(sumtol, 1e-4)
    a = np.concatenate([np.array(rows), np.full((len(ws), 1), lam)], axis=1).T
    b = np.array([np.append(np.interp(zp, z, row, left=0.0, right=0.0) * dz, lam * np.trapezoid(row, z)) for row in f])
    return a, b


@sub("C10", strategy=part_cases, rule="at least two windows", quick=240, shards=2)
def least_squares(case):
    """Optimality conditions of the documented problem for every function of the stack; shape is windows first, then leading axes."""
    xp = XPS[case["xp"]]
    ws = build(case["w"], xp)
    r = rnd(case["seed"])
    z = np.array(case["z"])
    f = r.normal(size=(*case["lead"], z.size)) if case["signed"] else r.uniform(0, 1, size=(*case["lead"], z.size))
    az, af = F(xp, z), F(xp, f)
    if case["sumtol"] is None or case["method"] == "default":
        x = glass.partition(az, af, ws, **({} if case["method"] == "default" else {"method": case["method"]}))
        tol = 0.01
    else:
        x = {"nnls": glass.shells.partition_nnls, "lstsq": glass.shells.partition_lstsq}[case["method"]](az, af, ws, sumtol=case["sumtol"])
        tol = case["sumtol"]
    check_ns(x, xp)
    x = N(x)
    assert x.shape == (len(ws), *case["lead"]), x.shape
    equal(N(az), z, "grid after the call")
    equal(N(af), f, "function after the call")
    a, b = system(z, f.reshape(-1, z.size), ws, tol)
    x = x.reshape(len(ws), -1)
    scale = np.linalg.norm(a, axis=0)
    for k in range(b.shape[0]):
        res = b[k] - a @ x[:, k]
        grad = (a.T @ res) / scale / max(np.linalg.norm(b[k]), np.linalg.norm(a @ x[:, k]), 1e-300)
        if case["method"] == "lstsq":
            assert np.all(np.abs(grad) < 1e-7), f"not the least-squares solution: gradient {np.abs(grad).max():.3g}"
        else:
            assert np.all(x[:, k] >= 0), f"negative weight {x[:, k].min()}"
            assert np.all(grad < 1e-7), f"increasing a weight reduces the residual: gradient {grad.max():.3g}"
            pos = x[:, k] > 1e-12 * np.abs(x[:, k]).max()
            assert np.all(np.abs(grad[pos]) < 1e-7), f"not optimal: gradient {np.abs(grad[pos]).max():.3g} for a positive weight"
    return len(ws) >= 2


@st.composite
def round_cases(draw):
    return {
        "w": draw(windows(("linear", "cubic"), 5)),
        "lead": draw(lead),
        "method": draw(st.sampled_from(["nnls", "lstsq"])),
        "extra": draw(st.lists(tidy(0.0, 2.0), max_size=5)),
        "zero": draw(st.booleans()),
        "xp": draw(backend(14, 5, 1)),
        "seed": draw(seeds),
    }


@sub("C10", strategy=round_cases, rule="at least two windows", quick=200, shards=2)
def recombination(case):
    """The combination is the weighted sum of unit-integral windows; partitioning it returns the weights, and combining these the function."""
    xp = XPS[case["xp"]]
    if case["xp"] == "jax":
        case["w"]["e"] = [0.0, 0.4, 0.9, 1.5, 2.0][: len(case["w"]["e"])]
        case["lead"] = []
    ws = build(case["w"], xp)
    r = rnd(case["seed"])
    x = r.uniform(0.1, 1, size=(len(ws), *case["lead"]))
    if case["method"] == "lstsq":
        x *= r.choice([-1, 1], size=x.shape)
    if case["zero"]:
        x *= r.choice([0, 1, 1], size=x.shape)
    z = np.unique(np.concatenate([N(w.za) for w in ws] + [np.array(case["extra"])]))
    f = glass.combine(F(xp, z), F(xp, x), ws)
    check_ns(f, xp)
    unit = np.array([np.interp(z, N(w.za), N(w.wa) / np.trapezoid(N(w.wa), N(w.za)), left=0.0, right=0.0) for w in ws])
    want = np.einsum("k...,kz->...z", x, unit)
    close(N(f), want, "combination", rtol=1e-9, atol=1e-10)
    close(np.trapezoid(N(f), z, axis=-1), x.sum(axis=0), "integral of the combination", rtol=1e-9, atol=1e-9)
    other = np.sort(r.uniform(-0.2, 2.2, size=int(r.integers(1, 12))))
    values = np.array([np.interp(other, N(w.za), N(w.wa) / np.trapezoid(N(w.wa), N(w.za)), left=0.0, right=0.0) for w in ws])
    close(N(glass.combine(F(xp, other), F(xp, x), ws)), np.einsum("k...,kz->...z", x, values), "combination at arbitrary redshifts", rtol=1e-9, atol=1e-10)
    got = N(glass.partition(F(xp, z), F(xp, N(f)), ws, method=case["method"]))
    close(got, x, "weights of the combination", rtol=1e-6, atol=1e-7)
    close(N(glass.combine(F(xp, z), F(xp, got), ws)), want, "recombination", rtol=1e-6, atol=1e-6)
    raises(ValueError, lambda: glass.partition(F(xp, z), F(xp, N(f)), ws, method="no-such-method"), "unknown method")
    return len(ws) >= 2
