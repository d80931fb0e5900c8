"""C05: Gaussian spectra reproduce the target spectra of the transformed fields."""

import warnings

import numpy as np
from hypothesis import strategies as st
from transformcl import cltocorr, corrtocl

import glass
import glass.grf
from vf.be import F, N, XPS, backend, check_ns, close, equal, raises, rnd, same, seeds, tidy
from vf.checks.c01_ordering import pairs
from vf.core import Skip, sub


def ref_corr(a, b, x):
    """Closed forms: covariance of the transformed fields for Gaussian covariance x."""
    if a[0] == "N" and b[0] == "N":
        return x
    if {a[0], b[0]} == {"N", "L"}:
        return x * (a[1] if a[0] == "L" else b[1])
    if a[0] == b[0] == "L":
        return a[1] * b[1] * (np.exp(x) - 1)
    if a[0] == b[0] == "S":
        return a[2] * b[2] * (2 * x**2 + 4 * a[1] * b[1] * x)
    raise NotImplementedError


def make(t):
    return {"N": glass.grf.Normal, "L": glass.grf.Lognormal, "S": glass.grf.SquaredNormal}[t[0]](*t[1:])


normal = st.just(["N"])
lognormal = tidy(0.2, 3.0).map(lambda a: ["L", a])
squared = st.tuples(tidy(0.6, 1.0), tidy(0.2, 3.0)).map(lambda t: ["S", *t])


@st.composite
def field_list(draw, nmax=4):
    n = draw(st.integers(1, nmax))
    kind = draw(st.sampled_from(["NL", "NL", "S"]))
    return draw(st.lists(squared if kind == "S" else st.one_of(normal, lognormal, lognormal), min_size=n, max_size=n))


def gaussian_targets(r, ts, nl, amp):
    """Gaussian spectra (positive definite, decaying) and the spectra they give after transformation."""
    n = len(ts)
    m = np.tril(r.normal(size=(n, n)) * 0.4)
    m[np.arange(n), np.arange(n)] = r.uniform(0.5, 1, size=n)
    c = m @ m.T
    shape = (1 + np.arange(nl)) ** -r.uniform(1.5, 3) * r.uniform(0.8, 1.2, size=nl)
    var = np.sum((2 * np.arange(nl) + 1) * shape) / (4 * np.pi)
    d = np.sqrt(np.diag(c))
    gls = []
    for i, j in pairs(n):
        a = amp / (d[i] * d[j]) / var
        gls.append(a * c[i, j] * shape)
    return gls


@st.composite
def compute_cases(draw):
    ts = draw(field_list())
    n = len(ts)
    return {
        "t": ts,
        "nl": draw(st.integers(1, 24)),
        "empty": draw(st.lists(st.sampled_from([0, 0, 0, 1]), min_size=n * (n + 1) // 2, max_size=n * (n + 1) // 2)),
        "amp": draw(st.sampled_from([1e-4, 0.05, 0.3])),
        "xp": draw(backend(16, 0, 1)),
        "seed": draw(seeds),
    }


@sub("C05", strategy=compute_cases, rule="at least two fields, one of them not normal", quick=250, shards=2)
def direct(case):
    """The direct transform inverts the closed-form correlation exactly on the band limit, pair by pair."""
    ts, nl, xp = case["t"], case["nl"], XPS[case["xp"]]
    n = len(ts)
    gls = gaussian_targets(rnd(case["seed"]), ts, nl, case["amp"])
    data = []
    for (i, j), g, e in zip(pairs(n), gls, case["empty"], strict=True):
        data.append(np.zeros(0) if e else corrtocl(ref_corr(ts[i], ts[j], cltocorr(g))))
    cls = [F(xp, d) for d in data]
    out = glass.compute_gaussian_spectra([make(t) for t in ts], cls)
    assert len(out) == len(cls)
    for k, (i, j) in enumerate(pairs(n)):
        got = N(out[k])
        if not data[k].size:
            assert got.shape == (0,), f"zero-length spectrum ({i},{j}) became {got.shape}"
            continue
        check_ns(out[k], xp)
        size = np.abs(gls[k]).max()
        close(got, gls[k], f"Gaussian spectrum ({i},{j}) for {ts[i]}, {ts[j]}", rtol=1e-8, atol=1e-9 * size)
        # the statement itself: through the public relation of correlations
        c = np.array(glass.grf.corr(make(ts[i]), make(ts[j]), cltocorr(got)))
        close(corrtocl(c), data[k], f"realised spectrum ({i},{j})", rtol=1e-7, atol=1e-9 * np.abs(data[k]).max())
        if ts[i][0] == ts[j][0] == "N":
            close(got, data[k], "spectrum of normal fields", rtol=1e-9, atol=1e-12 * size)
        if i == j:
            one = N(glass.grf.compute(cls[k], make(ts[i])))
            close(one, got, "single transformation", rtol=1e-12, atol=1e-13 * size)
    for c, d in zip(cls, data):
        equal(N(c), d, "target spectrum after the call")
    return n >= 2 and any(t[0] != "N" for t in ts)


@st.composite
def solve_cases(draw):
    kind = draw(st.sampled_from(["NL", "LL", "LL", "SS", "NN"]))
    pick = {"N": normal, "L": lognormal, "S": squared}
    return {
        "t1": draw(pick[kind[0]]),
        "t2": draw(st.one_of(st.none(), pick[kind[1]])),
        "nl": draw(st.integers(2, 24)),
        "pad": draw(st.sampled_from([0, 1, 8, 48])),
        "amp": draw(st.sampled_from([1e-3, 0.05, 0.3])),
        "cltol": draw(st.sampled_from([None, 1e-3, 1e-6, 1e-8])),
        "gltol": draw(st.sampled_from([None, 1e-3, 1e-9])),
        "maxiter": draw(st.sampled_from([None, 0, 1, 2, 30])),
        "monopole": draw(st.sampled_from([None, None, 0.0, 0.01])),
        "initial": draw(st.sampled_from([None, None, "short", "long", "same"])),
        "xp": draw(backend(12, 4, 1)),
        "seed": draw(seeds),
    }


@sub("C05", strategy=solve_cases, rule="the solver iterated (the target is not met by the first guess) and reports convergence", quick=400, shards=4)
def iterative(case):
    """Returned solution, realised spectrum and status are consistent: the realised spectrum is that of the solution and meets the reported tolerance."""
    xp = XPS[case["xp"]]
    r = rnd(case["seed"])
    t1 = case["t1"]
    t2 = case["t2"] or t1
    nl, pad = case["nl"], case["pad"]
    g = gaussian_targets(r, [t1], nl, case["amp"])[0]
    cl = corrtocl(ref_corr(t1, t2, cltocorr(np.pad(g, (0, pad)))))[:nl]
    if np.any(cl == 0):
        raise Skip
    kw = {k: case[k] for k in ("cltol", "gltol", "maxiter", "monopole") if case[k] is not None}
    if case["initial"]:
        m = {"short": max(1, nl // 2), "long": nl + 3, "same": nl}[case["initial"]]
        ini = np.zeros(m)
        ini[: min(m, nl)] = g[: min(m, nl)] * 0.9
        kw["initial"] = F(xp, ini)
    args = [make(t1)] if case["t2"] is None else [make(t1), make(t2)]
    gl, rl, info = glass.grf.solve(F(xp, cl), *args, pad=pad, **kw)
    check_ns(gl, xp)
    info = int(info)
    assert 0 <= info <= 3, info
    gl, rl = N(gl), N(rl)
    if case["initial"] and case["maxiter"] == 0:
        # nothing but the given solution, cut or continued with zeros to the length of the target
        want = np.zeros(nl)
        want[: min(m, nl)] = ini[:nl]
        if case["monopole"] is not None:
            want[0] = case["monopole"]
        equal(gl, want, "initial solution without iterations")
    assert gl.shape == (nl,) and rl.shape == (nl + pad,), (gl.shape, rl.shape)
    if not np.all(np.isfinite(gl)):
        assert info == 0, "not finite, but reported as converged"
        return False
    real = corrtocl(ref_corr(t1, t2, cltocorr(np.pad(gl, (0, pad)))))
    close(rl, real, "realised spectrum", rtol=1e-7, atol=1e-10 * np.abs(real).max())
    skip = 0
    if case["monopole"] is not None:
        assert gl[0] == case["monopole"], f"monopole is {gl[0]}, not {case['monopole']}"
        skip = 1
    err = np.max(np.abs(real[:nl] - cl)[skip:] / np.abs(cl[skip:]), initial=0.0)
    tol = case["cltol"] or 1e-5
    if info & 1:
        assert err <= tol * (1 + 1e-6) + 1e-9, f"reported convergence to {tol}, but the error is {err:.3g}"
    # the solution improves on, or equals, the direct one
    if case["initial"] is None and pad == 0 and case["monopole"] is None:
        assert info & 1 or case["maxiter"] in (0, 1, 2) or err < 1e-4, f"no convergence for an exactly solvable target: {info}, {err:.3g}"
    # solvable target, Newton's method, enough iterations, no constraint in the way
    if case["maxiter"] in (None, 30) and case["monopole"] is None and tol >= 1e-6 and case["amp"] <= 0.05:
        assert info, f"no convergence (error {err:.3g})"
    return bool(info) and (case["maxiter"] != 0)


@st.composite
def status_cases(draw):
    kind = draw(st.sampled_from(["LL", "LL", "SS", "NL"]))
    pick = {"N": normal, "L": lognormal, "S": squared}
    return {
        "t1": draw(pick[kind[0]]),
        "t2": draw(pick[kind[1]]),
        "nl": draw(st.integers(2, 20)),
        "pad": draw(st.sampled_from([8, 24, 60])),
        "amp": draw(st.sampled_from([0.05, 0.3, 0.6])),
        "start": draw(st.sampled_from([None, 0.5, 0.9, 1.5])),
        "monopole": draw(st.sampled_from([None, None, 0.0])),
        "tols": draw(st.lists(st.tuples(st.sampled_from([1.0, 0.3, 0.1, 0.01, 1e-4, 1e-7]), st.sampled_from([1.0, 0.3, 0.1, 0.01, 1e-4, 1e-7])), min_size=1, max_size=4)),
        "seed": draw(seeds),
    }


@sub("C05", strategy=status_cases, rule="converged after at least one step", quick=120, shards=2)
def status(case):
    """The solver stops at its first iterate which meets either tolerance, and reports which of the two it meets; the iterates are those seen with a limited number of iterations."""
    r, nl, pad = rnd(case["seed"]), case["nl"], case["pad"]
    t1, t2 = case["t1"], case["t2"]
    g = gaussian_targets(r, [t1], nl, case["amp"])[0]
    cl = corrtocl(ref_corr(t1, t2, cltocorr(np.pad(g, (0, pad)))))[:nl] * r.uniform(0.9, 1.1, size=nl)
    kw = {"pad": pad}
    if case["monopole"] is not None:
        kw["monopole"] = case["monopole"]
    if case["start"]:
        kw["initial"] = g * case["start"]
    skip = int(case["monopole"] is not None)
    a, b = make(t1), make(t2)
    # the iterates, which no tolerance stops
    steps = []
    for k in range(9):
        gl, rl, _ = glass.grf.solve(cl.copy(), a, b, cltol=0.0, gltol=0.0, maxiter=k, **kw)
        if not np.all(np.isfinite(gl)):
            break
        steps.append((gl, np.max(np.abs(rl[:nl] - cl)[skip:] / np.abs(cl[skip:]), initial=0.0)))
    if case["start"]:
        equal(steps[0][0][skip:], (g * case["start"])[skip:], "iterate before the first step")
    moves = [np.inf] + [np.max(np.abs(y - x)[skip:] / np.maximum(np.abs(x[skip:]), 1e-300), initial=0.0) for (x, _), (y, _) in zip(steps, steps[1:])]
    some = False
    for cltol, gltol in case["tols"]:
        clear = lambda v, tol: v < 0.99 * tol - 1e-12 or v > 1.01 * tol + 1e-12  # noqa: E731
        at = 0
        while at < len(steps) and clear(steps[at][1], cltol) and clear(moves[at], gltol) and steps[at][1] > cltol and moves[at] > gltol:
            at += 1
        if at >= len(steps) or not (clear(steps[at][1], cltol) and clear(moves[at], gltol)):
            continue
        want = (steps[at][1] <= cltol) + 2 * (moves[at] <= gltol)
        gl, rl, info = glass.grf.solve(cl.copy(), a, b, cltol=cltol, gltol=gltol, maxiter=20, **kw)
        same(gl, steps[at][0], f"solution for tolerances {cltol}, {gltol} and iterate {at}")
        assert int(info) == want, f"status {info}, but the error is {steps[at][1]:.3g} (tolerance {cltol}) and the step was {moves[at]:.3g} (tolerance {gltol})"
        some |= at > 0
    return some


@st.composite
def wrap_cases(draw):
    ts = draw(field_list(3))
    n = len(ts)
    m = n * (n + 1) // 2
    return {
        "t": ts,
        "nl": draw(st.lists(st.sampled_from([0, 3, 5, 9, 9, 16]), min_size=m, max_size=m)),
        "mono": draw(st.lists(st.booleans(), min_size=m, max_size=m)),
        "amp": draw(st.sampled_from([1e-3, 0.05])),
        "xp": draw(backend(12, 4, 1)),
        "seed": draw(seeds),
    }


@sub("C05", strategy=wrap_cases, rule="at least two fields and two different lengths", quick=160, shards=2)
def solved_sets(case):
    """Solved sets of spectra reproduce every pair's target when padded to three times the length; zero target monopoles stay zero."""
    ts, xp = case["t"], XPS[case["xp"]]
    n = len(ts)
    r = rnd(case["seed"])
    full = gaussian_targets(r, ts, 16, case["amp"])
    data = []
    for (i, j), g, k, mono in zip(pairs(n), full, case["nl"], case["mono"], strict=True):
        c = corrtocl(ref_corr(ts[i], ts[j], cltocorr(np.pad(g[:k], (0, 2 * k)))))[:k] if k else np.zeros(0)
        if mono and k:
            c[0] = 0.0
        data.append(c)
    cls = [F(xp, d) for d in data]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = glass.solve_gaussian_spectra([make(t) for t in ts], cls)
    warned = any("did not converge" in str(x.message) for x in w)
    assert len(out) == len(cls)
    bad = False
    for k, (i, j) in enumerate(pairs(n)):
        got, nl = N(out[k]), data[k].size
        assert got.shape == (nl,), f"length of ({i},{j}): {got.shape} from {nl}"
        if not nl:
            continue
        check_ns(out[k], xp)
        real = corrtocl(ref_corr(ts[i], ts[j], cltocorr(np.pad(got, (0, 2 * nl)))))[:nl]
        s = 0
        if data[k][0] == 0:
            assert got[0] == 0, f"zero monopole became {got[0]}"
            s = 1
        err = np.max(np.abs(real - data[k])[s:] / np.abs(data[k][s:]), initial=0.0)
        bad |= not err <= 1e-4
        if ts[i][0] == ts[j][0] == "N":
            close(got, data[k], "spectrum of normal fields", rtol=1e-4, atol=1e-12)
    assert warned or not bad, f"target spectra missed without a warning (error {err:.3g})"
    assert not warned or any(m and k for m, k in zip(case["mono"], case["nl"])), "solvable targets did not converge"
    for c, d in zip(cls, data):
        equal(N(c), d, "target spectrum after the call")
    return n >= 2 and len(set(case["nl"])) > 1


@sub(
    "C05",
    strategy=lambda: st.fixed_dictionaries({"lam": tidy(0.05, 1.0), "nl": st.integers(2, 12), "pad": st.integers(0, 24), "amp": st.sampled_from([0.1, 3.0, 50.0]), "kind": st.sampled_from(["L", "S"]), "seed": seeds}),
    rule="the target is not a possible spectrum of the transformed field",
    quick=150,
)
def inadmissible(case):
    """Any finite target terminates; a result that is not finite is reported as not converged."""
    r = rnd(case["seed"])
    cl = r.normal(size=case["nl"]) * case["amp"]
    t = glass.grf.Lognormal(case["lam"]) if case["kind"] == "L" else glass.grf.SquaredNormal(min(case["lam"], 1.0))
    gl, rl, info = glass.grf.solve(cl.copy(), t, pad=case["pad"])
    finite = bool(np.all(np.isfinite(gl)))
    assert finite or info == 0, "not finite, but reported as converged"
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = glass.solve_gaussian_spectra([t], [cl.copy()])
    if not np.all(np.isfinite(N(out[0]))):
        assert any("did not converge" in str(x.message) for x in w), "no warning for an invalid solution"
    raises(ValueError, lambda: glass.grf.solve(cl.copy(), t, pad=-1), "negative padding")
    return not finite
