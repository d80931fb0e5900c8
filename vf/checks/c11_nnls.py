"""C11: non-negative least squares."""

import numpy as np
from hypothesis import strategies as st

import glass
import glass.algorithm
from vf.be import F, N, XPS, backend, check_ns, equal, raises, rnd, seeds, sizes
from vf.core import sub


@st.composite
def cases(draw):
    n = draw(sizes(9, 40))
    return {
        "n": n,
        "m": draw(st.integers(n, n + 12)),
        "kind": draw(st.sampled_from(["normal", "positive", "correlated", "integer", "scaled"])),
        "rhs": draw(st.sampled_from(["normal", "inside", "outside", "boundary", "zero"])),
        "xp": draw(backend(14, 5, 0)),
        "seed": draw(seeds),
    }


def matrix(r, m, n, kind):
    a = r.normal(size=(m, n))
    if kind == "positive":
        a = np.abs(a)
    elif kind == "correlated":
        a = a + 3 * r.normal(size=(m, 1))
    elif kind == "integer":
        a = r.integers(-3, 4, size=(m, n)).astype(float)
    elif kind == "scaled":
        a = a * np.exp(r.uniform(-3, 3, size=n))
    return a


def optimal(a, b, x, tol=0.0, eps=1e-8):
    """Karush-Kuhn-Tucker conditions of min |a x - b| for x >= 0."""
    assert x.shape == (a.shape[1],), x.shape
    assert np.all(np.isfinite(x)) and np.all(x >= 0), f"invalid entries: {x}"
    w = a.T @ (b - a @ x)
    lim = eps * np.linalg.norm(a, axis=0) * max(np.linalg.norm(b), 1e-30) * np.linalg.cond(a) ** 0.5
    assert np.all(w <= tol + lim), f"increasing entry {int(np.argmax(w - lim))} reduces the residual (gradient {np.max(w):.3g})"
    assert np.all(np.abs(w[x > 0]) <= lim[x > 0]), f"positive entry is not optimal (gradient {np.max(np.abs(w[x > 0])):.3g})"


@sub("C11", strategy=cases, rule="at least two unknowns, and the unconstrained solution has negative entries", quick=500, shards=2)
def kkt(case):
    """Optimality conditions of the constrained problem; no better point among random non-negative candidates."""
    xp = XPS[case["xp"]]
    r = rnd(case["seed"])
    m, n = case["m"], case["n"]
    a = matrix(r, m, n, case["kind"])
    if np.linalg.matrix_rank(a) < n or np.linalg.cond(a) > 1e6:
        a = a + 2 * np.eye(m, n)
        if np.linalg.cond(a) > 1e6:
            return False
    x0 = r.uniform(0, 1, size=n)
    b = {
        "normal": lambda: r.normal(size=m),
        "inside": lambda: a @ x0,
        "outside": lambda: -a @ x0,
        "boundary": lambda: a @ (x0 * r.integers(0, 2, size=n)) + 0.0,
        "zero": lambda: np.zeros(m),
    }[case["rhs"]]()
    aa, bb = F(xp, a), F(xp, b)
    x = glass.algorithm.nnls(aa, bb)
    check_ns(x, xp)
    equal(N(aa), a, "matrix after the call")
    equal(N(bb), b, "vector after the call")
    x = N(x)
    optimal(a, b, x)
    best = np.linalg.norm(a @ x - b)
    for _ in range(5):
        y = np.maximum(x + r.normal(size=n) * r.choice([1e-3, 0.1, 1.0]), 0)
        assert best <= np.linalg.norm(a @ y - b) + 1e-7 * (1 + np.linalg.norm(b)), "a better non-negative vector exists"
    if case["rhs"] == "inside":
        assert np.allclose(x, x0, rtol=1e-5, atol=1e-6 * np.linalg.cond(a)), "exact non-negative solution not found"
    return n >= 2 and bool(np.any(np.linalg.lstsq(a, b, rcond=None)[0] < 0))


@sub(
    "C11",
    strategy=lambda: st.fixed_dictionaries({"n": st.integers(1, 8), "extra": st.integers(0, 5), "tol": st.sampled_from([0.0, 1e-3, 1.0, 1e3]), "maxiter": st.sampled_from([None, 0, 1, 2, 5]), "xp": backend(14, 5, 0), "seed": seeds, "ndim": st.integers(0, 3), "off": st.integers(-1, 2)}),
    rule="an iteration limit or tolerance is in effect",
    quick=300,
)
def limits(case):
    """With a tolerance, only gradients up to it remain; with an iteration limit the result is non-negative and never worse than zero; wrong shapes are refused."""
    xp = XPS[case["xp"]]
    r = rnd(case["seed"])
    n, m = case["n"], case["n"] + case["extra"]
    a = r.normal(size=(m, n)) + 2 * np.eye(m, n)
    b = r.normal(size=m)
    kw = {} if case["maxiter"] is None else {"maxiter": case["maxiter"]}
    x = N(glass.algorithm.nnls(F(xp, a), F(xp, b), tol=case["tol"], **kw))
    assert x.shape == (n,) and np.all(x >= 0), x
    assert np.linalg.norm(a @ x - b) <= np.linalg.norm(b) * (1 + 1e-9), "worse than the zero vector"
    if case["maxiter"] is None:
        optimal(a, b, x, tol=case["tol"])
    else:
        assert np.count_nonzero(x) <= case["maxiter"], "more unknowns than iterations"
    if case["ndim"] != 2:
        bad = F(xp, np.ones((2,) * case["ndim"]))
        raises(ValueError, lambda: glass.algorithm.nnls(bad, F(xp, np.ones(2))), "not a matrix")
    if case["ndim"] != 1:
        bad = F(xp, np.ones((m,) + (2,) * (case["ndim"] - 1)) if case["ndim"] else np.array(1.0))
        raises(ValueError, lambda: glass.algorithm.nnls(F(xp, a), bad), "not a vector")
    if case["off"] and m + case["off"] > 0:
        raises(ValueError, lambda: glass.algorithm.nnls(F(xp, a), F(xp, np.ones(m + case["off"]))), "shapes do not match")
    return case["maxiter"] is not None or case["tol"] > 0


@st.composite
def deficient(draw):
    return {
        "m": draw(st.integers(1, 9)),
        "n": draw(st.integers(1, 9)),
        "kind": draw(st.sampled_from(["wide", "duplicate", "combination", "zero", "integer", "lowrank"])),
        "rhs": draw(st.sampled_from(["normal", "inside", "outside", "zero"])),
        "scale": draw(st.sampled_from([0, 0, -7, 6])),
        "rscale": draw(st.sampled_from([0, 0, -9, 5])),
        "xp": draw(backend(14, 5, 0)),
        "seed": draw(seeds),
    }


@sub("C11", strategy=deficient, rule="the columns of the matrix are linearly dependent", quick=400, shards=2)
def dependent(case):
    """Matrices with dependent columns, or more columns than rows: some optimum is returned, as judged by the optimality conditions and no better random candidate."""
    xp = XPS[case["xp"]]
    r = rnd(case["seed"])
    m, n = case["m"], case["n"]
    a = r.normal(size=(m, n))
    if case["kind"] == "duplicate":
        a = a[:, r.integers(0, n, size=n)]
    elif case["kind"] == "combination" and n >= 3:
        a[:, -1] = 0.5 * a[:, 0] + 0.5 * a[:, 1]
    elif case["kind"] == "zero":
        a[:, r.integers(0, n)] = 0
    elif case["kind"] == "integer":
        a = r.integers(-1, 2, size=(m, n)).astype(float)
    elif case["kind"] == "lowrank":
        a = r.normal(size=(m, 1)) @ r.normal(size=(1, n))
    b = {"normal": lambda: r.normal(size=m), "inside": lambda: a @ r.uniform(0, 1, size=n), "outside": lambda: -a @ r.uniform(0, 1, size=n), "zero": lambda: np.zeros(m)}[case["rhs"]]()
    a, b = a * 10.0 ** case["scale"], b * 10.0 ** case["rscale"]
    sv = np.linalg.svd(a, compute_uv=False)
    nz = sv[sv > 1e-10 * max(sv[0], 1e-300)]
    if nz.size and nz[0] / nz[-1] > 1e4:
        return False
    x = N(glass.algorithm.nnls(F(xp, a), F(xp, b)))
    assert x.shape == (n,) and np.all(np.isfinite(x)) and np.all(x >= 0), f"invalid entries: {x}"
    w = a.T @ (b - a @ x)
    lim = 1e-6 * np.linalg.norm(a, axis=0) * np.linalg.norm(b) + 1e-300
    assert np.all(w <= lim), f"increasing entry {int(np.argmax(w - lim))} reduces the residual"
    assert np.all(np.abs(w[x > 0]) <= lim[x > 0]), "positive entry is not optimal"
    if case["rhs"] == "inside":
        assert np.linalg.norm(a @ x - b) <= 1e-6 * np.linalg.norm(b), "exact non-negative solution not found"
    return len(nz) < n
