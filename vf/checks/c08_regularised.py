"""C08: regularised spectra and covariance matrices."""

import warnings

import numpy as np
from hypothesis import strategies as st

import glass
import glass.algorithm
from vf.be import F, N, XPS, backend, check_ns, close, equal, raises, rnd, seeds, sizes
from vf.checks.c01_ordering import pairs
from vf.core import sub

SHAPES = [[], [1], [4], [2, 3], [0], [2, 1, 2]]


def symmetric(r, shape, n, kind):
    """Random symmetric matrices with a chosen signature."""
    q, _ = np.linalg.qr(r.normal(size=(*shape, n, n)))
    w = r.uniform(0.1, 2, size=(*shape, n))
    if kind == "indefinite":
        w *= r.choice([-1, 1], size=w.shape)
    elif kind == "singular":
        w *= r.choice([0, 1], size=w.shape)
    elif kind == "negative":
        w *= -1
    elif kind == "mixed":
        w *= r.choice([-1, 0, 1, 1], size=w.shape)
    elif kind == "zero":
        w *= 0
    m = (q * w[..., None, :]) @ np.swapaxes(q, -1, -2)
    return (m + np.swapaxes(m, -1, -2)) / 2


def correlation(r, shape, n, kind):
    """Symmetric matrices with unit diagonal."""
    if kind == "valid":
        a = r.normal(size=(*shape, n, n + 2))
        m = a @ np.swapaxes(a, -1, -2)
        d = np.sqrt(np.einsum("...ii->...i", m))
        m = 0.9 * m / d[..., :, None] / d[..., None, :]
    else:
        m = r.uniform(-1, 1, size=(*shape, n, n)) * (1.5 if kind == "wild" else 1.0)
        if kind == "mixed":
            m *= r.choice([0.2 / n, 1.0], size=(*shape, 1, 1))
    m = np.tril(m, -1)
    return m + np.swapaxes(m, -1, -2) + np.eye(n)


base = {
    "shape": st.sampled_from(SHAPES),
    "n": sizes(6, 20),
    "xp": backend(12, 5, 0),
    "seed": seeds,
}


@sub(
    "C08",
    strategy=lambda: st.fixed_dictionaries(
        {**base, "xp": backend(16, 5, 1), "kind": st.sampled_from(["positive", "indefinite", "singular", "negative", "mixed", "zero", "diagonal"]), "rtol": st.sampled_from([None, 0.0, 1e-8, 0.1]), "scale": st.sampled_from([1e-20, 1.0, 1e8])}
    ),
    rule="at least one matrix has an eigenvalue that is not positive",
    quick=400,
    shards=2,
)
def clip(case):
    """Clipping replaces exactly the eigenvalues below the threshold, in each matrix of the stack by itself."""
    n, shape, xp = case["n"], tuple(case["shape"]), XPS[case["xp"]]
    r = rnd(case["seed"])
    m = symmetric(r, shape, n, case["kind"]) * case["scale"]
    if case["kind"] == "diagonal":
        m = np.eye(n) * (10.0 ** r.uniform(-30, 0, size=(*shape, n, 1)) * r.choice([-1, 0, 1, 1], size=(*shape, n, 1))) * case["scale"]
    arr = F(xp, m)
    kw = {} if case["rtol"] is None else {"rtol": case["rtol"]}
    out = glass.algorithm.cov_clip(arr, **kw)
    check_ns(out, xp)
    got = N(out)
    assert got.shape == m.shape, got.shape
    rtol = n * np.finfo(float).eps if case["rtol"] is None else case["rtol"]
    w, v = np.linalg.eigh(m)
    cut = rtol * np.maximum(w.max(axis=-1, keepdims=True), 0)
    want = (v * np.maximum(w, cut)[..., None, :]) @ np.swapaxes(v, -1, -2)
    close(got, want, f"clipped {case['kind']} matrix", rtol=1e-9, atol=1e-12 * case["scale"] * 2)
    if case["kind"] == "diagonal":  # whose eigenvalues have no rounding errors
        d = np.diagonal(m, axis1=-2, axis2=-1)
        close(got, np.eye(n) * np.maximum(d, cut)[..., None], "clipped diagonal", rtol=1e-9)
    close(got, np.swapaxes(got, -1, -2), "symmetry", rtol=1e-12, atol=1e-15 * case["scale"])
    if got.size:
        assert np.linalg.eigvalsh(got).min() >= -1e-12 * case["scale"], "negative eigenvalue"
    equal(N(arr), m, "matrix after the call")
    return bool(m.size and w.min() <= 1e-12 * case["scale"])


def witness(g, n, r):
    """A correlation matrix with a large inner product with g (low-rank coordinate ascent)."""
    best, ybest = -np.inf, np.eye(n)
    for start in range(3):
        v = r.normal(size=(n, n))
        v /= np.linalg.norm(v, axis=1, keepdims=True)
        for _ in range(60):
            for i in range(n):
                u = g[i] @ v - g[i, i] * v[i]
                s = np.linalg.norm(u)
                if s > 0:
                    v[i] = u / s
        y = v @ v.T
        f = np.sum(g * y)
        if f > best:
            best, ybest = f, y
    return ybest


@sub(
    "C08",
    strategy=lambda: st.fixed_dictionaries({**base, "kind": st.sampled_from(["valid", "invalid", "wild", "mixed"]), "niter": st.sampled_from([None, None, 300, 1, 3])}),
    rule="at least one matrix is not a valid correlation matrix",
    quick=160,
    shards=4,
)
def nearest_correlation(case):
    """Unit diagonal, symmetric, positive semi-definite, unchanged if valid, and no correlation matrix is closer (variational inequality against adversarial witnesses)."""
    n, shape, xp = case["n"], tuple(case["shape"]), XPS[case["xp"]]
    r = rnd(case["seed"])
    m = correlation(r, shape, n, case["kind"])
    arr = F(xp, m)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = glass.algorithm.nearcorr(arr, **({} if case["niter"] is None else {"niter": case["niter"]}))
    warned = any("not found" in str(x.message) for x in w)
    check_ns(out, xp)
    got = N(out)
    assert got.shape == m.shape, got.shape
    equal(N(arr), m, "matrix after the call")
    flat, orig = got.reshape(-1, n, n), m.reshape(-1, n, n)
    for x, a in zip(flat, orig):
        close(np.diag(x), np.ones(n), "diagonal", rtol=1e-14)
        close(x, x.T, "symmetry", rtol=0, atol=1e-12)
        ev = np.linalg.eigvalsh(x).min()
        assert ev >= -1e-10 or warned, f"eigenvalue {ev:.3g} without a warning"
        if np.linalg.eigvalsh(a).min() > 1e-8:
            close(x, a, "valid correlation matrix", rtol=0, atol=1e-10)
        elif not warned:
            y = witness(a - x, n, r)
            gap = np.sum((a - x) * (y - x))
            assert gap <= 1e-7 * n * n, f"a correlation matrix is closer: gap {gap:.3g}, distances {np.linalg.norm(a - x)}, {np.linalg.norm(a - (x + 1e-3 * (y - x)))}"
    return bool(m.size) and case["kind"] != "valid" and np.linalg.eigvalsh(orig).min() < -1e-6


@sub(
    "C08",
    strategy=lambda: st.fixed_dictionaries({**base, "kind": st.sampled_from(["valid", "invalid", "mixed"]), "zeros": st.booleans()}),
    rule="at least one matrix is invalid and the variances differ",
    quick=120,
    shards=2,
)
def nearest_covariance(case):
    """Diagonal kept, valid kept, equivariant under rescaling of the variables, stack entries independent, negative variances refused."""
    n, shape, xp = case["n"], tuple(case["shape"]), XPS[case["xp"]]
    r = rnd(case["seed"])
    c = correlation(r, shape, n, case["kind"])
    d = np.exp(r.uniform(-4, 4, size=(*shape, n)))
    if case["zeros"]:
        d *= r.choice([0, 1, 1], size=d.shape)
    m = c * d[..., :, None] * d[..., None, :]
    arr = F(xp, m)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = N(glass.algorithm.cov_nearest(arr, niter=1000))
        # a variable of zero variance is uncorrelated with all others
        off = np.where((d > 0)[..., :, None] & (d > 0)[..., None, :], c, 0.0)
        near = N(glass.algorithm.nearcorr(np.where(np.eye(n) > 0, 1.0, off), niter=1000))
    warned = any("not found" in str(x.message) for x in w)
    equal(N(arr), m, "matrix after the call")
    assert out.shape == m.shape
    close(np.einsum("...ii->...i", out), np.einsum("...ii->...i", m), "diagonal", rtol=1e-12)
    scale = d[..., :, None] * d[..., None, :]
    if not warned:
        err = np.abs(out - near * scale)
        assert np.all(err <= 1e-6 * scale + 1e-300), f"not the rescaled nearest correlation matrix, off by {err.max():.3g}"
        for idx in np.ndindex(*shape):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                one = N(glass.algorithm.cov_nearest(F(xp, m[idx]), niter=1000))
            assert np.all(np.abs(one - out[idx]) <= 1e-6 * scale[idx] + 1e-300), f"stack entry {idx} differs from the matrix by itself"
    if m.size:
        neg = m.copy()
        k = tuple(int(r.integers(s)) for s in (*shape, n))
        neg[(*k, k[-1])] = -1e-3
        raises(ValueError, lambda: glass.algorithm.cov_nearest(F(xp, neg)), "negative variance")
    raises(ValueError, lambda: glass.algorithm.nearcorr(F(xp, np.ones((*shape, n, n + 1)))), "not square")
    return bool(m.size) and case["kind"] != "valid" and np.linalg.eigvalsh(c).min() < -1e-6 and n > 1


@st.composite
def spec_cases(draw):
    n = draw(sizes(4, 12))
    m = n * (n + 1) // 2
    lens = draw(st.one_of(st.lists(st.integers(0, 6), min_size=m, max_size=m), st.integers(1, 6).map(lambda k: [k] * m)))
    return {
        "n": n,
        "lens": lens,
        "none": draw(st.booleans()) and max(lens) > 0,
        "lmax": draw(st.one_of(st.none(), st.integers(0, 7))),
        "method": draw(st.sampled_from(["default", "nearest", "clip"])),
        "opt": draw(st.sampled_from([None, 1e-3])),
        "xp": draw(backend(14, 5, 1)),
        "seed": draw(seeds),
    }


@sub("C08", strategy=spec_cases, rule="at least two fields, and the unregularised matrices are not all positive semi-definite", quick=200, shards=2)
def spectra(case):
    """Regularised spectra are the entries of the regularised matrix of every mode, in standard order, of the full length; the result is positive semi-definite."""
    n, xp, lmax = case["n"], XPS[case["xp"]], case["lmax"]
    r = rnd(case["seed"])
    data = []
    for (i, j), k in zip(pairs(n), case["lens"]):
        data.append(r.uniform(0.2, 1, size=k) if i == j else r.uniform(-1, 1, size=k))
    cls = [None if case["none"] and not d.size else F(xp, d) for d in data]
    size = max(case["lens"]) if lmax is None else lmax + 1
    cov = np.zeros((size, n, n))
    for (i, j), d in zip(pairs(n), data):
        k = min(size, d.size)
        cov[:k, i, j] = cov[:k, j, i] = d[:k]
    kw = {} if case["method"] == "default" else {"method": case["method"]}
    method = glass.algorithm.cov_clip if case["method"] == "clip" else glass.algorithm.cov_nearest
    opt = {} if case["opt"] is None else ({"rtol": case["opt"]} if case["method"] == "clip" else {"tol": case["opt"], "niter": 37})
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = glass.regularized_spectra(cls, lmax=lmax, **kw, **opt)
        want = N(method(cov, **opt))
    assert len(out) == len(cls)
    for (i, j), x in zip(pairs(n), out):
        check_ns(x, xp)
        close(N(x), want[:, i, j], f"regularised spectrum ({i},{j})", rtol=1e-6, atol=1e-8)
    raises(ValueError, lambda: glass.regularized_spectra(cls, method="no such method"), "unknown method")
    for c, d in zip(cls, data):
        if c is not None:
            equal(N(c), d, "spectrum after the call")
    if size and not any("not found" in str(x.message) for x in w) and case["opt"] is None:
        lo = np.linalg.eigvalsh(N(glass.cov_from_spectra(out))).min()
        assert lo >= -1e-10, f"eigenvalue {lo:.3g} of the regularised spectra"
    return n >= 2 and size > 0 and np.linalg.eigvalsh(cov).min() < -1e-9


@sub(
    "C08",
    strategy=lambda: st.fixed_dictionaries({"n": st.integers(1, 5), "nl": st.integers(1, 9), "bad": st.sampled_from([None, "one", "first", "last"]), "zero": st.booleans(), "eps": st.sampled_from([1e-9, 1e-3, 1.0]), "xp": backend(14, 5, 1), "seed": seeds}),
    rule="exactly one mode has a negative eigenvalue",
    quick=200,
)
def positive_definite(case):
    """The answer is yes iff every mode's matrix has no negative eigenvalue, for a single bad mode anywhere."""
    n, nl, xp = case["n"], case["nl"], XPS[case["xp"]]
    r = rnd(case["seed"])
    q, _ = np.linalg.qr(r.normal(size=(nl, n, n)))
    w = r.uniform(0.1, 1, size=(nl, n))
    if case["bad"]:
        at = {"first": 0, "last": nl - 1, "one": int(r.integers(nl))}[case["bad"]]
        w[at, int(r.integers(n))] = -case["eps"]
    cov = (q * w[:, None, :]) @ np.swapaxes(q, 1, 2)
    if case["zero"]:
        cov = np.concatenate([np.zeros((1, n, n)), cov])
    ans = glass.check_posdef_spectra([F(xp, cov[:, i, j]) for i, j in pairs(n)])
    assert bool(ans) == (case["bad"] is None), f"answer {ans} for smallest eigenvalue {w.min():.3g}"
    return case["bad"] is not None
