"""C07: effective spectra."""

import itertools

import numpy as np
from hypothesis import strategies as st

import glass
from vf.be import F, N, XPS, backend, check_ns, close, equal, raises, rnd, seeds, sizes
from vf.checks.c01_ordering import pairs
from vf.core import sub


@st.composite
def cases(draw):
    n = draw(sizes(5, 14))
    m = n * (n + 1) // 2
    lead = st.lists(st.integers(0, 3), max_size=2)
    return {
        "n": n,
        "lens": draw(st.lists(st.integers(0, 8), min_size=m, max_size=m)),
        "s1": draw(lead),
        "s2": draw(st.one_of(st.none(), lead)),
        "same": draw(st.booleans()),
        "lmax": draw(st.one_of(st.none(), st.integers(0, 11))),
        "xp": draw(backend(12, 5, 0)),
        "faint": draw(st.sampled_from([0, 0, 6, 15])),
        "seed": draw(seeds),
    }


@sub("C07", strategy=cases, rule="at least two fields, a leading weight axis and spectra of different lengths", quick=400, shards=2)
def bilinear(case):
    """Direct double sum over fields for every pair of weights; symmetry for one set of weights."""
    n, xp, lmax = case["n"], XPS[case["xp"]], case["lmax"]
    r = rnd(case["seed"])
    data = [r.normal(size=k) for k in case["lens"]]
    size = max(case["lens"]) if lmax is None else lmax + 1
    full = np.zeros((n, n, size))
    for (i, j), d in zip(pairs(n), data):
        k = min(size, d.size)
        full[i, j, :k] = full[j, i, :k] = d[:k]
    w1 = r.normal(size=(n, *case["s1"]))
    # fields of small weight with large spectra
    f = 10.0 ** -(case["faint"] * r.random(n))
    for (i, j), d in zip(pairs(n), data):
        d /= f[i] * f[j]
        full[i, j] /= f[i] * f[j]
        full[j, i] = full[i, j]
    w1 = (w1.T * f).T
    w2 = None if case["s2"] is None else (r.normal(size=(n, *case["s2"])).T * f).T
    if w2 is not None and case["same"]:
        w2 = w1.copy()
    cls = [F(xp, d) for d in data]
    a1 = F(xp, w1)
    a2 = None if w2 is None else F(xp, w2)
    args = (cls, a1) if a2 is None else (cls, a1, a2)
    out = glass.effective_cls(*args, lmax=lmax)
    check_ns(out, xp)
    ww = w1 if w2 is None else w2
    want = np.einsum("ia,jb,ijl->abl", w1.reshape(n, w1[0].size), ww.reshape(n, ww[0].size), full)
    want = want.reshape(*w1.shape[1:], *ww.shape[1:], size)
    close(N(out), want, "effective spectra", rtol=1e-9, atol=1e-11)
    if w2 is None:
        d = len(case["s1"])
        axes = (*range(d, 2 * d), *range(d), 2 * d)
        close(N(out), N(out).transpose(axes), "symmetry", rtol=1e-12, atol=1e-12)
        close(N(glass.effective_cls(cls, a1, F(xp, w1), lmax=lmax)), N(out), "second weights equal to the first", rtol=1e-12, atol=1e-12)
    for c, d in zip(cls, data):
        equal(N(c), d, "spectrum after the call")
    equal(N(a1), w1, "weights after the call")
    return n >= 2 and len(case["s1"]) > 0 and len(set(case["lens"])) > 1


@sub(
    "C07",
    strategy=lambda: st.fixed_dictionaries({"n": st.integers(1, 4), "d": st.integers(-2, 2), "xp": backend(3, 1, 0), "second": st.booleans()}),
    rule="the weights do not match the number of fields",
    quick=80,
)
def mismatched(case):
    """Unit weights select a spectrum; weights of the wrong length or without an axis are refused."""
    n, xp = case["n"], XPS[case["xp"]]
    cls = [F(xp, np.full(3, 1.0 + k)) for k in range(n * (n + 1) // 2)]
    eye = F(xp, np.eye(n))
    out = N(glass.effective_cls(cls, eye))
    for i, j in itertools.product(range(n), repeat=2):
        close(out[i, j], N(glass.getcl(cls, i, j)), f"unit weights ({i},{j})", rtol=0)
    m = n + case["d"]
    if m < 0:
        return False
    bad = F(xp, np.ones((m, 2)))
    call = (lambda: glass.effective_cls(cls, eye, bad)) if case["second"] else (lambda: glass.effective_cls(cls, bad, eye))
    if m != n:
        raises(ValueError, call, f"{m} weights for {n} fields")
        raises(ValueError, lambda: glass.effective_cls(cls, F(xp, 1.0)), "scalar weights")
    else:
        call()
    return m != n
