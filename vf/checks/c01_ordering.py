"""C01: the standard order of two-point functions is one consistent bijection."""

import itertools

import numpy as np
from hypothesis import strategies as st

import glass
from vf.be import A, F, N, XPS, backend, check_ns, close, equal, raises, seeds
from vf.core import sub


def pairs(n):
    """The documented order: (0,0), (1,1), (1,0), (2,2), (2,1), (2,0), ..."""
    return [(i, j) for i in range(n) for j in range(i, -1, -1)]


@sub(
    "C01",
    strategy=lambda: st.fixed_dictionaries({"n": st.one_of(st.integers(0, 30), st.integers(0, 130)), "xp": backend(6, 3, 2)}),
    rule="at least two fields",
    quick=150,
)
def index_listing(case):
    """Index list, enumeration and lookup agree with the documented order for n fields."""
    n, xp = case["n"], XPS[case["xp"]]
    if case["xp"] == "jax":
        n = min(n, 7)  # every new shape is compiled anew
    ref = pairs(n)
    idx = glass.spectra_indices(n, xp=xp)
    check_ns(idx, xp)
    assert idx.shape == (len(ref), 2), idx.shape
    assert [tuple(map(int, r)) for r in N(idx)] == ref
    tags = [[k] for k in range(len(ref))]
    assert [(int(i), int(j), t) for i, j, t in glass.enumerate_spectra(tags)] == [(i, j, [k]) for k, (i, j) in enumerate(ref)]
    if n:
        assert glass.nfields_from_nspectra(len(ref)) == n
        arrs = [F(xp, [float(k), 1.0]) for k in range(len(ref))]
        for k, (i, j) in enumerate(ref):
            if n > 12 and (k * 7919) % (11 if n < 40 else 101):
                continue
            assert float(glass.getcl(arrs, i, j)[0]) == k, (i, j)
            assert float(glass.getcl(arrs, j, i)[0]) == k, (j, i)
    return n >= 2


@sub(
    "C01",
    strategy=lambda: st.fixed_dictionaries({"n": st.one_of(st.integers(0, 14), st.integers(0, 120)), "seed": seeds}),
    rule="at least two fields",
    quick=100,
)
def healpix_order(case):
    """GLASS <-> HEALPix reordering: documented diagonal order, and exact inverses."""
    n = case["n"]
    ref = pairs(n)
    tags = [f"{i},{j}" for i, j in ref]
    hpx = glass.glass_to_healpix_spectra(tags)
    assert list(hpx) == [f"{i + k},{i}" for k in range(n) for i in range(n - k)], hpx
    assert list(glass.healpix_to_glass_spectra(hpx)) == tags
    perm = np.random.default_rng(case["seed"]).permutation(len(tags))
    arb = [f"x{p}" for p in perm]
    assert list(glass.glass_to_healpix_spectra(glass.healpix_to_glass_spectra(arb))) == arb
    assert list(glass.healpix_to_glass_spectra(glass.glass_to_healpix_spectra(arb))) == arb
    return n >= 2


@sub(
    "C01",
    strategy=lambda: st.fixed_dictionaries(
        {"n": st.one_of(st.integers(0, 300), st.integers(0, 2_000_000)), "d": st.integers(-50, 50)}
    ),
    rule="the count differs from a triangular number",
    quick=400,
)
def field_count(case):
    """A spectra count is accepted iff it is triangular, and then gives the number of fields."""
    n, d = case["n"], case["d"]
    t = n * (n + 1) // 2
    assert glass.nfields_from_nspectra(t) == n
    m = t + d
    if m < 0:
        return False
    r = int((np.sqrt(8 * m + 1) - 1) // 2)
    tri = any(k * (k + 1) // 2 == m for k in range(max(0, r - 2), r + 3))
    if tri:
        k = glass.nfields_from_nspectra(m)
        assert k * (k + 1) // 2 == m
    else:
        raises(ValueError, lambda: glass.nfields_from_nspectra(m), f"nspectra={m}")
        if m < 100:
            arr = [np.ones(2)] * m
            raises(ValueError, lambda: glass.glass_to_healpix_spectra(arr), "glass_to_healpix_spectra")
            raises(ValueError, lambda: glass.healpix_to_glass_spectra(arr), "healpix_to_glass_spectra")
            raises(ValueError, lambda: glass.cov_from_spectra(arr), "cov_from_spectra")
            raises(ValueError, lambda: glass.effective_cls(arr, np.ones(3)), "effective_cls")
            raises(ValueError, lambda: glass.regularized_spectra(arr), "regularized_spectra")
            raises(ValueError, lambda: glass.discretized_cls(arr, ncorr=1), "discretized_cls")
    return not tri


@st.composite
def ragged(draw, nmax=5, lmax=8, none=True):
    n = draw(st.integers(1, nmax))
    lens = draw(st.lists(st.integers(0, lmax), min_size=n * (n + 1) // 2, max_size=n * (n + 1) // 2))
    missing = draw(st.lists(st.booleans(), min_size=len(lens), max_size=len(lens))) if none else [False] * len(lens)
    missing = [m and k == 0 for m, k in zip(missing, lens)]
    return {
        "n": n,
        "lens": lens,
        "missing": missing,
        "lmax": draw(st.one_of(st.none(), st.integers(0, lmax + 3))),
        "xp": draw(backend(12, 5, 1)),
        "seed": draw(seeds),
    }


@sub(
    "C01",
    strategy=lambda: ragged(none=True),
    rule="at least two fields, spectra of different lengths",
    quick=200,
    shards=2,
)
def lookup_and_matrix(case):
    """Pair lookup (truncate / zero-pad) and the per-mode matrix place every value at its pair, symmetric."""
    n, lmax, xp = case["n"], case["lmax"], XPS[case["xp"]]
    rng = np.random.default_rng(case["seed"])
    data = [rng.normal(size=k) for k in case["lens"]]
    cls = [F(xp, d) for d in data]
    ref = pairs(n)
    for k, (i, j) in enumerate(ref):
        for a, b in ((i, j), (j, i)):
            got = glass.getcl(cls, a, b, lmax=lmax)
            check_ns(got, xp)
            if lmax is None:
                want = data[k]
            else:
                want = np.zeros(lmax + 1)
                m = min(lmax + 1, data[k].size)
                want[:m] = data[k][:m]
            equal(N(got), want, f"getcl({a},{b},lmax={lmax})")
    # a missing spectrum may be given as None or as an empty array
    some = any(not m for m in case["missing"])
    arg = [None if m and some else c for m, c in zip(case["missing"], cls)]
    cov = glass.cov_from_spectra(arg, lmax=lmax)
    check_ns(cov, xp)
    size = max(case["lens"]) if lmax is None else lmax + 1
    want = np.zeros((size, n, n))
    for k, (i, j) in enumerate(ref):
        m = min(size, data[k].size)
        want[:m, i, j] = data[k][:m]
        want[:m, j, i] = data[k][:m]
    equal(N(cov), want, "cov_from_spectra")
    return n >= 2 and len(set(case["lens"])) > 1


@sub(
    "C01",
    strategy=lambda: st.fixed_dictionaries(
        {"n": st.integers(1, 5), "nl": st.integers(1, 6), "seed": seeds, "xp": backend(12, 5, 1), "perm": seeds}
    ),
    rule="at least two fields and a non-identity permutation",
    quick=100,
)
def relabelling(case):
    """Relabelling the fields permutes pair lookup and matrix consistently (metamorphic)."""
    n, xp = case["n"], XPS[case["xp"]]
    rng = np.random.default_rng(case["seed"])
    m = rng.normal(size=(case["nl"], n, n))
    m = m + np.swapaxes(m, 1, 2)
    perm = np.random.default_rng(case["perm"]).permutation(n)
    cls = [F(xp, m[:, i, j]) for i, j in pairs(n)]
    cls_p = [F(xp, m[:, perm[i], perm[j]]) for i, j in pairs(n)]
    for i, j in itertools.product(range(n), repeat=2):
        equal(N(glass.getcl(cls_p, i, j)), N(glass.getcl(cls, int(perm[i]), int(perm[j]))), "relabelled lookup")
    equal(N(glass.cov_from_spectra(cls_p)), N(glass.cov_from_spectra(cls))[:, perm][:, :, perm], "relabelled matrix")
    idx = N(glass.spectra_indices(n))
    close(np.stack([m[:, i, j] for i, j in idx]), np.stack([N(c) for c in cls]), "index list addresses the spectra", rtol=0)
    return n >= 2 and list(perm) != list(range(n))
