"""C02: discretised spectra."""

import numpy as np
from hypothesis import strategies as st

import glass
from vf import hpdata
from vf.be import F, N, XPS, backend, check_ns, close, equal, rnd, same, seeds, sizes
from vf.checks.c01_ordering import pairs
from vf.core import sub


@st.composite
def cases(draw):
    n = draw(sizes(7, 20))
    m = n * (n + 1) // 2
    top = draw(st.sampled_from([4, 12, 40]))
    return {
        "n": n,
        "lens": draw(st.lists(st.integers(0, top), min_size=m, max_size=m)),
        "lmax": draw(st.one_of(st.none(), st.integers(0, top + 3))),
        "ncorr": draw(st.one_of(st.none(), st.integers(0, n + 1))),
        "nside": draw(st.sampled_from([None, 1, 2, 4, 8, None, 1, 2, 4, 8, 64])),
        "xp": draw(backend(12, 5, 1)),
        "seed": draw(seeds),
    }


@sub(
    "C02",
    strategy=cases,
    rule="at least two of lmax, ncorr, nside are given and have an effect on some spectrum",
    quick=400,
    shards=2,
)
def discretise(case):
    """Truncation, correlation limit and squared pixel window, pair by pair; inputs untouched."""
    n, lmax, ncorr, nside, xp = case["n"], case["lmax"], case["ncorr"], case["nside"], XPS[case["xp"]]
    r = rnd(case["seed"])
    data = [r.normal(size=k) for k in case["lens"]]
    cls = [F(xp, d) for d in data]
    arg = list(cls)
    with hpdata.datapath():
        out = glass.discretized_cls(arg, lmax=lmax, ncorr=ncorr, nside=nside)
    assert len(out) == len(cls), f"{len(out)} spectra from {len(cls)}"
    effects = set()
    for k, (i, j) in enumerate(pairs(n)):
        want = data[k]
        if ncorr is not None and abs(i - j) > ncorr:
            effects |= {"ncorr"} if want.size else set()
            want = want[:0]
        if lmax is not None:
            effects |= {"lmax"} if want.size > lmax + 1 else set()
            want = want[: lmax + 1]
        if nside is not None and want.size:
            pw = hpdata.window(nside)[0]
            pw = pw[: (3 * nside if lmax is None else lmax + 1)]
            want = want[: pw.size]
            want = want * pw[: want.size] ** 2
            effects.add("nside")
        assert out[k] is not None
        check_ns(out[k], xp)
        close(N(out[k]), want, f"spectrum ({i},{j})", rtol=1e-12)
    assert len(arg) == len(cls) and all(a is b for a, b in zip(arg, cls)), "the input list was changed"
    for c, d in zip(cls, data):
        equal(N(c), d, "input spectrum after the call")
    return len(effects) >= 2


@sub(
    "C02",
    strategy=lambda: st.fixed_dictionaries({"xp": backend(2, 1, 1), "n": st.integers(0, 4), "a": st.integers(0, 9), "b": st.integers(0, 9), "seed": seeds}),
    rule="two different truncations",
    quick=60,
)
def repeated(case):
    """Without arguments nothing changes; repeated truncation equals the stronger one."""
    xp, n = XPS[case["xp"]], case["n"]
    r = rnd(case["seed"])
    cls = [F(xp, r.normal(size=6)) for _ in range(n * (n + 1) // 2)]
    plain = glass.discretized_cls(cls)
    assert len(plain) == len(cls)
    for x, y in zip(plain, cls):
        equal(N(x), N(y), "no arguments")
    two = glass.discretized_cls(glass.discretized_cls(cls, lmax=case["a"], ncorr=case["b"] % 4), lmax=case["b"], ncorr=case["a"] % 4)
    one = glass.discretized_cls(cls, lmax=min(case["a"], case["b"]), ncorr=min(case["a"] % 4, case["b"] % 4))
    for x, y in zip(two, one):
        same(N(x), N(y), "repeated discretisation")
    return case["a"] != case["b"] and n >= 2
