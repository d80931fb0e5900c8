"""C04: generated fields are the transformed Gaussian fields."""

import warnings

import numpy as np
from hypothesis import strategies as st

import glass
import glass.grf
from vf.be import F, N, XPS, backend, check_ns, close, equal, raises, rnd, seeds, sizes, tidy
from vf.checks.c01_ordering import pairs
from vf.core import sub


def spectra(r, n, nl, ncorr, ragged):
    """Positive definite spectra with a decaying shape."""
    m = np.tril(r.normal(size=(nl, n, n)) * 0.3)
    m[:, np.arange(n), np.arange(n)] = r.uniform(0.3, 1, size=(nl, n))
    if ncorr is not None:
        m *= np.arange(n)[:, None] - np.arange(n) <= ncorr
    m /= (1 + np.arange(nl))[:, None, None]
    cov = m @ np.swapaxes(m, 1, 2)
    cut = [nl] + [int(r.integers(1, nl + 1)) if ragged else nl for _ in range(n - 1)]
    # a field without power at a mode has no correlation there
    return [cov[: min(cut[i], cut[j]), i, j] for i, j in pairs(n)]


class Spy:
    """A transformation that records its arguments and returns something recognisable."""

    def __init__(self, index, calls, scale):
        self.index, self.calls, self.scale = index, calls, scale

    def __call__(self, x, var, /):
        out = x * self.scale + (var + self.index)
        self.calls.append((self.index, N(x), float(var), N(out)))
        return out


@st.composite
def cases(draw):
    n = draw(sizes(5, 14))
    return {
        "n": n,
        "nl": draw(sizes(9, 40)),
        "nside": draw(st.sampled_from([1, 2, 4, 8, 1, 2, 4, 8, 16, 32])),
        "ncorr": draw(st.one_of(st.none(), st.integers(0, n))),
        "ragged": draw(st.booleans()),
        "pull": draw(st.integers(0, n)),
        "xp": draw(backend(12, 5, 0)),
        "seed": draw(seeds),
        "rng": draw(seeds),
    }


def gaussian(case, cls):
    return [N(m) for m in glass.generate([glass.grf.Normal() for _ in range(case["n"])], cls, case["nside"], ncorr=case["ncorr"], rng=rnd(case["rng"]))]


@sub("C04", strategy=cases, rule="at least two fields and two modes", quick=200, shards=2)
def composition(case):
    """Output k is transformation k of (Gaussian map k, its variance); lazily, in order, once each, reproducibly."""
    n, nl, xp = case["n"], case["nl"], XPS[case["xp"]]
    r = rnd(case["seed"])
    data = spectra(r, n, nl, case["ncorr"], case["ragged"])
    cls = [F(xp, d) for d in data]
    maps = gaussian(case, cls)
    assert len(maps) == n
    calls = []
    it = iter(glass.generate([Spy(k, calls, 0.5 + k) for k in range(n)], cls, case["nside"], ncorr=case["ncorr"], rng=rnd(case["rng"])))
    got = []
    for k in range(case["pull"]):
        x = next(it)
        check_ns(x, xp)
        got.append(N(x))
        assert len(calls) <= k + 1, f"{len(calls)} fields transformed after {k + 1} were requested"
    got += [N(x) for x in it]
    assert len(got) == n and [c[0] for c in calls] == list(range(n)), [c[0] for c in calls]
    auto = {i: d for (i, j), d in zip(pairs(n), data) if i == j}
    for k in range(n):
        var = float(np.sum((2 * np.arange(auto[k].size) + 1) * auto[k]) / (4 * np.pi))
        _, x, v, out = calls[k]
        assert x.shape == (12 * case["nside"] ** 2,)
        close(v, var, f"variance of field {k}", rtol=1e-12)
        close(x, maps[k], f"Gaussian field {k}", rtol=1e-9, atol=1e-12)
        equal(got[k], out, f"output {k}")
    for c, d in zip(cls, data):
        equal(N(c), d, "spectrum after the call")
    return n >= 2 and nl >= 2


@st.composite
def trans_cases(draw):
    c = draw(cases())
    c["t"] = draw(
        st.lists(
            st.one_of(
                st.just(["N"]),
                st.tuples(st.just("L"), tidy(0.05, 3.0)).map(list),
                st.just(["L"]),
                st.tuples(st.just("S"), tidy(0.0, 1.0), tidy(0.05, 3.0)).map(list),
                st.tuples(st.just("S"), tidy(0.0, 1.0)).map(list),
            ),
            min_size=c["n"],
            max_size=c["n"],
        )
    )
    return c


def make(t):
    k, *a = t
    return {"N": glass.grf.Normal, "L": glass.grf.Lognormal, "S": glass.grf.SquaredNormal}[k](*a)


@sub("C04", strategy=trans_cases, rule="at least one transformation that is not the identity", quick=200, shards=2)
def transformed(case):
    """Normal, lognormal and squared normal fields have their documented formula and lower bound."""
    n, nl, xp = case["n"], case["nl"], XPS[case["xp"]]
    data = spectra(rnd(case["seed"]), n, nl, case["ncorr"], case["ragged"])
    cls = [F(xp, d) for d in data]
    maps = gaussian(case, cls)
    got = [N(x) for x in glass.generate([make(t) for t in case["t"]], cls, case["nside"], ncorr=case["ncorr"], rng=rnd(case["rng"]))]
    auto = {i: d for (i, j), d in zip(pairs(n), data) if i == j}
    for k, t in enumerate(case["t"]):
        x = maps[k]
        var = np.sum((2 * np.arange(auto[k].size) + 1) * auto[k]) / (4 * np.pi)
        if t[0] == "N":
            want = x
        elif t[0] == "L":
            lam = t[1] if len(t) > 1 else 1.0
            want = lam * (np.exp(x - var / 2) - 1)
            assert np.all(got[k] >= -lam), "lognormal field below -lambda"
        else:
            lam = t[2] if len(t) > 2 else 1.0
            want = lam * ((x - t[1]) ** 2 - 1)
            assert np.all(got[k] >= -lam), "squared normal field below -lambda"
        close(got[k], want, f"field {k} {t}", rtol=1e-9, atol=1e-10)
    return any(t[0] != "N" for t in case["t"])


@sub(
    "C04",
    strategy=lambda: st.tuples(cases(), tidy(0.1, 3.0)).map(lambda t: {**t[0], "shift": t[1]}),
    rule="at least two fields",
    quick=100,
)
def deprecated(case):
    """The deprecated generators equal the general one, and their spectra the solved lognormal spectra."""
    n, nl, xp = case["n"], case["nl"], XPS[case["xp"]]
    data = spectra(rnd(case["seed"]), n, nl, case["ncorr"], case["ragged"])
    cls = [F(xp, d) for d in data]
    kw = {"ncorr": case["ncorr"]}
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        a = [N(x) for x in glass.generate_gaussian(cls, case["nside"], rng=rnd(case["rng"]), **kw)]
        b = [N(x) for x in glass.generate_lognormal(cls, case["nside"], case["shift"], rng=rnd(case["rng"]), **kw)]
        b1 = [N(x) for x in glass.generate_lognormal(cls, case["nside"], rng=rnd(case["rng"]), **kw)]
    assert any(issubclass(x.category, DeprecationWarning) for x in w), "no deprecation warning"
    L = glass.grf.Lognormal
    for what, got, fields in (
        ("generate_gaussian", a, [glass.grf.Normal()] * n),
        ("generate_lognormal", b, [L(case["shift"])] * n),
        ("generate_lognormal default shift", b1, [L(1.0)] * n),
    ):
        want = [N(x) for x in glass.generate(fields, cls, case["nside"], rng=rnd(case["rng"]), **kw)]
        assert len(got) == n
        for x, y in zip(got, want):
            close(x, y, what, rtol=1e-12, atol=1e-14)
    small = [F(xp, 0.1 * d / (1 + np.arange(d.size)) ** 2) for d in data]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g1 = glass.lognormal_gls(small, case["shift"])
        g2 = glass.solve_gaussian_spectra([L(case["shift"])] * n, small)
    for x, y in zip(g1, g2, strict=True):
        assert np.array_equal(N(x), N(y), equal_nan=True), "lognormal_gls"
    return n >= 2


@sub(
    "C04",
    strategy=lambda: st.fixed_dictionaries({"z": st.lists(tidy(0.0, 5.0), min_size=0, max_size=6), "a": tidy(0.1, 2), "b": tidy(0, 2)}),
    rule="at least two shells",
    quick=100,
)
def field_lists(case):
    """One field per shell; the lognormal shift is the callable's value at each effective redshift, one by default."""
    shells = [glass.RadialWindow(np.array([0.0, 1.0]), np.array([1.0, 1.0]), z) for z in case["z"]]
    g = glass.gaussian_fields(shells)
    assert len(g) == len(shells) and all(type(t) is glass.grf.Normal for t in g)
    one = glass.lognormal_fields(shells)
    assert len(one) == len(shells) and all(type(t) is glass.grf.Lognormal and t.lamda == 1.0 for t in one)
    f = lambda z: case["a"] + case["b"] * z  # noqa: E731
    assert [t.lamda for t in glass.lognormal_fields(shells, f)] == [f(z) for z in case["z"]]
    for z in case["z"]:
        want = 0.008 * z + 0.029 * z**2 - 0.0079 * z**3 + 0.00065 * z**4
        close(glass.fields.lognormal_shift_hilbert2011(z), want, "Hilbert et al. shift", rtol=1e-9, atol=1e-15)
    return len(shells) >= 2
