"""C06: field transformations, their correlations, inverses and derivatives."""

import numpy as np
from hypothesis import strategies as st

import glass
import glass.grf
from vf.be import F, N, XPS, backend, check_ns, close, equal, raises, rnd, seeds, tidy
from vf.core import sub

NODES, WEIGHTS = np.polynomial.hermite_e.hermegauss(64)
WEIGHTS = WEIGHTS / WEIGHTS.sum()

normal = st.just(["N"])
lognormal = st.one_of(st.just(["L"]), tidy(0.01, 5.0).map(lambda a: ["L", a]))
squared = st.one_of(tidy(0.05, 0.99).map(lambda a: ["S", a]), st.tuples(tidy(0.05, 0.99), tidy(0.01, 5.0)).map(lambda t: ["S", *t]))


def make(t):
    return {"N": glass.grf.Normal, "L": glass.grf.Lognormal, "S": glass.grf.SquaredNormal}[t[0]](*t[1:])


def variance(t, v):
    """Variance of the Gaussian field; fixed by the shape parameter of a squared normal field."""
    return 1 - t[1] ** 2 if t[0] == "S" else v


@st.composite
def pairs(draw):
    t1, t2 = draw(st.one_of(st.tuples(st.one_of(normal, lognormal), st.one_of(normal, lognormal)), st.tuples(squared, squared)))
    return {
        "t1": t1,
        "t2": t2,
        "v1": draw(tidy(0.01, 1.5)),
        "v2": draw(tidy(0.01, 1.5)),
        "rho": draw(st.lists(tidy(-1.0, 1.0), min_size=1, max_size=6)),
        "xp": draw(backend(12, 5, 1)),
    }


@sub("C06", strategy=pairs, rule="not both fields normal, some non-zero correlation", quick=400, shards=2)
def expectation(case):
    """The correlation relation equals the Gaussian expectation (Gauss-Hermite quadrature) of the product of the transformed fields; each field has zero mean."""
    xp = XPS[case["xp"]]
    a, b = make(case["t1"]), make(case["t2"])
    v1, v2 = variance(case["t1"], case["v1"]), variance(case["t2"], case["v2"])
    rho = np.array(case["rho"])
    x = rho * np.sqrt(v1 * v2)
    got = glass.grf.corr(a, b, F(xp, x))
    check_ns(got, xp)
    u, w = NODES[:, None], NODES[None, :]
    want = []
    for r in rho:
        f1 = N(a(F(np, np.sqrt(v1) * u), v1))
        f2 = N(b(F(np, np.sqrt(v2) * (r * u + np.sqrt(1 - r * r) * w)), v2))
        want.append(np.sum(WEIGHTS[:, None] * WEIGHTS[None, :] * f1 * f2))
    scale = np.sqrt(abs(float(glass.grf.corr(a, a, np.array([v1]))[0]) * float(glass.grf.corr(b, b, np.array([v2]))[0])))
    close(N(got), np.array(want), f"correlation of {case['t1']} and {case['t2']}", rtol=1e-8, atol=1e-8 * scale)
    mean = np.sum(WEIGHTS * N(a(F(np, np.sqrt(v1) * NODES), v1)))
    assert abs(mean) < 1e-8 * np.sqrt(max(float(glass.grf.corr(a, a, np.array([v1]))[0]), 1e-30)) + 1e-12, f"mean {mean} of {case['t1']}"
    return (case["t1"][0], case["t2"][0]) != ("N", "N") and bool(np.any(rho != 0))


@sub("C06", strategy=pairs, rule="not both fields normal, some non-zero correlation", quick=500, shards=2)
def inverse_and_slope(case):
    """The inverse undoes the relation, the derivative is its slope, and exchanging the fields changes nothing."""
    xp = XPS[case["xp"]]
    t1, t2 = case["t1"], case["t2"]
    a, b = make(t1), make(t2)
    v1, v2 = variance(t1, case["v1"]), variance(t2, case["v2"])
    x = np.array(case["rho"]) * np.sqrt(v1 * v2)
    if t1[0] == "S":  # the relation is invertible above its minimum
        x = np.maximum(x, -0.99 * t1[1] * t2[1])
    ax = F(xp, x)
    y = glass.grf.corr(a, b, ax)
    for got, what in ((glass.grf.icorr(a, b, y), "icorr"), (glass.grf.icorr(b, a, y), "exchanged icorr")):
        check_ns(got, xp)
        close(N(got), x, f"{what} of {t1}, {t2}", rtol=1e-6, atol=1e-8)
    close(N(glass.grf.corr(b, a, ax)), N(y), "exchanged corr", rtol=1e-13)
    # on the transformed side
    yy = N(y)
    close(N(glass.grf.corr(a, b, glass.grf.icorr(a, b, F(xp, yy)))), yy, "corr after icorr", rtol=1e-8, atol=1e-9)
    # central differences are exact to O(h^2) times the third derivative
    h = 1e-4
    d = glass.grf.dcorr(a, b, ax)
    check_ns(d, xp)
    num = (N(glass.grf.corr(a, b, F(xp, x + h))) - N(glass.grf.corr(a, b, F(xp, x - h)))) / (2 * h)
    lam = (t1[-1] if len(t1) > (1 if t1[0] == "L" else 2) else 1.0) * (t2[-1] if len(t2) > (1 if t2[0] == "L" else 2) else 1.0)
    close(N(d), num, f"dcorr of {t1}, {t2}", rtol=1e-6, atol=1e-7 * max(lam, 1.0))
    assert N(d).shape == x.shape
    close(N(glass.grf.dcorr(b, a, ax)), N(d), "exchanged dcorr", rtol=1e-13)
    equal(N(ax), x, "argument after the call")
    return (t1[0], t2[0]) != ("N", "N") and bool(np.any(x != 0))


@sub(
    "C06",
    strategy=lambda: st.fixed_dictionaries({"t1": lognormal, "t2": lognormal, "power": st.lists(st.integers(-16, -1), min_size=1, max_size=5), "sign": st.booleans(), "xp": backend(12, 5, 1), "seed": seeds}),
    rule="a correlation below 1e-9",
    quick=150,
)
def small(case):
    """Correlations of any small size keep their relative precision through the relation and its inverse."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    a, b = make(case["t1"]), make(case["t2"])
    lam = float(np.prod([t[1] if len(t) > 1 else 1.0 for t in (case["t1"], case["t2"])]))
    x = 10.0 ** np.array(case["power"]) * r.uniform(1, 9, size=len(case["power"])) * (-1 if case["sign"] else 1)
    x = np.maximum(x, -0.9)
    close(N(glass.grf.corr(a, b, F(xp, x))), lam * np.expm1(x), "small correlation", rtol=1e-10)
    close(N(glass.grf.icorr(a, b, F(xp, lam * x))), np.log1p(x), "inverse of a small correlation", rtol=1e-10)
    close(N(a(F(xp, x), 0.0)), (case["t1"][1] if len(case["t1"]) > 1 else 1.0) * np.expm1(x), "small fluctuation", rtol=1e-10)
    return bool(np.any(np.abs(x) < 1e-9))


class Foreign:
    """A user transformation that knows its correlation with everything."""

    def __call__(self, x, var, /):
        return x

    def corr(self, other, x, /):
        return 3 * x

    def icorr(self, other, x, /):
        return x / 3

    def dcorr(self, other, x, /):
        return 3 + 0 * x


class Ignorant(Foreign):
    def corr(self, other, x, /):
        return NotImplemented

    icorr = dcorr = corr


@sub(
    "C06",
    strategy=lambda: st.fixed_dictionaries({"t1": st.one_of(normal, lognormal, squared), "t2": st.one_of(normal, lognormal, squared), "x": st.lists(tidy(0.0, 0.5), min_size=1, max_size=4)}),
    rule="the pair has no known relation",
    quick=200,
)
def dispatch(case):
    """Unknown pairs raise NotImplementedError naming both in either order; a pair known to either partner is used from both sides."""
    a, b = make(case["t1"]), make(case["t2"])
    x = np.array(case["x"])
    known = {case["t1"][0], case["t2"][0]} in ({"N"}, {"L"}, {"S"}, {"N", "L"})
    for f in (glass.grf.corr, glass.grf.icorr, glass.grf.dcorr):
        for p, q in ((a, b), (b, a)):
            if known:
                assert N(f(p, q, x)).shape == x.shape
            else:
                raises(NotImplementedError, lambda f=f, p=p, q=q: f(p, q, x), "unknown pair")
                try:
                    f(p, q, x)
                except NotImplementedError as e:
                    assert type(p).__name__ in str(e) and type(q).__name__ in str(e), f"error does not name the pair: {e}"
        raises(NotImplementedError, lambda f=f: f(a, Ignorant(), x), "unknown pair")
        raises(NotImplementedError, lambda f=f: f(Ignorant(), a, x), "unknown pair")
        equal(f(a, Foreign(), x), f(Foreign(), a, x), "relation known to one partner")
        equal(f(Ignorant(), Foreign(), x), getattr(Foreign(), f.__name__)(None, x), "relation known to the second partner")
    raises(NotImplementedError, lambda: glass.compute_gaussian_spectra([a, Ignorant()], [x, x, x]), "compute with unknown pair")
    return not known
