"""C38: effective convergence of intrinsic alignments."""

import math

import numpy as np
from hypothesis import strategies as st

import glass
import glass.galaxies
from vf.be import F, N, XPS, backend, check_ns, close, equal, fl, rnd, same, seeds, tidy
from vf.core import sub

# critical density in units of 1e11 solar masses per cubic Mpc, and Hubble parameters, as used by cosmology codes
DEFAULTS = {"z0": 0.0, "eta": 0.0, "lbar": 0.0, "l0": 1e-9, "beta": 0.0}


class Growth:
    """Cosmology with a growth factor in closed form; counts nothing, remembers nothing."""

    def __init__(self, h, om, rho, p, q, as_array, xp):
        self.h, self.Omega_m0, self.critical_density0 = h, om, rho
        self.p, self.q, self.as_array, self.xp = p, q, as_array, xp

    def d(self, z):
        return (1 + z) ** -self.p * (1 + self.q * z / (1 + z))

    def growth_factor(self, z):
        d = self.d(z)
        return self.xp.asarray(d) if self.as_array else d


@st.composite
def models(draw):
    kw = {}
    if draw(st.booleans()):
        kw["z0"] = draw(tidy(0.0, 3.0))
    if draw(st.integers(0, 2)):
        kw["eta"] = draw(tidy(-4.0, 4.0))
    if draw(st.integers(0, 2)):
        kw["lbar"] = draw(tidy(0.01, 5.0)) * draw(st.sampled_from([1.0, 1e10, 1e-9]))
        kw["l0"] = draw(tidy(0.1, 5.0)) * draw(st.sampled_from([1.0, 1e10, 1e-9]))
        if draw(st.integers(0, 3)):
            kw["beta"] = draw(tidy(-3.0, 3.0))
    return {
        "xp": draw(backend(6, 3, 2)),
        "dims": draw(st.sampled_from([[], [1], [12], [48], [3, 12], [2, 1, 5], [0]])),
        "zeff": draw(st.one_of(st.just(0.0), tidy(0.0, 5.0), st.integers(0, 4))),
        "a": draw(st.one_of(tidy(-5.0, 5.0), st.integers(-3, 3), fl(1e-6, 1e-3))),
        "h": draw(tidy(0.4, 1.0)),
        "om": draw(tidy(0.05, 1.0)),
        "rho": draw(tidy(0.5, 3.0)) * 1e11,
        "p": draw(tidy(0.2, 1.5)),
        "q": draw(tidy(-0.5, 0.9)),
        "as_array": draw(st.booleans()),
        "scale": draw(st.sampled_from([1.0, 1e-6, 1e4])),
        "kw": kw,
        "seed": draw(seeds),
    }


def factor(case):
    """The factor of the documented model, as a sum of logarithms with the sign apart."""
    kw = DEFAULTS | case["kw"]
    z = case["zeff"]
    growth = (1 + z) ** -case["p"] * (1 + case["q"] * z / (1 + z))
    if case["a"] == 0:
        return 0.0
    log = math.log(abs(case["a"])) + math.log(5e-14) - 2 * math.log(case["h"]) + math.log(case["rho"]) + math.log(case["om"])
    log -= math.log(growth)
    log += kw["eta"] * (math.log1p(z) - math.log1p(kw["z0"]))
    if kw["beta"]:
        log += kw["beta"] * (math.log(kw["lbar"]) - math.log(kw["l0"]))
    return -math.copysign(math.exp(log), case["a"])


def call(case, delta, **over):
    xp = XPS[case["xp"]]
    cosmo = Growth(case["h"], case["om"], case["rho"], case["p"], case["q"], case["as_array"], xp)
    o = {"zeff": case["zeff"], "a_ia": case["a"]} | over
    kw = case["kw"] | {k: v for k, v in over.items() if k in DEFAULTS}
    return glass.galaxies._kappa_ia_nla(delta, o["zeff"], o["a_ia"], cosmo, **kw)  # noqa: SLF001


@sub("C38", strategy=models, rule="contrast, amplitude and at least one dependence non-zero", quick=600)
def nla_model(case):
    """The result is the contrast times -A C1 rho_m / D(z) ((1+z)/(1+z0))^eta (L/L0)^beta, shape and backend kept, input unchanged."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    delta = case["scale"] * np.expm1(r.normal(size=tuple(case["dims"])))
    given = F(xp, delta)
    out = call(case, given)
    check_ns(out, xp)
    equal(N(given), delta, "contrast after the call")
    close(N(out), delta * factor(case), f"effective convergence for {case['kw']}", rtol=1e-10, atol=0)
    again = call(case, given)
    same(N(again), N(out), "result of a second call")
    return bool(delta.size and case["a"] and (case["kw"].get("eta") or case["kw"].get("beta")))


@sub("C38", strategy=models, rule="contrast and amplitude non-zero", quick=300)
def nla_relations(case):
    """Linear in the contrast and the amplitude; no redshift dependence at the reference redshift, no luminosity dependence at the reference luminosity."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    a, b = r.normal(size=(2, *case["dims"]))
    ka, kb = (N(call(case, F(xp, v))) for v in (a, b))
    s = float(max([np.max(np.abs(ka), initial=0), np.max(np.abs(kb), initial=0)]))
    close(N(call(case, F(xp, 2 * a - 3 * b))), 2 * ka - 3 * kb, "linear combination of contrasts", rtol=1e-9, atol=1e-12 * s)
    close(N(call(case, F(xp, a), a_ia=-2.5 * case["a"])), -2.5 * ka, "scaled amplitude", rtol=1e-12)
    equal(N(call(case, F(xp, a), a_ia=0.0)) == 0, np.ones(a.shape, dtype=bool), "zero amplitude gives no alignments")
    plain = N(call(case, F(xp, a), eta=0.0, beta=0.0))
    close(N(call(case, F(xp, a), z0=case["zeff"], eta=3.5, lbar=2.0, l0=2.0, beta=-1.5)), plain, "at the reference redshift and luminosity", rtol=1e-12)
    if case["a"] and a.size:
        i = np.flatnonzero(a.reshape(-1))
        assert np.all(np.sign(plain.reshape(-1)[i]) == -np.sign(case["a"]) * np.sign(a.reshape(-1)[i])), "sign of the alignments"
    return bool(a.size and case["a"])
