"""C12: grids and radial weight functions."""

import numpy as np
from hypothesis import strategies as st

import glass
from vf.be import F, N, XPS, backend, check_ns, close, equal, raises, tidy
from vf.core import sub
from vf.cosmo import Cosmo

cosmos = st.fixed_dictionaries({"p": st.sampled_from([0.5, 1, 1.5, 2]), "curv": st.sampled_from([0.0, 0.3, -0.3]), "om": tidy(0.1, 1.0), "dh": st.sampled_from([4282.7, 2997.9, 1.0, 1e-3, 1e26])})


@st.composite
def cases(draw):
    lo = draw(tidy(0.0, 2.0))
    return {
        "lo": lo,
        "hi": lo + draw(tidy(0.05, 3.0)),
        "num": draw(st.integers(1, 60)),
        "step": draw(tidy(0.02, 1.5)),
        "mode": draw(st.sampled_from(["num", "step"])),
        "cosmo": draw(cosmos),
        "xp": draw(backend(12, 5, 1)),
        "default": draw(st.booleans()),
    }


def on_grid(x, lo, hi, case, step, what):
    d = np.diff(x)
    assert x.ndim == 1 and np.all(d > 0), f"{what}: not increasing"
    close(x[0], lo, f"{what}: start", rtol=1e-9, atol=1e-12 * max(1, abs(hi)))
    if case["mode"] == "num":
        assert x.size == case["num"] + 1, f"{what}: {x.size - 1} intervals instead of {case['num']}"
        close(x[-1], hi, f"{what}: end", rtol=1e-9)
        close(d, np.full(d.size, (hi - lo) / case["num"]), f"{what}: spacing", rtol=1e-6)
    else:
        close(d, np.full(d.size, step), f"{what}: spacing", rtol=1e-6)
        eps = 1e-6 * step
        assert hi - eps <= x[-1] <= hi + step + eps, f"{what}: grid to {hi} with step {step} ends at {x[-1]}"


@sub("C12", strategy=cases, rule="at least two intervals", quick=300)
def grids(case):
    """Start, end, number and spacing, in redshift and in comoving distance; exactly one of step and number must be given."""
    xp, lo, hi = XPS[case["xp"]], case["lo"], case["hi"]
    c = Cosmo(xp=xp, **case["cosmo"])
    kw = {"num": case["num"]} if case["mode"] == "num" else {"dz": case["step"]}
    use = {} if case["default"] and case["xp"] == "np" else {"xp": xp}
    z = glass.redshift_grid(lo, hi, **kw, **use)
    check_ns(z, xp)
    on_grid(N(z), lo, hi, case, case["step"], "redshift grid")
    step = case["step"] * c.hubble_distance * 0.2
    kw = {"num": case["num"]} if case["mode"] == "num" else {"dx": step}
    a, b = c.chi(lo) * c.hubble_distance, c.chi(hi) * c.hubble_distance
    limit = np.inf if c.p <= 1 else 0.9 / (c.p - 1) * c.hubble_distance
    if case["mode"] == "num" or b + step < limit:  # the inverse distance must exist up to the end of the grid
        z = glass.distance_grid(c, lo, hi, **kw)
        check_ns(z, xp)
        on_grid(c.chi(N(z)) * c.hubble_distance, float(a), float(b), case, step, "distance grid")
        raises(ValueError, lambda: glass.distance_grid(c, lo, hi), "neither step nor number")
        raises(ValueError, lambda: glass.distance_grid(c, lo, hi, dx=1.0, num=2), "both step and number")
    raises(ValueError, lambda: glass.redshift_grid(lo, hi, **use), "neither step nor number")
    raises(ValueError, lambda: glass.redshift_grid(lo, hi, dz=0.1, num=2, **use), "both step and number")
    return case["mode"] == "step" or case["num"] >= 2


@sub(
    "C12",
    strategy=lambda: st.fixed_dictionaries({"z": st.lists(tidy(0.0, 4.0), min_size=1, max_size=6), "two": st.booleans(), "cosmo": cosmos, "xp": backend(12, 5, 1)}),
    rule="a curved cosmology or several redshifts",
    quick=200,
)
def weights(case):
    """dX/dz proportional weights in distance, volume and density equal their definition, element by element."""
    xp = XPS[case["xp"]]
    c = Cosmo(xp=xp, **case["cosmo"])
    z = np.array(case["z"])
    if case["two"]:
        z = np.stack([z, z + 0.5])
    a = F(xp, z)
    vol = c.xm(z) ** 2 / c.e(z)
    for w, want in (
        (glass.DistanceWeight(c), 1 / c.e(z)),
        (glass.VolumeWeight(c), vol),
        (glass.DensityWeight(c), c.critical_density0 * c.om(z) * vol),
    ):
        got = w(a)
        check_ns(got, xp)
        close(N(got), want, type(w).__name__, rtol=1e-10)
    equal(N(a), z, "redshifts after the call")
    return z.size > 1 or c.curv != 0
