"""C23: photometric redshifts."""

import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

import glass
from vf.be import F, N, XPS, backend, check_ns, close, equal, raises, rnd, seeds, tidy
from vf.core import sub
from vf.rec import Scripted
from vf.stats import generator, uniform


@st.composite
def cases(draw):
    x = draw(backend(14, 6, 1))
    full = draw(st.lists(st.integers(1, 5), max_size=3)) if x != "jax" else [3]

    def sh():
        s = [n if draw(st.integers(0, 2)) else 1 for n in full]
        return s[draw(st.integers(0, len(s))) if draw(st.booleans()) else 0 :]

    s1, s2 = (sh(), sh()) if x != "jax" else (full, [])
    return {
        "xp": x,
        "s_z": s1,
        "s_sigma": s2,
        "scalars": draw(st.booleans()),
        "lower": draw(st.sampled_from(["none", "none", "float", "full"])),
        "upper": draw(st.sampled_from(["none", "none", "float", "full"])),
        "sigma": draw(st.sampled_from([0.0, 1e-3, 0.05, 0.2, 3.0, 400.0])),
        "seed": draw(seeds),
    }


@sub("C23", strategy=cases, rule="at least two redshifts with errors", quick=500, shards=3)
def exact(case):
    """Results have the broadcast shape, are within the bounds (zero to infinity by default), and each is the mean plus (1+z) sigma_0 times one of the normal variates drawn."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    s1, s2 = tuple(case["s_z"]), tuple(case["s_sigma"])
    z = r.uniform(0.3, 2, size=s1)
    sig = r.uniform(0.5, 1, size=s2) * case["sigma"]
    shape = np.broadcast_shapes(s1, s2)
    sd = (1 + z) * sig
    lo, up = {}, {}
    mid, width = np.broadcast_to(z, shape), np.broadcast_to(sd, shape)
    if case["lower"] != "none":
        low = (mid - r.uniform(0.2, 2, size=shape) * width - 1e-6) if case["lower"] == "full" else np.array((mid - 0.5 * width).min() - 1e-6)
        lo["lower"] = low
    if case["upper"] != "none":
        upp = (mid + r.uniform(0.2, 2, size=shape) * width + 1e-6) if case["upper"] == "full" else np.array((mid + 0.5 * width).max() + 1e-6)
        up["upper"] = upp
    kw = {}
    for d in (lo, up):
        for k, v in d.items():
            kw[k] = float(v) if case[k] == "float" else F(xp, v)
    if not shape and case["scalars"]:
        args, kw["xp"] = (float(z), float(sig)), xp
    else:
        args = (F(xp, z), float(sig) if not s2 and case["scalars"] else F(xp, sig))
    rng = Scripted(case["seed"])
    out = glass.gaussian_phz(*args, rng=rng, **kw)
    check_ns(out, xp)
    for a, v in zip(args, (z, sig)):
        equal(N(a), v, "input after the call")
    x = N(out)
    assert x.shape == shape, f"{x.shape} for redshifts {s1} and errors {s2}"
    low, upp = lo.get("lower", 0.0), up.get("upper", np.inf)
    assert np.all(x >= low) and np.all(x <= upp), "redshift out of bounds"
    g = np.concatenate([np.ravel(e[1]) for e in rng.log if e[0] == "normal"])
    if case["sigma"] > 0:
        dev = (x - mid) / width
        for v in np.ravel(dev):
            assert np.min(np.abs(g - v)) < 1e-9, f"deviation of {v} standard deviations is not one of the variates"
        # independent variates: none is used twice
        assert np.unique(np.ravel(dev)).size == dev.size or dev.size == 1 or np.min(np.diff(np.sort(np.ravel(dev)))) > 1e-12, "variate used twice"
        first = g[: x.size].reshape(shape)
        ok = (mid + width * first > low + 1e-9) & (mid + width * first < upp - 1e-9)
        if len([e for e in rng.log if e[0] == "normal" and np.size(e[1]) == x.size]):
            close(dev[ok], first[ok], "accepted variates", rtol=0, atol=1e-9)
    else:
        close(x, mid, "redshift without error", rtol=1e-15)
    return x.size >= 2 and case["sigma"] > 0


@sub("C23", strategy=cases, rule="always", quick=80, thorough=1500, shards=4)
def distributed(case):
    """Thousands of redshifts with an ordinary generator are independent truncated Gaussians: their cumulative probabilities are uniform."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    n = 4000 if case["xp"] != "jax" else 3000
    z = r.uniform(0.0, 1.5, size=n)
    sig = case["sigma"] or 0.1
    sd = (1 + z) * sig
    kw, low, upp = {}, np.zeros(n), np.full(n, np.inf)
    # bounds leave at least a third of a standard deviation below and above a centre within reach
    mid = z + r.uniform(-0.5, 0.5, size=n) * sd
    if case["lower"] == "none":
        mid = np.maximum(mid, 0.4 * sd)
    elif case["lower"] == "full":
        low = mid - r.uniform(0.4, 1.5, size=n) * sd
        kw["lower"] = F(xp, low)
    else:
        kw["lower"] = float((mid - 0.4 * sd).min())
        low = np.full(n, kw["lower"])
    if case["upper"] == "full":
        upp = mid + r.uniform(0.4, 1.5, size=n) * sd
        kw["upper"] = F(xp, upp)
    elif case["upper"] == "float":
        kw["upper"] = float((mid + 0.4 * sd).max())
        upp = np.full(n, kw["upper"])
    x = N(glass.gaussian_phz(F(xp, z), sig, rng=generator(case), **kw))
    assert np.all((x >= low) & (x <= upp)), "redshift out of bounds"
    a, b = norm.cdf((low - z) / sd), norm.cdf((upp - z) / sd)
    u = (norm.cdf((x - z) / sd) - a) / (b - a)
    uniform(np.clip(u, 0, 1), "cumulative probability of photometric redshift")
    return True


@sub("C23", strategy=lambda: st.fixed_dictionaries({"xp": backend(8, 4, 1), "lower": tidy(-1, 3), "gap": st.sampled_from([0.0, -0.1, -2.0]), "arr": st.booleans(), "n": st.integers(2, 5), "what": st.sampled_from(["order", "order", "shape"]), "seed": seeds}), rule="always", quick=120, thorough=1000)
def refused(case):
    """Bounds that are not increasing for all redshifts, or arrays of bounds that do not fit the redshifts, are refused."""
    xp, n = XPS[case["xp"]], case["n"]
    z = F(xp, np.full(n, 1.0))
    lo = np.full(n, case["lower"])
    up = lo + 1.0
    if case["what"] == "order":
        up[case["seed"] % n] = lo[0] + case["gap"]
        if case["arr"]:
            kw = {"lower": F(xp, lo), "upper": F(xp, up)}
        else:
            kw = {"lower": float(lo[0]), "upper": float(up.min())}
    else:
        kw = {"lower": F(xp, np.full(n + 1, -1.0)), "upper": F(xp, np.full(n + 1, 3.0))}
    raises(ValueError, lambda: glass.gaussian_phz(z, 0.1, rng=rnd(case["seed"]), **kw), f"bounds {case}")
    return True
