"""C25: resampled galaxy shapes."""

import numpy as np
from hypothesis import strategies as st

import glass
from vf.be import A, N, XPS, backend, check_ns, close, equal, raises, rnd, seeds, tidy
from vf.core import sub
from vf.rec import Scripted
from vf.stats import correlated, generator, uniform


@st.composite
def cases(draw):
    x = draw(backend(12, 6, 1))
    shape = draw(st.lists(st.integers(1, 6), min_size=1, max_size=3)) if x != "jax" else [4]
    return {
        "xp": x,
        "shape": shape,
        "many": draw(st.sampled_from([[3000], [1500, 2], [20_000]])) if x != "jax" else [3000],
        "scale": draw(st.sampled_from([0.3, 0.05, 0.7, 0.999, 1e-6])),
        "zeros": draw(st.sampled_from([0.0, 0.0, 0.3])),
        "kind": draw(st.sampled_from(["varg", "vargamma", "none"])),
        "share": draw(st.one_of(st.sampled_from([0.0, 1e-12, 1e-6, 1.0, 0.999999]), tidy(0, 1))),
        "seed": draw(seeds),
    }


def shapes(case):
    r = rnd(case["seed"])
    s = tuple(case["shape"])
    e = case["scale"] * np.sqrt(r.uniform(size=s)) * np.exp(2j * np.pi * r.uniform(size=s))
    e[r.uniform(size=s) < case["zeros"]] = 0
    if not np.any(e):
        e.flat[0] = case["scale"]
    return e


@sub("C25", strategy=cases, rule="at least two galaxies and a variance", quick=900, shards=2)
def exact(case):
    """Orientations are the uniform variates drawn, moduli have one common factor, which compensates for the variance asked for."""
    xp = XPS[case["xp"]]
    e = shapes(case)
    m2 = float(np.mean(np.abs(e) ** 2))
    kw, v = {}, None
    if case["kind"] != "none":
        v = kw[case["kind"]] = case["share"] * m2 * (1 - 1e-12)
    rng = Scripted(case["seed"])
    x = A(xp, e)
    out = glass.resample_shapes(x, rng=rng, **kw)
    check_ns(out, xp)
    equal(N(x), e, "input after the call")
    y = N(out)
    assert y.shape == e.shape and y.dtype.kind == "c", f"shapes {y.shape} of type {y.dtype}"
    assert np.all(np.isfinite(y)), f"resampled shape not finite for {kw}"
    r, q = np.abs(e), np.abs(y)
    f = np.max(q) / np.max(r)
    close(q, f * r, "common factor of the moduli", rtol=1e-9, atol=1e-13 * np.max(r))
    m4 = float(np.mean(r**4))
    if v is None:
        assert abs(f - 1) < 1e-12, f"moduli changed by a factor {f}"
    elif case["kind"] == "vargamma":
        close(f * f * m2, m2 - v, "mean square modulus", rtol=0, atol=1e-12 * m2)
    else:
        # mean square of (e + g)/(1 + g* e) for random orientation, to first order in the variance of g
        total = f * f * m2 + v * (1 - 2 * f * f * m2 + f**4 * m4)
        close(total, m2, "mean square modulus of the lensed shapes", rtol=0, atol=1e-12 * m2)
    u = np.concatenate([np.ravel(g[1]) for g in rng.log if g[0] == "uniform"])
    if case["share"] < 0.99 or v is None:
        p = np.ravel(np.mod(np.angle(y) / (2 * np.pi), 1.0))[np.ravel(r) > 0]
        d = np.abs(p[:, None] - u[None, :])
        d = np.minimum(d, 1 - d)
        assert np.all(d.min(axis=1) < 1e-7), "orientation is not one of the variates drawn"
        i = d.argmin(axis=1)
        assert np.unique(i).size == i.size, "two galaxies have the same orientation"
    return e.size >= 2 and bool(case["share"]) and v is not None


@sub("C25", strategy=cases, rule="always", quick=60, thorough=1200, shards=2)
def distributed(case):
    """The orientations of thousands of shapes with an ordinary generator are uniform and not related to their former orientation."""
    xp = XPS[case["xp"]]
    case = dict(case, shape=case["many"])
    e = shapes(case)
    kw = {} if case["kind"] == "none" else {case["kind"]: 0.5 * float(np.mean(np.abs(e) ** 2))}
    y = N(glass.resample_shapes(A(xp, e), rng=generator(case, 5), **kw))
    r, q = np.abs(e), np.abs(y)
    f = np.max(q) / np.max(r)
    close(q, f * r, "common factor of the moduli", rtol=1e-9, atol=1e-13 * np.max(r))
    m2, m4 = float(np.mean(r**2)), float(np.mean(r**4))
    v = kw.get("varg", 0.0)
    total = f * f * m2 + v * (1 - 2 * f * f * m2 + f**4 * m4) + kw.get("vargamma", 0.0)
    close(total, m2, "mean square modulus of the lensed shapes", rtol=0, atol=1e-11 * m2)
    ok = np.abs(e) > 0
    p, o = (np.mod(np.angle(a[ok]) / (2 * np.pi), 1.0) for a in (y, e))
    uniform(p, "orientation")
    correlated(p, o, "new and old orientation")
    uniform(np.mod(p - o, 1.0), "change of the orientation")
    return True


@sub("C25", strategy=cases, rule="always", quick=120, thorough=1000)
def refused(case):
    """Variances beyond that of the shapes, and both variances at once, are refused."""
    xp = XPS[case["xp"]]
    e = shapes(case)
    m2 = float(np.mean(np.abs(e) ** 2))
    x = A(xp, e)
    kw = {"varg": 0.5 * m2, "vargamma": 0.5 * m2 * case["share"]}
    if case["kind"] != "none":
        kw = {case["kind"]: m2 * (1 + max(case["share"], 1e-9))}
    raises(ValueError, lambda: glass.resample_shapes(x, rng=rnd(1), **kw), f"{kw} for shapes of variance {m2}")
    return True
