"""C13: distributing redshifts over shells."""

import numpy as np
from hypothesis import strategies as st

import glass
import glass.jax
from vf.be import F, N, XPS, backend, check_ns, equal, increasing, rnd, seeds, sizes, tidy
from vf.core import Skip, sub


class Choices(np.random.Generator):
    """Generator whose one-trial multinomial draws are recorded and decided by a rule."""

    def __init__(self, seed):
        super().__init__(np.random.PCG64(seed))
        self.base = rnd(seed)
        self.log = []

    def multinomial(self, n, pvals, size=None, **kw):
        p = np.asarray(pvals, dtype=float)
        assert np.all(np.asarray(n) == 1) and size is None
        self.log.append(p.copy())
        c = np.cumsum(p, axis=-1)
        u = self.base.random(p.shape[:-1]) * c[..., -1]
        k = np.sum(u[..., None] >= c, axis=-1)
        out = np.zeros(p.shape, dtype=int)
        np.put_along_axis(out, k[..., None], 1, axis=-1)
        return out


@st.composite
def windows(draw, xpname):
    kind = draw(st.sampled_from(["tophat", "linear", "cubic", "free", "free"]))
    k = draw(sizes(5, 14))
    if kind == "free":
        ws = []
        for _ in range(k):
            z = draw(increasing(0.0, 2.0, 2, 6, gap=0.01))
            w = draw(st.lists(st.one_of(st.just(0.0), tidy(0.0, 5.0)), min_size=len(z), max_size=len(z)))
            ws.append([z, w])
        return {"kind": kind, "ws": ws, "scale": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-14, 1e-30, 1e12])), "stretch": draw(st.sampled_from([1.0, 1.0, 5.0]))}
    edges = draw(increasing(0.0, 2.0, k + (1 if kind == "tophat" else 2), k + (1 if kind == "tophat" else 2), gap=0.01))
    return {"kind": kind, "edges": edges, "stretch": draw(st.sampled_from([1.0, 1.0, 5.0]))}


def build(xp, spec):
    if spec["kind"] == "free":
        return [glass.RadialWindow(F(xp, np.array(z) * spec["stretch"]), F(xp, np.array(w) * spec["scale"]), 0.5) for z, w in spec["ws"]]
    f = {"tophat": glass.tophat_windows, "linear": glass.linear_windows, "cubic": glass.cubic_windows}[spec["kind"]]
    return f(F(xp, np.array(spec["edges"]) * spec["stretch"]), dz=0.02)


def weights(z, shells):
    """Window values at the redshifts, shape (*z.shape, shells)."""
    return np.stack([np.interp(z, N(w.za), N(w.wa), left=0.0, right=0.0) for w in shells], axis=-1)


@st.composite
def cases(draw):
    x = draw(backend(12, 5, 1))
    return {
        "xp": x,
        "win": draw(windows(x)),
        "shape": draw(st.one_of(st.sampled_from([[], [0], [1], [3, 0, 2], [999], [1000], [1001], [2, 3], [7, 300]]), st.lists(st.integers(1, 30), min_size=1, max_size=3), st.integers(1, 3500).map(lambda n: [n])))
        if x != "jax"
        else draw(st.sampled_from([[5], [1003]])),
        "order": draw(st.sampled_from(["random", "random", "sorted", "reversed", "blocks"])),
        "rng": draw(st.sampled_from(["plain", "default", "recorded", "recorded"])) if x != "jax" else "plain",
        "seed": draw(seeds),
    }


@sub("C13", strategy=cases, rule="some redshifts lie inside and some outside the windows, or windows overlap", quick=250, shards=3)
def assignment(case):
    """Every redshift goes to a window that is positive there, -1 exactly when none is; recorded draws use the relative weights of that redshift and the outcome of the draw is the result."""
    xp = XPS[case["xp"]]
    r = rnd(case["seed"])
    shells = build(xp, case["win"])
    shape = tuple(case["shape"])
    nodes = np.concatenate([N(w.za) for w in shells])
    z = r.uniform(-0.1, 2.3 * case["win"]["stretch"], size=shape)
    z = np.where(r.random(shape) < 0.15, r.choice(nodes, size=shape), z)
    if case["order"] == "blocks":  # stretches of similar redshifts, all inside or all outside
        z = z.ravel()
        for start in range(0, z.size, 500):
            z[start : start + 500] = np.clip(z[start] + r.uniform(-0.02, 0.02, size=z[start : start + 500].size), -0.1, None)
        z = z.reshape(shape)
    elif case["order"] != "random":
        z = np.sort(z, axis=None)[:: 1 if case["order"] == "sorted" else -1].reshape(shape)
    rng = None
    if case["rng"] == "recorded":
        rng = Choices(case["seed"])
    elif case["rng"] == "plain":
        rng = rnd(case["seed"]) if case["xp"] != "jax" else glass.jax.Generator(seed=case["seed"])
    zz = F(xp, z)
    out = glass.distribute(zz, shells, rng=rng)
    check_ns(out, xp)
    equal(N(zz), z, "redshifts after the call")
    i = N(out)
    assert i.shape == shape, f"{i.shape} for redshifts of shape {shape}"
    assert np.issubdtype(i.dtype, np.integer), i.dtype
    w = weights(z, shells)
    inside = np.any(w > 0, axis=-1)
    assert np.all((i >= -1) & (i < len(shells))), "index out of range"
    assert np.all((i == -1) == ~inside), "-1 must be given exactly outside of all windows"
    own = np.take_along_axis(w, np.maximum(i, 0)[..., None], axis=-1)[..., 0] if w.size else np.zeros(shape)
    assert np.all(own[inside] > 0), "assigned to a window that is zero at the redshift"
    if case["rng"] == "recorded" and rng.log:
        p = np.concatenate([q.reshape(-1, q.shape[-1]) for q in rng.log])
        k = w.reshape(-1, len(shells))
        if p.shape == (k.shape[0], len(shells) + 1):
            s = p / p.sum(axis=-1, keepdims=True)
            for col in (0, len(shells)):
                rest = np.delete(s, col, axis=1)
                want = k / np.where(k.sum(1) > 0, k.sum(1), 1)[:, None]
                if np.allclose(rest, want, rtol=1e-9, atol=1e-12):
                    break
            else:
                raise AssertionError("probabilities of the drawn categories are not the relative weights")
    return bool(inside.any() and ((~inside).any() or (np.sum(w > 0, axis=-1) > 1).any()))


@st.composite
def fcases(draw):
    x = draw(backend(8, 3, 1))
    k = draw(st.integers(2, 5))
    return {"xp": x, "wa": draw(st.lists(tidy(0.0, 4.0, 1), min_size=k, max_size=k)), "slope": draw(st.booleans()), "z": draw(tidy(0.05, 0.95)), "n": draw(st.sampled_from([4000, 6003])), "dims": draw(st.booleans()), "seed": draw(seeds)}


@sub("C13", strategy=fcases, rule="at least two windows are positive at the redshift", quick=60, thorough=1500)
def frequency(case):
    """Many copies of one redshift under overlapping windows: the share of every window is its relative weight within 8 standard deviations, also in every third of the output."""
    xp = XPS[case["xp"]]
    wa = np.array(case["wa"])
    if wa.sum() == 0:
        raise Skip
    shells = [glass.RadialWindow(F(xp, [0.0, 1.0]), F(xp, [a, a * (2 if case["slope"] and j % 2 else 1)]), 0.5) for j, a in enumerate(wa)]
    n = case["n"]
    z = np.full((n,) if not case["dims"] else (n // 2, 2), case["z"])
    n = z.size
    rng = rnd(case["seed"]) if case["xp"] != "jax" else glass.jax.Generator(seed=case["seed"])
    i = N(glass.distribute(F(xp, z), shells, rng=rng)).ravel()
    w = np.array([np.interp(case["z"], N(s.za), N(s.wa)) for s in shells])
    p = w / w.sum()
    for part in (i, i[: n // 3], i[-(n // 3) :]):
        for j, q in enumerate(p):
            m, c = part.size, int(np.sum(part == j))
            sd = np.sqrt(m * q * (1 - q))
            assert abs(c - m * q) <= 8 * sd + 8 * (q not in (0, 1)), f"window {j}: {c} of {m} for probability {q:.4f}"
    return bool(np.sum(w > 0) > 1)
