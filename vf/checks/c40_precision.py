"""C40: single precision and foreign byte order."""

import numpy as np
from hypothesis import strategies as st

from vf import api
from vf.be import close, evenly, rnd, seeds
from vf.checks.c31_backends import run
from vf.core import sub
from vf.rec import Scripted

SINGLE = {"f": np.float32, "c": np.complex64}
# draws categories with probabilities that the scripted generator wants to add up in double precision
NOT_JAX = {"distribute"}


class Steady(Scripted):
    """Counts of galaxies that are not affected by the last digits of the expected numbers, which are kept."""

    def counts(self, lam):
        return self.base.poisson(np.where(np.asarray(lam) > 0, 3.0, 0.0))


class Stored(api.Given):
    """Gives numbers which single precision can hold, in single precision, double precision or another order of bytes."""

    def __init__(self, lib, seed, how):
        self.rngs = []
        super().__init__(lib, seed, rng=self.steady)
        self.how, self.coin, self.changed = how, rnd(seed + 5), 0

    def steady(self):
        self.rngs.append(Steady(self.seed))
        return self.rngs[-1]

    def __call__(self, data, dtype=None):
        d = np.array(data, dtype=dtype)
        t = SINGLE.get(d.dtype.kind)
        if t is None or dtype is not None:
            return super().__call__(d)
        q = d.astype(t)
        d = q.astype(d.dtype)
        if self.how is not None and not (self.how.startswith("some") and self.coin.random() < 0.5):
            self.changed += d.size > 0
            d = d.astype(d.dtype.newbyteorder(">")) if self.how.endswith("swapped") else q
        return super().__call__(d)


# steep functions or inverses of matrices amplify the rounding of their input
STEEP = {"correlations", "compute", "displacement", "cov_clip", "cov_nearest", "nearcorr", "regularized_spectra_clip", "regularized_spectra_nearest", "nnls", "partition_nnls", "partition_lstsq", "effective_cls"}


class Anything:
    rtol, atol = 0.0, np.inf


def within(e, how, ref, out):
    """Equal to rounding, with respect to the largest entry for single precision."""
    if how.endswith("swapped"):
        api.compare(ref, out, type("T", (), {"rtol": max(e.rtol, 1e-8), "atol": e.atol}), f"{e.name} for {how} arrays")
        return
    api.compare(ref, out, Anything, f"{e.name} for {how} arrays")
    tol = 1e-3 if e.name in STEEP else 1e-5
    for (path, kind, _, x), (_, _, _, y) in zip(ref, out):
        if kind in ("array", "number") and x.size:
            if x.dtype.kind not in "fc":
                x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
            same = (x == y) | ((x != x) & (y != y))
            ok = same | (np.abs(x - y) <= tol * float(np.max(np.abs(x), where=np.isfinite(x), initial=1e-30)))
            if not np.all(ok):
                i = tuple(int(v[0]) for v in np.nonzero(np.atleast_1d(~ok)))
                raise AssertionError(f"{e.name} for {how} arrays: {path} differs at {i}: {np.atleast_1d(x)[i]!r} and {np.atleast_1d(y)[i]!r}")


def agrees(case):
    """The result for arrays in single precision (or some of them, or in the other order of bytes) is that for the same numbers in double precision, with the same shapes, kinds of numbers and nesting; the arguments stay as they are."""
    e, how = api.ENTRIES[case["function"]], case["how"]
    f = Stored(case["lib"], case["seed"], None)
    ref = run(e, f, case["seed"])
    g = Stored(case["lib"], case["seed"], how)
    out = run(e, g, case["seed"])
    within(e, how, ref, out)
    for a, b in zip(f.rngs, g.rngs, strict=True):
        lam = [[x[1] for x in r.log if x[0] == "poisson"] for r in (a, b)]
        assert len(lam[0]) == len(lam[1]), f"{len(lam[0])} and {len(lam[1])} draws of counts"
        for x, y in zip(*lam):
            close(y, x, f"{e.name}: expected counts for {how} arrays", rtol=1e-4, atol=1e-6)
    g.unchanged()
    return g.changed > 0 and any(k in ("array", "number") and x.size for _, k, _, x in out)


def cases(group):
    names = [n for n, e in api.ENTRIES.items() if e.group == group]

    @st.composite
    def strategy(draw):
        n = draw(evenly(names))
        jax = "jax" in api.ENTRIES[n].libs and n not in NOT_JAX and draw(st.integers(0, 9)) == 9
        return {
            "function": n,
            "lib": "jax" if jax else "np",
            "how": "single" if jax else draw(st.sampled_from(["single", "some single", "swapped", "some swapped"])),
            "seed": draw(st.integers(0, 1)) if jax else draw(seeds),
        }

    return strategy


def _register(group, quick):
    def fn(case):
        return agrees(case)

    fn.__name__, fn.__doc__ = group, agrees.__doc__
    sub("C40", strategy=cases(group), rule="an array in single precision or of foreign byte order was given and there is a result", quick=quick)(fn)


for _group in sorted({e.group for e in api.ENTRIES.values() if "np" in e.libs}):
    _register(_group, 18 * sum(e.group == _group for e in api.ENTRIES.values()))
