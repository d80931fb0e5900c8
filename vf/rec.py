"""Scripted and recording random number generators (drop-in numpy Generators)."""

from __future__ import annotations

import math

import numpy as np


def _shape(size, *args):
    if size is None:
        return np.broadcast_shapes(*(np.shape(a) for a in args)) if args else ()
    return (size,) if isinstance(size, (int, np.integer)) else tuple(int(s) for s in size)


class Scripted(np.random.Generator):
    """A numpy Generator whose variates come from overridable sources.

    ``log`` lists (method, variates) for every call, in order.
    """

    def __init__(self, seed: int = 0) -> None:
        super().__init__(np.random.PCG64(seed))
        self.base = np.random.Generator(np.random.PCG64(seed))
        self.log: list = []

    # -- sources: flat arrays of k variates --------------------------------
    def unit_uniform(self, k):
        return self.base.random(k)

    def unit_normal(self, k):
        return self.base.standard_normal(k)

    def counts(self, lam):
        return self.base.poisson(lam)

    # -- the Generator interface ---------------------------------------------
    def _put(self, out, x):
        if out is not None:
            out[...] = x
            return out
        return x

    def random(self, size=None, dtype=np.float64, out=None):
        s = out.shape if out is not None and size is None else _shape(size)
        u = np.asarray(self.unit_uniform(math.prod(s)), dtype=float).reshape(s)
        self.log.append(("uniform", u.copy()))
        u = u.astype(dtype)
        return self._put(out, u if s or size is not None else u[()])

    def uniform(self, low=0.0, high=1.0, size=None):
        low, high = np.asarray(low, dtype=float), np.asarray(high, dtype=float)
        s = _shape(size, low, high)
        u = np.asarray(self.unit_uniform(math.prod(s)), dtype=float).reshape(s)
        self.log.append(("uniform", u.copy()))
        return (low + (high - low) * u)[()] if not s else low + (high - low) * u

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        s = out.shape if out is not None and size is None else _shape(size)
        g = np.asarray(self.unit_normal(math.prod(s)), dtype=float).reshape(s)
        self.log.append(("normal", g.copy()))
        g = g.astype(dtype)
        return self._put(out, g if s or size is not None else g[()])

    def normal(self, loc=0.0, scale=1.0, size=None):
        loc, scale = np.asarray(loc, dtype=float), np.asarray(scale, dtype=float)
        s = _shape(size, loc, scale)
        g = np.asarray(self.unit_normal(math.prod(s)), dtype=float).reshape(s)
        self.log.append(("normal", g.copy()))
        return (loc + scale * g)[()] if not s else loc + scale * g

    def poisson(self, lam=1.0, size=None):
        lam = np.broadcast_to(np.asarray(lam, dtype=float), _shape(size, lam))
        n = np.asarray(self.counts(lam))
        self.log.append(("poisson", np.array(lam), np.array(n)))
        return n if n.ndim or size is not None else n[()]


class Impulse(Scripted):
    """All normal variates are zero, except number ``at`` in order of drawing."""

    def __init__(self, at: int) -> None:
        super().__init__(0)
        self.at, self.drawn = at, 0

    def unit_normal(self, k):
        g = np.zeros(k)
        if 0 <= self.at - self.drawn < k:
            g[self.at - self.drawn] = 1.0
        self.drawn += k
        return g
