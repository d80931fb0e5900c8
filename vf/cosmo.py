"""Closed-form cosmologies: Einstein-de Sitter like and curvature-dominated (Milne-like), for any array library."""

from __future__ import annotations

import numpy as np


def _arr(z):
    if isinstance(z, (list, tuple)):
        return np.array([float(v) for v in z])
    return np.asarray(z, dtype=float)


class Cosmo:
    """H/H0 = (1+z)^p; comoving distance in closed form; curvature radius 1/sqrt(|k|) in Hubble distances."""

    def __init__(self, p=1.5, curv=0.0, om=0.3, dh=4282.7, xp=np):
        self.p, self.curv, self.Omega_m0, self.hubble_distance, self.xp = p, curv, om, dh, xp
        self.critical_density0 = 1.36e11
        self.h = 0.7

    # plain numpy reference versions, in units of the Hubble distance
    def e(self, z):
        return (1 + _arr(z)) ** self.p

    def chi(self, z):
        z = _arr(z)
        return np.log1p(z) if self.p == 1 else ((1 + z) ** (1 - self.p) - 1) / (1 - self.p)

    def inv_chi(self, x):
        x = _arr(x)
        return np.expm1(x) if self.p == 1 else (1 + (1 - self.p) * x) ** (1 / (1 - self.p)) - 1

    def sk(self, x):
        if self.curv > 0:
            k = np.sqrt(self.curv)
            return np.sinh(k * x) / k
        if self.curv < 0:
            k = np.sqrt(-self.curv)
            return np.sin(k * x) / k
        return x

    def xm(self, z, z2=None):
        return self.sk(self.chi(z)) if z2 is None else self.sk(self.chi(z2) - self.chi(z))

    def om(self, z):
        return self.Omega_m0 * (1 + _arr(z)) ** 3 / self.e(z) ** 2

    # the interface used by glass
    def _out(self, x):
        return self.xp.asarray(np.asarray(x, dtype=float))

    def H_over_H0(self, z):
        return self._out(self.e(z))

    def comoving_distance(self, z, z2=None):
        x = self.chi(z) if z2 is None else self.chi(z2) - self.chi(z)
        return self._out(x * self.hubble_distance)

    def inv_comoving_distance(self, d):
        return self._out(self.inv_chi(_arr(d) / self.hubble_distance))

    def transverse_comoving_distance(self, z, z2=None):
        return self._out(self.xm(z, z2) * self.hubble_distance)

    def Omega_m(self, z):
        return self._out(self.om(z))
