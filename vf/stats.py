"""Statistical acceptance with negligible error probability (8 standard deviations by default)."""

from __future__ import annotations

import numpy as np

from .be import XPS, rnd


def uniform(x, what, sigmas=8.0):
    """Variates look uniform on [0, 1] and independent of their predecessor."""
    n = x.size
    assert np.all((x >= 0) & (x <= 1)), f"{what} outside of the unit interval"
    for p, mean, var in ((1, 1 / 2, 1 / 12), (2, 1 / 3, 4 / 45)):
        z = (np.mean(x**p) - mean) / np.sqrt(var / n)
        assert abs(z) < sigmas, f"{what}: moment {p} is off by {z:.1f} standard deviations"
    h = np.histogram(x, bins=10, range=(0, 1))[0]
    z = (h - n / 10) / np.sqrt(n * 0.09)
    assert np.all(np.abs(z) < sigmas), f"{what}: histogram {h.tolist()} is not uniform"
    correlated(x[1:], x[:-1], f"{what} and its predecessor", sigmas)


def correlated(x, y, what, sigmas=8.0):
    z = np.sum((x - 0.5) * (y - 0.5)) / np.sqrt(x.size) * 12
    assert abs(z) < sigmas, f"{what} are correlated ({z:.1f} standard deviations)"


def generator(case, salt=0):
    """Ordinary random number generator of the case's array library."""
    if case["xp"] == "jax":
        import glass.rng

        return glass.rng.default_rng(seed=(case["seed"] + salt) % 2**30, xp=XPS["jax"])
    return rnd(case["seed"] + salt)
