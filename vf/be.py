"""Array backends, conversions, comparison helpers and common strategies."""

from __future__ import annotations

import zlib

import array_api_strict as strict
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

XPS = {"np": np, "strict": strict, "jax": jnp}


def backend(np_=6, strict_=3, jax_=1):
    """Strategy for a backend name; weights set how often each is drawn."""
    return st.sampled_from(["np"] * np_ + ["strict"] * strict_ + ["jax"] * jax_)


def A(xp, data, dtype=None):
    """Array of backend xp from plain data (or a numpy array); always a fresh buffer."""
    return xp.asarray(np.array(data, dtype=dtype, copy=True))


def F(xp, data):
    return A(xp, data, float)


def N(x):
    """Independent numpy copy of an array of any backend."""
    return np.array(np.asarray(x), copy=True)


def ns(x) -> str:
    return x.__array_namespace__().__name__


def check_ns(x, xp, what="result"):
    assert hasattr(x, "__array_namespace__"), f"{what} is not an array: {type(x)}"
    assert ns(x) == xp.__name__, f"{what} belongs to {ns(x)}, inputs to {xp.__name__}"


def close(a, b, what="", rtol=1e-9, atol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, f"{what}: shape {a.shape} != {b.shape}"
    bad = ~np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=False)
    if np.any(bad):
        i = tuple(int(v[0]) for v in np.nonzero(np.atleast_1d(bad)))
        raise AssertionError(
            f"{what}: {int(np.sum(bad))}/{bad.size} entries differ, first at {i}: "
            f"{np.atleast_1d(a)[i]!r} != {np.atleast_1d(b)[i]!r}"
        )


def equal(a, b, what=""):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, f"{what}: shape {a.shape} != {b.shape}"
    bad = a != b
    if np.any(bad):
        i = tuple(int(v[0]) for v in np.nonzero(np.atleast_1d(bad)))
        raise AssertionError(f"{what}: entries differ, first at {i}: {np.atleast_1d(a)[i]!r} != {np.atleast_1d(b)[i]!r}")


def same(a, b, what=""):
    """Equal up to the last digits, which can depend on where arrays lie in memory."""
    b = np.asarray(b)
    big = float(np.max(np.abs(b), initial=0.0)) if b.size and np.all(np.isfinite(b)) else 1.0
    close(a, b, what, rtol=1e-11, atol=1e-13 * big)


def raises(exc, fn, what=""):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:  # noqa: BLE001
        raise AssertionError(f"{what}: expected {exc}, got {type(e).__name__}: {e}") from e
    raise AssertionError(f"{what}: expected {exc}, but the call returned {r!r}"[:500])


def rnd(seed):
    return np.random.Generator(np.random.PCG64(seed))


# Drawn digit by digit: of wide integers, Hypothesis draws 0 in a quarter of the cases and few others.
seeds = st.tuples(*[st.sampled_from(range(32))] * 6).map(lambda digits: sum(d << (5 * i) for i, d in enumerate(digits)))


def evenly(options):
    """Like sampled_from, but all of many options about equally often (Hypothesis itself prefers some by far)."""
    options = list(options)
    return seeds.map(lambda n: options[zlib.crc32(b"%d" % n) % len(options) if n else 0])


fine = st.sampled_from([0] * 11 + [700])


def refined(n, z, *values):
    """Grid with n more nodes at random places, with values between none and twice those on the line."""
    z = np.array(z, dtype=float)
    if not n or z.size < 2:
        return z, *(np.array(v) for v in values)
    r = rnd(n)
    new = np.union1d(z, np.round(r.uniform(z[0], z[-1], size=n), 6))
    old = np.isin(new, z)
    out = []
    for v in values:
        v = np.array(v)
        y = np.stack([np.interp(new, z, u) for u in v.reshape(-1, z.size)])
        y = np.where(old, y, y * r.choice([0, 1, 1, 1.5, 2], size=y.shape))
        out.append(y.reshape(*v.shape[:-1], new.size))
    return new, *out


def sizes(most, large, least=1, one_in=8):
    """Small numbers, but now and then a large one, so that no number is special."""
    return st.sampled_from(range(one_in)).flatmap(lambda k: st.integers(most + 1, large) if k == one_in - 1 else st.integers(least, most))


def fl(lo, hi):
    """Finite floats in [lo, hi]; subnormals excluded."""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)


def tidy(lo, hi, digits=3):
    """Floats on a decimal lattice in [lo, hi]: readable, shrinkable, collision-prone."""
    s = 10**digits
    return st.integers(int(np.ceil(lo * s)), int(np.floor(hi * s))).map(lambda k: k / s)


def increasing(lo, hi, min_size, max_size, gap=1e-3):
    """Strictly increasing list of floats in [lo, hi] with a minimum gap."""

    def build(t):
        w = np.array(t[0]) + 1e-9
        k = len(w)
        span = hi - lo
        free = span - gap * (k + 1)
        pos = lo + np.cumsum(w / (w.sum() + t[1]) * free + gap)
        return [float(f"{p:.6f}") for p in pos]

    return st.tuples(st.lists(tidy(0.05, 1.0), min_size=min_size, max_size=max_size), tidy(0.0, 1.0)).map(build)


def leading(max_dims=2, max_side=3, min_side=1):
    """Shapes for extra leading axes."""
    return st.lists(st.integers(min_side, max_side), max_size=max_dims)
