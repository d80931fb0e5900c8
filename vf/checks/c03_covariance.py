"""C03: sampled Gaussian fields realise the requested covariance."""

import healpy
import numpy as np
from hypothesis import strategies as st

import glass
import glass.grf
from vf.be import A, F, N, XPS, backend, check_ns, close, equal, raises, rnd, seeds, sizes
from vf.checks.c01_ordering import pairs
from vf.core import sub
from vf.rec import Impulse


def factors(r, shape, n, k, style):
    """Random lower-triangular factors with bandwidth k: (*shape, n, n)."""
    low = np.tril(np.ones((n, n))) * (np.arange(n)[:, None] - np.arange(n) <= k)
    if style == "integer":  # exact arithmetic, includes degenerate (fully correlated, zero) fields
        m = r.integers(-2, 3, size=(*shape, n, n)).astype(float)
        d = r.choice([0.0, 1.0, 2.0, 4.0], p=[0.3, 0.3, 0.2, 0.2], size=(*shape, n))
        m = m * low
        m[..., np.arange(n), np.arange(n)] = d
        return m * (d[..., None, :] > 0)  # nothing can correlate with a zero variate
    m = r.normal(size=(*shape, n, n)) * low
    m[..., np.arange(n), np.arange(n)] = r.uniform(0.3, 2.0, size=(*shape, n))
    if style == "scaled":
        m = m * np.exp(r.uniform(-12, 3, size=(*shape, 1, 1)))
    if style == "units":  # every field in its own units, from very faint to very strong
        m = m * 10 ** r.uniform(-25, 10, size=(*shape, n, 1))
    return m


def rows(cov, ks):
    """Covariance rows as the iterative sampler wants them: with itself, then with previous fields, most recent first."""
    out = []
    for i, k in enumerate(ks):
        row = np.zeros((*cov.shape[:-2], k + 1))
        for t in range(min(i, k) + 1):
            row[..., t] = cov[..., i, i - t]
        out.append(row)
    return out


def assemble(ws, n, shape):
    """Lower-triangular factor defined by the scaling vectors."""
    m = np.zeros((*shape, n, n))
    for i, w in enumerate(ws):
        k = w.shape[-1]
        for t in range(k):
            j = i - (k - 1) + t
            if j >= 0:
                m[..., i, j] = w[..., t]
            else:
                assert np.all(w[..., t] == 0), f"field {i} uses a variate before the first field"
    return m


@st.composite
def iter_cases(draw):
    n = draw(sizes(7, 24))
    return {
        "n": n,
        "k": draw(st.integers(0, n + 1)),
        "shape": draw(st.sampled_from([[], [1], [3], [2, 3], [0], [2, 1, 2]])),
        "grow": draw(st.booleans()),
        "style": draw(st.sampled_from(["integer", "float", "scaled", "units"])),
        "xp": draw(backend(12, 5, 1)),
        "seed": draw(seeds),
    }


@sub("C03", strategy=iter_cases, rule="at least three fields and a correlation limit of at least one", quick=300, shards=2)
def iterated_normal(case):
    """Scaling vectors assemble to a factor whose square is the target covariance, for every stack entry."""
    n, shape, xp = case["n"], tuple(case["shape"]), XPS[case["xp"]]
    r = rnd(case["seed"])
    kk = case["k"]
    low = factors(r, shape, n, kk, case["style"])
    cov = low @ np.swapaxes(low, -1, -2)
    ks = [min(i, kk) for i in range(n)] if case["grow"] else [kk] * n
    rr = rows(cov, ks)
    arrs = [F(xp, x) for x in rr]
    ws = []
    for a, x, k in zip(glass.iternorm(iter(arrs)), rr, ks, strict=True):
        check_ns(a, xp)
        assert tuple(a.shape) == (*shape, k + 1), a.shape
        ws.append(N(a))
    for a, x in zip(arrs, rr):
        equal(N(a), x, "input covariance after the call")
    got = assemble(ws, n, shape)
    scale = np.sqrt(np.einsum("...ii->...i", cov)) if cov.size else np.zeros((*shape, n))
    tol = 1e-9 * scale[..., :, None] * scale[..., None, :]
    err = np.abs(got @ np.swapaxes(got, -1, -2) - cov)
    assert np.all(err <= tol + 1e-300), f"realised covariance is off by up to {np.max(err - tol):.3g}"
    assert all(np.all(w[..., -1] >= 0) for w in ws), "negative standard deviation"
    return n >= 3 and kk >= 1


@sub(
    "C03",
    strategy=lambda: st.fixed_dictionaries(
        {"n": st.integers(1, 6), "shape": st.sampled_from([[], [4], [2, 3]]), "at": st.integers(0, 5), "eps": st.sampled_from([1e-6, 1e-3, 0.3, 2.0]), "xp": backend(12, 5, 1), "seed": seeds}
    ),
    rule="at least two fields; the covariance is indefinite in exactly one stack entry",
    quick=150,
)
def rejects_indefinite(case):
    """A covariance with a negative conditional variance anywhere is an error, at the first field affected."""
    n, shape, xp = case["n"], tuple(case["shape"]), XPS[case["xp"]]
    at = case["at"] % n
    r = rnd(case["seed"])
    low = factors(r, shape, n, n, "float")
    cov = low @ np.swapaxes(low, -1, -2)
    one = tuple(int(r.integers(s)) for s in shape)
    # conditional variance of field `at` given the earlier ones becomes -eps (relative to its variance)
    cov[(*one, at, at)] -= low[(*one, at, at)] ** 2 + case["eps"] * max(1.0, float(cov[(*one, at, at)]))
    it = glass.iternorm([F(xp, x) for x in rows(cov, [n - 1] * n)])
    for _ in range(at):
        next(it)
    raises(ValueError, lambda: next(it), f"indefinite covariance of field {at}")
    # the same through spectra
    if shape == (4,):
        cls = [F(xp, cov[:, i, j]) for i, j in pairs(n)]
        fields = [glass.grf.Normal() for _ in range(n)]
        raises(ValueError, lambda: list(glass.generate(fields, cls, 2)), "generate with indefinite spectra")
    return n >= 2


@st.composite
def field_cases(draw):
    n = draw(sizes(4, 9, one_in=12))
    nside = draw(st.sampled_from([1, 2, 4]))
    return {
        "n": n,
        "nl": draw(st.integers(1, [9, 7, 6, 5, 4, 4, 3, 3, 3][n - 1])),
        "nside": nside,
        "ncorr": draw(st.one_of(st.none(), st.integers(0, n))),
        "shorter": draw(st.booleans()),
        "style": draw(st.sampled_from(["integer", "float", "units"])),
        "xp": draw(backend(8, 1, 0)),
        "seed": draw(seeds),
    }


@sub("C03", strategy=field_cases, rule="at least two correlated fields and two modes", quick=72, shards=8)
def field_covariance(case):
    """The maps are linear in the unit variates, with pixel covariance sum_l (2l+1)/4pi C_l^ij P_l(cos theta), found by impulses."""
    n, nl, nside, xp = case["n"], case["nl"], case["nside"], XPS[case["xp"]]
    kk = n - 1 if case["ncorr"] is None else case["ncorr"]
    r = rnd(case["seed"])
    low = factors(r, (nl,), n, kk, case["style"])
    # spectra of different length: zero modes from some mode on
    lens = {(i, j): nl for i, j in pairs(n)}
    if case["shorter"] and nl > 1:
        top = [int(r.integers(1, nl + 1)) for _ in range(n)]
        top[int(r.integers(n))] = nl
        for i in range(n):
            low[top[i]:, i, :] = 0
        # a field without power carries no correlation
        for i in range(n):
            low[top[i]:, :, i] = 0
        lens = {(i, j): min(top[i], top[j]) for i, j in pairs(n)}
    cov = 2 * low @ np.swapaxes(low, -1, -2)
    cls = []
    for i, j in pairs(n):
        d = cov[: lens[i, j], i, j]
        cls.append(F(xp, d if abs(i - j) <= kk else d + 7.7))  # beyond the limit: must be ignored
    fields = [glass.grf.Normal() for _ in range(n)]

    def sample(at):
        rng = Impulse(at)
        maps = [N(m) for m in glass.generate(fields, cls, nside, ncorr=case["ncorr"], rng=rng)]
        return np.array(maps), rng.drawn

    zero, total = sample(-1)
    assert zero.shape == (n, 12 * nside**2), zero.shape
    assert np.all(np.abs(zero) < 1e-12), "non-zero field from zero variates"
    npix = 12 * nside**2
    sel = np.arange(npix) if npix <= 48 else np.sort(r.choice(npix, 40, replace=False))
    vec = np.array(healpy.pix2vec(nside, sel)).T
    mu = np.clip(vec @ vec.T, -1, 1)
    leg = np.polynomial.legendre.legvander(mu, nl - 1) * (2 * np.arange(nl) + 1) / (4 * np.pi)
    got = np.zeros((n, n, sel.size, sel.size))
    for t in range(total):
        x = sample(t)[0][:, sel]
        got += x[:, None, :, None] * x[None, :, None, :]
    scale = np.sqrt(np.einsum("pql,lii->ipq", leg[:1, :1], cov).max(axis=(1, 2)))
    for i in range(n):
        for j in range(n):
            want = leg @ cov[:, i, j]
            err = np.abs(got[i, j] - want).max()
            assert err <= 1e-9 * max(scale[i] * scale[j], 1e-200), f"covariance of fields {i} and {j} off by {err:.3g} (scale {scale[i] * scale[j]:.3g})"
    return n >= 2 and kk >= 1 and nl >= 2


@sub(
    "C03",
    strategy=lambda: st.fixed_dictionaries(
        {"n": st.integers(1, 5), "nl": st.integers(1, 12), "nc": st.integers(0, 6), "pad": st.integers(0, 3), "xp": backend(12, 5, 1), "seed": seeds}
    ),
    rule="more fields than correlations, spectra shorter than the number of modes",
    quick=200,
)
def covariance_rows(case):
    """Rows supplied to the sampler hold the halved spectra with itself and the previous fields; negative power is refused."""
    n, nl, nc, xp = case["n"], case["nl"], case["nc"], XPS[case["xp"]]
    r = rnd(case["seed"])
    data = {(i, j): r.uniform(0.1, 1, size=max(0, nl - int(r.integers(0, case["pad"] + 1)))) for i, j in pairs(n)}
    cls = [F(xp, data[p]) for p in pairs(n)]
    got = [N(m) for m in glass.fields.cls2cov(cls, nl, n, nc)]  # copied at once: the buffer may be reused
    assert len(got) == n
    for i in range(n):
        want = np.zeros((nl, nc + 1))
        for t in range(min(i, nc) + 1):
            d = data[i, i - t]
            want[: d.size, t] = d / 2
        equal(got[i], want, f"row {i}")
    bad = int(r.integers(n))
    if data[bad, bad].size:
        neg = dict(data)
        neg[bad, bad] = data[bad, bad].copy()
        neg[bad, bad][int(r.integers(neg[bad, bad].size))] = -1e-3
        raises(ValueError, lambda: list(glass.fields.cls2cov([F(xp, neg[p]) for p in pairs(n)], nl, n, nc)), "negative auto-spectrum")
        raises(ValueError, lambda: list(glass.generate([glass.grf.Normal()] * n, [F(xp, neg[p]) for p in pairs(n)], 1)), "negative auto-spectrum")
    return n > nc + 1 and case["pad"] > 0


@sub(
    "C03",
    strategy=lambda: st.fixed_dictionaries({"n": st.integers(0, 4), "extra": st.integers(-2, 2), "empty": st.booleans(), "seed": seeds}),
    rule="number of spectra does not fit the fields, or all spectra are empty",
    quick=60,
)
def refuses_malformed(case):
    """Empty covariance, changing shapes, mismatched or entirely empty spectra are errors, not samples."""
    r = rnd(case["seed"])
    raises(ValueError, lambda: list(glass.iternorm([np.ones((2, 0))])), "empty covariance row")
    raises(ValueError, lambda: list(glass.iternorm([np.ones((2, 1)), np.ones((3, 2))])), "changing stack shape")
    n, m = case["n"], case["n"] * (case["n"] + 1) // 2 + case["extra"]
    if m < 0:
        return False
    cls = [np.full(4, 1.0 * (k in {0, 2, 5, 9})) for k in range(m)]
    fields = [glass.grf.Normal() for _ in range(n)]
    if case["extra"]:
        raises(ValueError, lambda: list(glass.generate(fields, cls, 1, rng=r)), "generate")
        raises(ValueError, lambda: glass.compute_gaussian_spectra(fields, cls), "compute_gaussian_spectra")
        raises(ValueError, lambda: glass.solve_gaussian_spectra(fields, cls), "solve_gaussian_spectra")
    elif n and case["empty"]:
        raises(ValueError, lambda: list(glass.generate(fields, [np.empty(0)] * m, 1, rng=r)), "all spectra empty")
    return bool(case["extra"]) or (case["empty"] and n > 0)
