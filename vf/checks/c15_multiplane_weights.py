"""C15: multi-plane matrix and weights."""

import numpy as np
from hypothesis import strategies as st

import glass
from vf.be import F, N, XPS, backend, check_ns, close, equal, increasing, leading, raises, rnd, seeds, sizes
from vf.checks.c14_multiplane import cosmologies, direct
from vf.core import sub
from vf.cosmo import Cosmo


@st.composite
def cases(draw):
    x = draw(backend(12, 5, 1))
    kind = draw(st.sampled_from(["tophat", "linear", "cubic"]))
    n = draw(sizes(6, 20))
    k = n + (1 if kind == "tophat" else 2)
    return {
        "xp": x,
        "cosmo": draw(cosmologies()),
        "kind": kind,
        "edges": draw(increasing(0.0, draw(st.sampled_from([0.5, 2.0])), k, k, gap=0.01)),
        "dims": draw(leading(3, 3)),
        "seed": draw(seeds),
    }


def setup(case):
    xp = XPS[case["xp"]]
    f = {"tophat": glass.tophat_windows, "linear": glass.linear_windows, "cubic": glass.cubic_windows}[case["kind"]]
    return xp, f(F(xp, case["edges"]), dz=0.02), Cosmo(xp=xp, **case["cosmo"])


def reference(shells, cosmo):
    """Row i: contributions of all shells to the convergence at shell i."""
    n = len(shells)
    planes = []
    for j, w in enumerate(shells):
        za, wa, ze = N(w.za), N(w.wa), float(w.zeff)
        d = np.zeros(n)
        d[j] = 1.0
        planes.append((ze, np.trapezoid(wa, za) / np.interp(ze, za, wa), d))
    return np.stack([np.broadcast_to(direct(cosmo, planes, p[0]), (n,)) for p in planes])


@sub("C15", strategy=cases, rule="at least three shells", quick=250, shards=3)
def matrix(case):
    """The matrix is the direct sum's coefficients, strictly lower triangular, and its product with random planes is the accumulated convergence."""
    xp, shells, cosmo = setup(case)
    mat = glass.multi_plane_matrix(shells, cosmo)
    check_ns(mat, xp)
    if len(shells) > 1:
        mixed = [shells[i] for i in rnd(case["seed"]).permutation(len(shells))]
        if [float(w.zeff) for w in mixed] != sorted(float(w.zeff) for w in shells):
            raises(ValueError, lambda: glass.multi_plane_matrix(mixed, cosmo), "shells out of order")
            raises(ValueError, lambda: glass.multi_plane_weights(F(xp, np.ones(len(shells))), mixed, cosmo), "weights for shells out of order")
    m = N(mat)
    want = reference(shells, cosmo)
    close(m, want, "matrix", rtol=1e-8, atol=1e-9 * (1 + np.abs(want).max()))
    assert np.all(m[np.triu_indices(len(shells))] == 0), "a source sees a plane at or behind itself"
    planes = rnd(case["seed"]).normal(size=(len(shells), 3))
    mpc = glass.MultiPlaneConvergence(cosmo)
    for i, w in enumerate(shells):
        mpc.add_window(F(xp, planes[i]), w)
        close(N(mpc.kappa), m[i] @ planes, f"convergence {i}", rtol=1e-8, atol=1e-8 * (1 + np.abs(m).max()))
    return len(shells) >= 3


@sub("C15", strategy=cases, rule="at least three shells and non-trivial leading shape", quick=250, shards=3)
def weights(case):
    """Weights of any shape: lensing weight j is the sum over sources of normalised weight times matrix entry; wrong sizes are refused."""
    xp, shells, cosmo = setup(case)
    r = rnd(case["seed"])
    n = len(shells)
    w = r.uniform(0.1, 3.0, size=(n, *case["dims"])) * (r.random((n, *case["dims"])) < 0.8)
    w[-1] += 0.2
    w = w * 10.0 ** r.uniform(-9, 9, size=case["dims"]) if r.integers(2) else w
    ww = F(xp, w)
    out = glass.multi_plane_weights(ww, shells, cosmo)
    check_ns(out, xp)
    equal(N(ww), w, "weights after the call")
    m = reference(shells, cosmo)
    norm = w / np.sum(w, axis=0, keepdims=True)
    want = np.zeros(w.shape)
    for i in range(n):
        for j in range(n):
            want[j] += m[i, j] * norm[i]
    close(N(out), want, "multi-plane weights", rtol=1e-8, atol=1e-9 * (1 + np.abs(want).max()))
    for k in {n + 1, n - 1} - {0}:
        raises(ValueError, lambda: glass.multi_plane_weights(F(xp, np.ones((k, *case["dims"]))), shells, cosmo), f"{k} weights for {n} shells")
    raises(ValueError, lambda: glass.multi_plane_weights(xp.asarray(1.0), shells, cosmo), "scalar weights")
    return n >= 3 and int(np.prod(case["dims"])) > 1


@st.composite
def sequences(draw):
    return {**draw(cases()), "xp": draw(backend(3, 1)), "dims": [], "steps": draw(st.lists(st.sampled_from(["taller", "wider", "fewer", "matter", "same"]), min_size=1, max_size=4))}


@sub("C15", strategy=sequences, rule="at least three shells, and a second set of shells with the same effective redshifts", quick=150, shards=2)
def sequence(case):
    """One cosmology used with one set of shells after the other, among them such with the same effective redshifts: matrix and weights are those of the shells of the call."""
    xp, shells, cosmo = setup(case)
    r = rnd(case["seed"])
    special = False
    for step in ["same", *case["steps"]]:
        if step == "taller":
            shells = [glass.RadialWindow(w.za, F(xp, N(w.wa) * r.uniform(0.5, 2, size=w.wa.shape) + 0.1), w.zeff) for w in shells]
        elif step == "wider":
            ze = [float(w.zeff) for w in shells]
            shells = [glass.RadialWindow(F(xp, np.maximum(z + (N(w.za) - z) * r.uniform(0.5, 1.5), 0)), F(xp, N(w.wa) + 0.05), w.zeff) for w, z in zip(shells, ze)]
            shells = [w for w in shells if np.all(np.diff(N(w.za)) > 0)] or shells[:0]
        elif step == "fewer" and len(shells) > 1:
            k = int(r.integers(len(shells)))
            shells = shells[:k] + shells[k + 1 :]
        elif step == "matter":
            cosmo.Omega_m0 = float(r.uniform(0.1, 1.0))
        if not shells:
            return False
        special = special or step in ("taller", "wider", "matter")
        m = reference(shells, cosmo)
        tol = {"rtol": 1e-8, "atol": 1e-9 * (1 + np.abs(m).max())}
        if r.integers(2):
            close(N(glass.multi_plane_matrix(shells, cosmo)), m, "matrix", **tol)
        w = r.uniform(0.1, 3.0, size=len(shells))
        close(N(glass.multi_plane_weights(F(xp, w), shells, cosmo)), m.T @ (w / w.sum()), "multi-plane weights", **tol)
    return special and len(shells) >= 3
