"""C14: iterated multi-plane convergence."""

import numpy as np
from hypothesis import strategies as st

import glass
from vf.be import F, N, XPS, backend, check_ns, close, raises, rnd, seeds, tidy
from vf.core import sub
from vf.cosmo import Cosmo


def cosmologies():
    return st.fixed_dictionaries({"p": st.sampled_from([0.5, 0.9, 1, 1.5]), "curv": st.sampled_from([0.0, 0.0, 0.4, -0.3]), "om": tidy(0.1, 1.0, 2), "dh": st.sampled_from([1.0, 4282.7])})


@st.composite
def steps(draw):
    return {
        "op": draw(st.sampled_from(["plane", "plane", "window", "reject"])),
        "dz": draw(tidy(0.01, 0.6)),
        "w": draw(st.one_of(st.none(), tidy(-1.0, 3.0, 2))),
        "back": draw(st.sampled_from([0.0, 0.0, 0.01, 0.5])),
        "za": draw(st.lists(tidy(0.01, 0.3), min_size=2, max_size=4)),
        "wa": draw(st.lists(tidy(0.1, 2.0), min_size=5, max_size=5)),
        "grid": draw(st.booleans()),
        "arr": draw(st.booleans()),
    }


@st.composite
def cases(draw):
    x = draw(backend(14, 5, 1))
    return {
        "xp": x,
        "cosmo": draw(cosmologies()),
        "shape": draw(st.sampled_from([[1], [5], [12], [2, 3], [2, 1, 4]])) if x != "jax" else [3],
        "steps": draw(st.lists(steps(), min_size=1, max_size=9)),
        "seed": draw(seeds),
    }


def direct(cosmo, planes, z):
    """Direct sum over all planes in front of z."""
    x = cosmo.xm(z)
    total = 0.0
    for zj, wj, dj in planes:
        if zj < z:
            total = total + 1.5 * cosmo.Omega_m0 * cosmo.xm(zj) * cosmo.xm(zj, z) / x * (1 + zj) / cosmo.e(zj) * wj * dj
    return total


def state(m):
    return m.zsrc, m.wlens, None if m.kappa is None else N(m.kappa), None if m.delta is None else N(m.delta)


@sub("C14", strategy=cases, rule="at least three accepted planes", quick=400, shards=3)
def history(case):
    """After each call of a random history the convergence is the direct sum over previous planes and the attributes are those of the latest accepted plane; rejected planes change nothing."""
    xp = XPS[case["xp"]]
    r = rnd(case["seed"])
    cosmo = Cosmo(xp=xp, **case["cosmo"])
    m = glass.MultiPlaneConvergence(cosmo)
    assert m.kappa is None and m.zsrc == 0 and m.wlens == 0 and m.delta is None
    shape = tuple(case["shape"])
    planes, z = [], 0.0
    for s in case["steps"]:
        d = r.normal(size=shape)
        dd = F(xp, d)
        if s["op"] == "reject":
            before = state(m)
            bad = z - s["back"] if planes or s["back"] else 0.0
            raises(ValueError, lambda: m.add_plane(dd, bad, 2.0), f"plane at {bad} after {z}")
            after = state(m)
            assert before[:2] == after[:2], f"state {before[:2]} became {after[:2]} by a refused plane"
            for name, a, b in zip(("kappa", "delta"), before[2:], after[2:]):
                assert (a is None and (b is None or name == "delta")) or np.array_equal(a, b), f"{name} changed by a refused plane"
            continue
        z = z + s["dz"]
        w = s["w"]
        if s["op"] == "window":
            off = np.cumsum(s["za"])
            mid = len(off) // 2
            za = z - off[mid] + off + 0.0
            if za[0] < 0:
                za = z * off / off[mid]
            if s["grid"]:
                # windows on one and the same grid of redshifts
                za = np.array([0.0, 0.2, 0.9, 2.0, 6.0])
            wa = np.array(s["wa"][: len(za)])
            w = float(np.trapezoid(wa, za) / np.interp(z, za, wa))
            m.add_window(dd, glass.RadialWindow(F(xp, za), F(xp, wa), z))
        else:
            zarg = xp.asarray(z, dtype=xp.float64) if s["arr"] else z
            if w is None:
                m.add_plane(dd, zarg)
                w = 1.0
            else:
                m.add_plane(dd, zarg, w)
        planes.append((z, w, d))
        assert abs(float(m.zsrc) - z) < 1e-14, f"zsrc {m.zsrc} after a plane at {z}"
        assert abs(m.wlens - w) <= 1e-12 * max(1, abs(w)), f"wlens {m.wlens}, not {w}"
        check_ns(m.kappa, xp, "kappa")
        close(N(m.delta), d, "last plane", rtol=0)
        want = np.broadcast_to(direct(cosmo, planes, z), shape)
        scale = 1e-10 * (1 + np.max(np.abs(want))) * (1 + sum(abs(p[1]) for p in planes))
        close(N(m.kappa), want, f"convergence at plane {len(planes)}", rtol=1e-9, atol=scale)
    return len(planes) >= 3
