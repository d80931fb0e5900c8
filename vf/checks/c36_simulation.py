"""C36: the parts of a simulation fit together."""

import os
import tempfile

import fitsio
import healpy
import numpy as np
from hypothesis import strategies as st
from scipy.special import eval_legendre

import glass
import glass.grf
from vf import hpdata
from vf.be import F, N, XPS, close, equal, rnd, seeds, tidy
from vf.checks.c01_ordering import pairs
from vf.checks.c05_gaussian_spectra import gaussian_targets, make, ref_corr
from vf.core import Skip, sub
from vf.cosmo import Cosmo
from vf.rec import Impulse

# ---------------------------------------------------------------- two-point functions


def to_corr(cl, mu):
    ell = np.arange(len(cl))
    return ((2 * ell + 1) / (4 * np.pi) * np.asarray(cl)) @ eval_legendre(ell[:, None], mu[None, :])


def to_cl(xi, mu, w, nl):
    return 2 * np.pi * eval_legendre(np.arange(nl)[:, None], mu[None, :]) @ (w * xi)


@st.composite
def two_point_cases(draw):
    n = draw(st.integers(1, 3))
    return {
        "t": draw(st.lists(st.one_of(st.just(["N"]), tidy(0.2, 3.0).map(lambda a: ["L", a]), tidy(0.2, 3.0).map(lambda a: ["L", a])), min_size=n, max_size=n)),
        "nl": draw(st.integers(2, 7)),
        "amp": draw(st.sampled_from([0.02, 0.2])),
        "scale": draw(st.sampled_from([1.0, 1e-3])),
        "xp": draw(st.sampled_from(["np", "np", "strict"])),
        "seed": draw(seeds),
    }


@sub("C36", strategy=two_point_cases, rule="at least two fields, one of them lognormal", quick=24, shards=4)
def two_point(case):
    """From the target spectra of any set of normal and lognormal fields through the solver and discretisation to the maps: the exact two-point functions of the generated fields, without the pixel window, are the target, for every pair of fields."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    ts, nl, nside = [list(t) for t in case["t"]], case["nl"], 4
    n = len(ts)
    for t in ts:
        if t[0] == "L":
            t[1] = t[1] * case["scale"] ** 0.5
    # targets which can be reached: transformed spectra of Gaussian ones
    mu, w = np.polynomial.legendre.leggauss(80)
    target = []
    for (i, j), gl in zip(pairs(n), gaussian_targets(r, ts, nl, case["amp"])):
        target.append(to_cl(ref_corr(ts[i], ts[j], to_corr(gl, mu)), mu, w, nl))
    fields = [make(t) for t in ts]
    gls = glass.solve_gaussian_spectra(fields, [F(xp, c) for c in target])
    with hpdata.datapath():
        cls = glass.discretized_cls(gls, nside=nside, lmax=nl - 1)
    pix = hpdata.window(nside)[0][:nl]
    assert [c.shape for c in cls] == [(nl,)] * len(target), f"discretised spectra of shapes {[c.shape for c in cls]}"
    # response of the Gaussian fields to every normal variate, through the transformation
    zero = Impulse(-1)
    base = [N(m) for m in glass.generate(fields, cls, nside, rng=zero)]
    assert len(base) == n, f"{len(base)} maps of {n} fields"
    total = zero.drawn
    cols = np.zeros((n, total, 12 * nside**2))
    for k in range(total):
        for i, m in enumerate(glass.generate(fields, cls, nside, rng=Impulse(k))):
            m = N(m)
            if ts[i][0] == "L":
                g0, g1 = np.log1p(base[i] / ts[i][1]), np.log1p(m / ts[i][1])
                cols[i, k] = g1 - g0
            else:
                cols[i, k] = m - base[i]
    vec = np.stack(healpy.pix2vec(nside, np.arange(12 * nside**2)), axis=-1)
    sel = r.choice(12 * nside**2, size=8, replace=False)
    cos = np.clip(vec[sel] @ vec.T, -1, 1).ravel()
    leg = (2 * np.arange(nl) + 1)[None, :] / (4 * np.pi) * eval_legendre(np.arange(nl)[None, :], cos[:, None])
    size = np.sqrt(np.array([np.max(np.abs(target[p])) for p, (i, j) in enumerate(pairs(n)) if i == j]))
    for p, (i, j) in enumerate(pairs(n)):
        cov = (cols[i][:, sel].T @ cols[j]).ravel()
        fit, *_ = np.linalg.lstsq(leg, cov, rcond=None)
        close(leg @ fit, cov, f"covariance of the fields ({i}, {j}) depends only on the angle", rtol=1e-6, atol=1e-7 * np.abs(cov).max() + 1e-18)
        got = to_cl(ref_corr(ts[i], ts[j], to_corr(fit / pix**2, mu)), mu, w, nl)
        close(got, target[p], f"spectrum of the generated fields ({i}, {j})", rtol=1e-4, atol=2e-5 * size[i] * size[j])
    for i, t in enumerate(ts):
        if t[0] == "L":
            g = np.mean(np.log1p(base[i] / t[1]))
            var = np.sum(cols[i] ** 2, axis=0)
            close(-0.5 * var, np.full(var.shape, g), f"mean of the lognormal field {i} is zero", rtol=1e-6, atol=1e-9)
    return n > 1 and any(t[0] == "L" for t in ts)


# ---------------------------------------------------------------- lensing spectra


@st.composite
def spectra_cases(draw):
    return {
        "n": draw(st.integers(2, 5)),
        "bins": draw(st.integers(1, 3)),
        "kind": draw(st.sampled_from(["tophat", "linear", "cubic"])),
        "method": draw(st.sampled_from(["nnls", "lstsq", "restrict"])),
        "p": draw(st.sampled_from([0.9, 1.5])),
        "curv": draw(st.sampled_from([0.0, 0.4])),
        "bias": draw(st.booleans()),
        "xp": draw(st.sampled_from(["np", "np", "strict", "jax"])) if draw(st.integers(0, 3)) == 0 else "np",
        "seed": draw(seeds),
    }


@sub("C36", strategy=spectra_cases, rule="at least three shells", quick=80, shards=2)
def observables(case):
    """The sample spectra of convergence, and of galaxy density, of tomographic bins made of maps are the effective spectra of the sample spectra of the matter shells with the corresponding weights."""
    xp, r = XPS[case["xp"]], rnd(case["seed"])
    n, nside, lmax = case["n"], 8, 12
    cosmo = Cosmo(p=case["p"], curv=case["curv"], om=0.3, xp=xp)
    make_ = {"tophat": glass.tophat_windows, "linear": glass.linear_windows, "cubic": glass.cubic_windows}[case["kind"]]
    edges = np.concatenate([[0.0], np.cumsum(r.uniform(0.1, 0.4, size=n + (case["kind"] != "tophat")))])
    ws = make_(F(xp, edges), dz=0.02)
    assert len(ws) == n, f"{len(ws)} windows"
    deltas = r.normal(size=(n, 12 * nside**2))
    # tomographic bins on the shells
    z = np.linspace(0.0, edges[-1], 60)
    nz = np.stack([np.exp(-0.5 * ((z - m) / 0.3) ** 2) for m in r.uniform(0.2, edges[-1], size=case["bins"])])
    ngal = glass.partition(F(xp, z), F(xp, nz), ws, method=case["method"])
    ngal = F(xp, np.abs(N(ngal)) + 1e-6)
    bias = float(r.uniform(0.5, 2)) if case["bias"] else None

    alms = [healpy.map2alm(d, lmax=lmax, iter=0) for d in deltas]
    sample = [F(xp, healpy.alm2cl(alms[i], alms[j], lmax=lmax)) for i, j in pairs(n)]

    # lensing: accumulate the maps
    conv = glass.MultiPlaneConvergence(cosmo)
    share = N(ngal) / N(ngal).sum(0)
    kappas = np.zeros((case["bins"], 12 * nside**2))
    for i, w in enumerate(ws):
        conv.add_window(F(xp, deltas[i]), w)
        kappas += share[i][:, None] * N(conv.kappa)
    dens = sum(share[i][:, None] * (bias or 1.0) * deltas[i] for i in range(n))
    lw = glass.multi_plane_weights(ngal, ws, cosmo)
    pw = glass.position_weights(ngal, bias)
    maps = [*kappas, *dens]
    mapalms = [healpy.map2alm(m, lmax=lmax, iter=0) for m in maps]
    k = case["bins"]
    for what, a, b, w1, w2 in (
        ("convergence", range(k), range(k), lw, None),
        ("density", range(k, 2 * k), range(k, 2 * k), pw, None),
        ("density and convergence", range(k, 2 * k), range(k), pw, lw),
    ):
        got = N(glass.effective_cls(sample, w1, w2))
        want = np.array([[healpy.alm2cl(mapalms[i], mapalms[j], lmax=lmax) for j in b] for i in a])
        close(got, want, f"effective spectra of {what}", rtol=1e-7, atol=1e-10 * np.abs(want).max() + 1e-20)
    return n > 2


# ---------------------------------------------------------------- a complete simulation


@st.composite
def runs(draw):
    return {
        "n": draw(st.integers(1, 4)),
        "kind": draw(st.sampled_from(["tophat", "linear"])),
        "fields": draw(st.sampled_from(["lognormal", "lognormal", "gaussian"])),
        "ncorr": draw(st.sampled_from([None, 0, 1, 2])),
        "bias": draw(st.sampled_from([None, 0.8, "array"])),
        "model": draw(st.sampled_from(["linear", "loglinear"])),
        "vis": draw(st.booleans()),
        "pops": draw(st.sampled_from([0, 0, 2])),
        "batch": draw(st.sampled_from([20, 100, 10**6])),
        "reduced": draw(st.booleans()),
        "xp": draw(st.sampled_from(["np", "np", "np", "np", "strict"])),
        "order": draw(st.booleans()),
        "seed": draw(seeds),
        "rng": draw(seeds),
    }


class Setup:
    def __init__(self, case):
        self.case, self.xp = case, XPS[case["xp"]]
        xp, r, n = self.xp, rnd(case["seed"]), case["n"]
        self.r, self.nside = r, 8
        self.cosmo = Cosmo(p=1.5, om=0.3, xp=xp)
        edges = np.concatenate([[0.0], np.cumsum(r.uniform(0.1, 0.4, size=n + (case["kind"] == "linear")))])
        self.ws = {"tophat": glass.tophat_windows, "linear": glass.linear_windows}[case["kind"]](F(xp, edges), dz=0.02)
        self.fields = glass.lognormal_fields(self.ws) if case["fields"] == "lognormal" else glass.gaussian_fields(self.ws)
        nl = 9
        base = 0.05 / (1.0 + np.arange(nl)) ** 2
        cls = [F(xp, base * 0.5 ** abs(i - j)) for i, j in pairs(n)]
        self.gls = glass.discretized_cls(glass.solve_gaussian_spectra(self.fields, cls), nside=self.nside, lmax=8, ncorr=case["ncorr"])
        pops = (case["pops"],) if case["pops"] else ()
        self.ngal = [F(xp, r.uniform(2e-7, 1e-6, size=pops)) if pops else float(r.uniform(2e-7, 1e-6)) for _ in range(n)]
        self.bias = F(xp, r.uniform(0.5, 1.5, size=pops or (1,))) if case["bias"] == "array" else case["bias"]
        self.vis = F(xp, r.uniform(0, 1, size=12 * self.nside**2)) if case["vis"] else None
        self.model = {"linear": glass.linear_bias, "loglinear": glass.loglinear_bias}[case["model"]]
        self.rngs = {k: rnd(case["rng"] + i) for i, k in enumerate(("matter", "pos", "z", "shape", "phz"))}

    def matter(self):
        return glass.generate(self.fields, self.gls, self.nside, ncorr=self.case["ncorr"], rng=self.rngs["matter"])

    def positions(self, i, delta):
        if self.case["fields"] == "gaussian" and self.case["model"] == "loglinear":
            delta = self.xp.clip(delta, min=-0.9)
        return glass.positions_from_delta(self.ngal[i], delta, self.bias, self.vis, bias_model=self.model, batch=self.case["batch"], rng=self.rngs["pos"])

    def galaxies(self, i, lon, lat, count, kap, gam1, gam2):
        """Catalogue columns of a batch of galaxies."""
        xp = self.xp
        k = count if isinstance(count, int) else int(np.sum(N(count)))
        assert k == lon.shape[0] == lat.shape[0], f"{k} galaxies counted, positions have shapes {lon.shape}, {lat.shape}"
        z = glass.redshifts(count, self.ws[i], rng=self.rngs["z"])
        assert z.shape == (k,), f"{k} galaxies, redshifts of shape {z.shape}"
        eps = glass.ellipticity_gaussian(count, 0.2, rng=self.rngs["shape"], xp=xp if isinstance(count, int) else None)
        she = glass.galaxy_shear(lon, lat, eps, kap, gam1, gam2, reduced_shear=self.case["reduced"])
        phz = glass.gaussian_phz(z, 0.03, lower=0.0, rng=self.rngs["phz"])
        cols = {"RA": lon, "DEC": lat, "Z": z, "PHZ": phz, "E1": xp.real(eps), "E2": xp.imag(eps), "G1": xp.real(she), "G2": xp.imag(she)}
        return {a: np.asarray(b, dtype=float) for a, b in cols.items()}

    def shear(self, kappa):
        return glass.from_convergence(kappa, lmax=8, shear=True)[0]


def as_run(case, filename):
    """Everything as it comes, nothing stored: the way simulations are meant to be run."""
    s = Setup(case)
    conv = glass.MultiPlaneConvergence(s.cosmo)
    seen = []
    with glass.write_catalog(filename) as out:
        for i, delta in enumerate(s.matter()):
            if case["order"]:
                # galaxies before lensing by the same shell: the shear is that of the shell itself either way
                batches = list(s.positions(i, delta))
                conv.add_window(delta, s.ws[i])
            else:
                conv.add_window(delta, s.ws[i])
                batches = s.positions(i, delta)
            gam = s.shear(conv.kappa)
            g1, g2 = s.xp.real(gam), s.xp.imag(gam)
            for lon, lat, count in batches:
                cols = s.galaxies(i, lon, lat, count, conv.kappa, g1, g2)
                seen.append((i, cols))
                out.write(**cols)
    return seen, s


def in_stages(case):
    """One stage after the other, with copies of everything."""
    s = Setup(case)
    xp = s.xp
    deltas = [N(d) for d in s.matter()]
    planes, kappas = [], []
    for d, w in zip(deltas, s.ws):
        za, wa, ze = N(w.za), N(w.wa), float(w.zeff)
        c, total, x = s.cosmo, np.zeros_like(d), s.cosmo.xm(ze)
        for zj, wj, dj in planes:
            total = total + 1.5 * c.Omega_m0 * c.xm(zj) * c.xm(zj, ze) / x * (1 + zj) / c.e(zj) * wj * dj
        planes.append((ze, np.trapezoid(wa, za) / np.interp(ze, za, wa), d))
        kappas.append(total)
    gams = [N(s.shear(F(xp, k))) for k in kappas]
    batches = [[(N(a), N(b), c if isinstance(c, int) else N(c)) for a, b, c in s.positions(i, F(xp, d))] for i, d in enumerate(deltas)]
    out = []
    for i in range(len(deltas)):
        for lon, lat, count in batches[i]:
            count = count if isinstance(count, int) else xp.asarray(count)
            out.append((i, s.galaxies(i, F(xp, lon), F(xp, lat), count, F(xp, kappas[i]), F(xp, gams[i].real), F(xp, gams[i].imag))))
    return out, deltas


@sub("C36", strategy=runs, rule="at least two shells and 50 galaxies", quick=120, shards=3)
def simulation(case):
    """A simulation which is run shell by shell and batch by batch gives the same catalogue, in memory and in the file, as one in which every stage is finished, and its results copied, before the next, and the convergence summed directly."""
    with tempfile.TemporaryDirectory() as d, hpdata.datapath():
        path = os.path.join(d, "cat.fits")
        seen, s = as_run(case, path)
        total = sum(len(c["RA"]) for _, c in seen)
        if not seen:
            raise Skip
        with fitsio.FITS(path) as f:
            table = f[1].read()
    with hpdata.datapath():
        ref, deltas = in_stages(case)
    assert [(i, len(c["RA"])) for i, c in seen] == [(i, len(c["RA"])) for i, c in ref], "numbers of galaxies in the batches"
    for b, ((i, got), (_, want)) in enumerate(zip(seen, ref)):
        for k in want:
            close(got[k], want[k], f"column {k} of batch {b}, shell {i}", rtol=1e-7, atol=1e-9)
    for k in ("RA", "DEC", "Z", "PHZ", "E1", "E2", "G1", "G2"):
        equal(table[k], np.concatenate([c[k] for _, c in seen]), f"column {k} of the file")
    for i, c in seen:
        w = s.ws[i]
        assert np.all((c["Z"] >= float(N(w.za)[0])) & (c["Z"] <= float(N(w.za)[-1]))), f"redshift outside of shell {i}"
        assert np.all(c["PHZ"] >= 0), "photometric redshift below the limit"
        assert np.all(np.hypot(c["E1"], c["E2"]) < 1), "ellipticity above one"
        ipix = healpy.ang2pix(s.nside, c["RA"], c["DEC"], lonlat=True)
        if case["vis"]:
            assert np.all(N(s.vis)[ipix] > 0), "galaxy in an invisible pixel"
        if case["bias"] is None:
            assert np.all(deltas[i][ipix] > -1), "galaxy in an empty pixel"
    return case["n"] > 1 and total >= 50
