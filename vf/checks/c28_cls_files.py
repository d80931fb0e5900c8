"""C28: angular power spectra saved to and loaded from files."""

import os
import pathlib
import tempfile

import numpy as np
from hypothesis import strategies as st

import glass
from vf.be import A, N, XPS, backend, fl, rnd, same, seeds
from vf.core import sub

SPECIAL = [0.0, -0.0, float("inf"), float("-inf"), float("nan"), 5e-324, -1e-310, 1.7976931348623157e308, 1 / 3, 2.0**-1022]


@st.composite
def spectra(draw):
    n = draw(st.integers(1, 15))
    lens = draw(st.lists(st.sampled_from([3, 0, 1, 2, 5, 17, 200]), min_size=n, max_size=n))
    return {
        "xp": draw(backend(8, 4, 2)),
        "lens": lens,
        "special": draw(st.lists(st.integers(0, len(SPECIAL) - 1), max_size=4)),
        "values": draw(st.lists(fl(-1e300, 1e300), max_size=4)),
        "dtype": draw(st.sampled_from(["f8", "f8", "f8", "f4", "i8"])),
        "container": draw(st.sampled_from(["list", "tuple"])),
        "file": draw(st.integers(0, 2)),
        "path": draw(st.sampled_from(["Path", "str"])),
        "shared": draw(st.booleans()),
        "strided": draw(st.booleans()),
        "seed": draw(seeds),
    }


@st.composite
def histories(draw):
    # mostly saves, each of which may replace an earlier file
    return {"ops": draw(st.lists(spectra(), min_size=1, max_size=5))}


def make(op):
    r = rnd(op["seed"])
    cls = []
    for i, k in enumerate(op["lens"]):
        v = np.cumsum(r.normal(size=k)) * 10.0 ** r.integers(-12, 3)
        for j, s in enumerate([SPECIAL[t] for t in op["special"]] + op["values"]):
            if k and (i + j) % 3 == 0:
                v[r.integers(k)] = s
        if op["dtype"] == "i8":
            v = r.integers(-(2**62), 2**62, size=k)
        v = np.asarray(v, dtype=op["dtype"])
        if op["strided"] and op["xp"] == "np":
            w = np.zeros(2 * k, dtype=v.dtype)
            w[::2] = v
            v = w[::2]
        cls.append(v)
    if op["shared"] and len(cls) > 1:
        cls[-1] = cls[0]
    return cls


@sub("C28", strategy=histories, rule="at least two spectra of different lengths", quick=500, shards=2)
def roundtrip(case):
    """After any sequence of saves to the same or other files, each file loads as the spectra last saved to it: number, order, lengths, bytes; inputs remain unchanged."""
    model, nontrivial = {}, False
    with tempfile.TemporaryDirectory() as tmp:
        for op in case["ops"]:
            cls = make(op)
            ref = [c.tobytes() for c in cls]
            given = [c if op["xp"] == "np" else A(XPS[op["xp"]], c) for c in cls]
            path = os.path.join(tmp, f"cls-{op['file']}.npz")
            glass.save_cls(pathlib.Path(path) if op["path"] == "Path" else path, given if op["container"] == "list" else tuple(given))
            assert os.path.exists(path), f"no file {path}"
            assert [N(c).tobytes() for c in given] == ref, "spectra changed by the call"
            model[path] = cls
            nontrivial |= len(set(op["lens"])) > 1
            for p, want in model.items():
                for q in (p, pathlib.Path(p)):
                    out = glass.load_cls(q)
                    assert len(out) == len(want), f"{len(out)} spectra, saved {len(want)}"
                    for i, (a, b) in enumerate(zip(out, want)):
                        a = np.asarray(a)
                        assert a.shape == b.shape, f"spectrum {i} has shape {a.shape}, saved {b.shape}"
                        assert a.dtype == b.dtype, f"spectrum {i} has type {a.dtype}, saved {b.dtype}"
                        assert a.tobytes() == np.ascontiguousarray(b).tobytes(), f"spectrum {i} differs: {a[:5]}, saved {b[:5]}"
        left = sorted(os.listdir(tmp))
        assert left == sorted(os.path.basename(p) for p in model), f"unexpected files {left}"
    return nontrivial


@sub("C28", strategy=lambda: st.fixed_dictionaries({"n": st.integers(1, 5), "lmax": st.integers(0, 12), "ncorr": st.one_of(st.none(), st.integers(0, 4)), "xp": backend(6, 2, 0), "seed": seeds}), rule="spectra of different lengths", quick=200)
def discretised(case):
    """Spectra from the library itself, with those beyond the correlation limit emptied, survive saving and loading, and can be used in place of the originals."""
    xp, n, r = XPS[case["xp"]], case["n"], rnd(case["seed"])
    cls = [A(xp, r.uniform(size=case["lmax"] + 1)) for _ in range(n * (n + 1) // 2)]
    dis = glass.discretized_cls(cls, ncorr=case["ncorr"])
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "file.npz")
        glass.save_cls(path, dis)
        out = glass.load_cls(path)
    assert len(out) == len(dis), f"{len(out)} spectra, saved {len(dis)}"
    for a, b in zip(out, dis):
        assert np.asarray(a).tobytes() == N(b).tobytes() and np.asarray(a).shape == N(b).shape, "spectrum differs"
    w = r.uniform(size=(n, 2))
    a = N(glass.effective_cls([np.asarray(c) for c in out], w))
    b = N(glass.effective_cls([N(c) for c in dis], w))
    same(a, b, "effective spectra of loaded spectra")
    return len({N(c).size for c in dis}) > 1
