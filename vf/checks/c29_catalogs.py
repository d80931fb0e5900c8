"""C29: catalogues written in pieces."""

import os
import pathlib
import tempfile

import fitsio
import numpy as np
from hypothesis import strategies as st

import glass
from vf.be import rnd, seeds
from vf.core import sub

TYPES = ["f8", "f4", "i8", "i4", "i2", "u1", "u2", "u4", "u8", "i1", "c16", "c8", "?", "U", "S", "f8x2", ">f8", "f8x2x2"]


class Boom(Exception):
    pass


ENDS = {
    "raise": Boom,
    "interrupt": KeyboardInterrupt,
    "close": StopIteration,
    "exit": SystemExit,
    "os": OSError,
    "missing": FileNotFoundError,
    "eof": EOFError,
    "value": ValueError,
    "type": TypeError,
    "key": KeyError,
    "memory": MemoryError,
    "runtime": RuntimeError,
    "warning": UserWarning,
}


@st.composite
def catalogs(draw):
    n = draw(st.integers(1, 4))
    names = draw(st.lists(st.sampled_from(["RA", "DEC", "z", "E1", "e_2", "WHT", "a b", "X1"]), min_size=n, max_size=n, unique=True))
    return {
        "ext": draw(st.sampled_from([None, "CATALOG", "cat 1", "lower", "1", "2"])),
        "cols": [[k, draw(st.sampled_from(TYPES))] for k in names],
        "ops": draw(
            st.lists(
                st.fixed_dictionaries(
                    {
                        "rows": st.sampled_from([3, 0, 1, 2, 7, 50]),
                        "how": st.sampled_from(["columns", "columns", "shuffled", "struct", "both", "strided", "readonly", "unknown"]),
                    }
                ),
                max_size=6,
            )
        ),
        "end": draw(st.sampled_from(["normal", "normal", *ENDS])),
        "path": draw(st.sampled_from(["Path", "str"])),
        "before": draw(st.booleans()),
        "seed": draw(seeds),
    }


def column(r, t, k):
    if t in ("U", "S"):
        v = np.array(["".join(r.choice(list("abcXYZ019_"), size=5)) for _ in range(k)], dtype="U5")
        return v if t == "U" else v.astype("S5")
    base, *sub = t.split("x")
    s = (k, *map(int, sub))
    d = np.dtype(base)
    if d.kind == "b":
        return r.integers(0, 2, size=s).astype(bool)
    if d.kind in "iu":
        i = np.iinfo(d)
        return r.integers(i.min, i.max, size=s, dtype=d, endpoint=True)
    if d.kind == "c":
        return (r.normal(size=s) + 1j * r.normal(size=s)).astype(d)
    v = r.normal(size=s) * 10.0 ** r.integers(-20, 20, size=s)
    if v.size:
        v.flat[r.integers(v.size)] = r.choice([np.nan, np.inf, -0.0, 0.1])
    return v.astype(d)


def same(a, b, what):
    if b.dtype.kind in "US":
        a = [v.decode() if isinstance(v, bytes) else str(v) for v in a.tolist()]
        b = [v.decode() if isinstance(v, bytes) else str(v) for v in b.tolist()]
        assert a == b, f"{what}: {a[:5]} != {b[:5]}"
        return
    n = b.dtype.newbyteorder("=")
    assert a.dtype.newbyteorder("=") == n, f"{what}: type {a.dtype} != {b.dtype}"
    assert a.shape == b.shape, f"{what}: shape {a.shape} != {b.shape}"
    assert np.ascontiguousarray(a.astype(n)).tobytes() == np.ascontiguousarray(b.astype(n)).tobytes(), f"{what}: {a[:5]} != {b[:5]}"


def opened(path):
    out = []
    for k in os.listdir("/proc/self/fd"):
        try:
            out.append(os.readlink(f"/proc/self/fd/{k}"))
        except OSError:
            pass
    return out.count(os.path.realpath(path))


@sub("C29", strategy=catalogs, rule="at least two pieces with rows", quick=600, shards=2)
def history(case):
    """After any sequence of writes, failed writes and exceptions, the file is closed and its table is the concatenation of all pieces written, column by column."""
    r = rnd(case["seed"])
    cols = case["cols"]
    parts = {k: [] for k, _ in cols}
    writes = nontrivial = 0
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "cat.fits")
        if case["before"]:
            # replaced by the new catalogue
            with glass.write_catalog(path, ext="OLD") as out:
                out.write(OLD=np.arange(5.0))
        err = None
        try:
            with glass.write_catalog(pathlib.Path(path) if case["path"] == "Path" else path, ext=case["ext"]) as out:
                for op in case["ops"]:
                    k, how = op["rows"], op["how"]
                    piece = {n: column(r, t, k) for n, t in cols}
                    if how == "unknown":
                        if writes == 0:
                            continue
                        try:
                            out.write(**piece, NOSUCH=np.zeros(k))
                        except Exception:  # noqa: BLE001
                            continue
                        raise AssertionError("write of a column that is not in the catalogue was not refused")
                    ref = {n: v.copy() for n, v in piece.items()}
                    if how == "both":
                        more = {n: column(r, t, 2) for n, t in cols}
                        ref = {n: np.concatenate([v, more[n]]) for n, v in ref.items()}
                    if how in ("struct", "both"):
                        rec = np.zeros(k, dtype=[(n, v.dtype, v.shape[1:]) for n, v in piece.items()])
                        for n, v in piece.items():
                            rec[n] = v
                        copy = rec.copy()
                        out.write(rec, **(more if how == "both" else {}))
                        assert rec.dtype == copy.dtype and rec.tobytes() == copy.tobytes(), "data changed by the call"
                    else:
                        keys = list(piece)
                        if how == "shuffled" and writes:
                            keys = [keys[i] for i in r.permutation(len(keys))]
                        if how == "strided":
                            piece = {n: np.repeat(v, 2, axis=0)[::2] for n, v in piece.items()}
                        if how == "readonly":
                            for v in piece.values():
                                v.flags.writeable = False
                        out.write(**{n: piece[n] for n in keys})
                        for n in keys:
                            assert piece[n].dtype == ref[n].dtype and piece[n].tobytes() == ref[n].tobytes(), f"column {n} changed by the call"
                    for n, v in ref.items():
                        parts[n].append(v)
                    writes += 1
                    nontrivial += k > 0 or how == "both"
                if case["end"] in ENDS:
                    err = ENDS[case["end"]]()
                    raise err
        except (KeyboardInterrupt, SystemExit, Exception) as e:  # noqa: BLE001
            if err is None:
                raise
            assert e is err, f"another exception: {e!r}"
        else:
            assert err is None, "the exception was suppressed"
        assert opened(path) == 0, "the file is still open"
        with fitsio.FITS(path) as f:
            assert len(f) == 1 + (writes > 0), f"{len(f)} extensions after {writes} writes"
            if writes:
                h = f[case["ext"]] if case["ext"] not in (None, "1", "2") else f[1]
                assert h.get_extname() == (case["ext"] or ""), f"extension {h.get_extname()!r}"
                names = h.get_colnames()
                want = [n for n, _ in cols]
                assert names == want, f"columns {names}, written {want}"
                data = h.read()
                rows = sum(len(v) for v in parts[want[0]])
                assert h.get_nrows() == rows and data.shape == (rows,), f"{h.get_nrows()} rows, written {rows}"
                for n, t in cols:
                    b = np.concatenate(parts[n])
                    same(data[n], b, f"column {n} of type {t}")
    return nontrivial >= 2


@sub("C29", strategy=lambda: st.fixed_dictionaries({"sched": st.lists(st.tuples(st.integers(0, 2), st.integers(0, 4)), min_size=2, max_size=10), "exts": st.lists(st.sampled_from([None, "A", "B"]), min_size=3, max_size=3), "seed": seeds}), rule="at least two catalogues were written to in turns", quick=150)
def interleaved(case):
    """Catalogues written at the same time do not mix."""
    r = rnd(case["seed"])
    want = [[], [], []]
    with tempfile.TemporaryDirectory() as tmp:
        paths = [os.path.join(tmp, f"{i}.fits") for i in range(3)]
        with glass.write_catalog(paths[0], ext=case["exts"][0]) as a, glass.write_catalog(paths[1], ext=case["exts"][1]) as b, glass.write_catalog(paths[2], ext=case["exts"][2]) as c:
            for i, k in case["sched"]:
                v = r.normal(size=k)
                (a, b, c)[i].write(X=v, Y=np.arange(k))
                want[i].append(v)
        for p, w in zip(paths, want):
            with fitsio.FITS(p) as f:
                assert len(f) == 1 + bool(w), f"{len(f)} extensions"
                if w:
                    assert np.array_equal(f[1]["X"].read(), np.concatenate(w)), "column differs"
                    assert np.array_equal(f[1]["Y"].read(), np.concatenate([np.arange(len(v)) for v in w])), "column differs"
    return sum(bool(w) for w in want) > 1
