"""C45: computations that overlap in time do not affect one another."""

import copy
import os
import sys
import tempfile
import threading
import time

import fitsio
import numpy as np
from hypothesis import strategies as st

import glass
import glass.grf
from vf import api, hpdata
from vf.be import evenly, rnd, seeds
from vf.core import sub
from vf.cosmo import Cosmo
from vf.rec import Scripted

ROOT = os.path.dirname(os.path.abspath(glass.__file__)) + os.sep


class EXACT:
    rtol, atol = 1e-11, 1e-300


# ---------------------------------------------------------------- threads


class Switchboard:
    """Lets one thread run at a time, and hands over between lines of glass as a generated schedule says.

    A thread that waits for a lock held by another one would stop everything; the others take over when nothing moves.
    """

    PATIENCE = 0.5

    def __init__(self, n, plan):
        self.cv = threading.Condition()
        self.turn, self.moves, self.lines, self.switches = 0, 0, 0, 0
        self.alive = set(range(n))
        self.kind, self.r = plan["kind"], rnd(plan["seed"])
        self.when = sorted(plan["at"])
        self.fine = plan["fine"]

    def next_of(self, i):
        """The thread that runs after the next line of thread i."""
        others = sorted(self.alive - {i})
        if not others:
            return i
        if self.kind == "each":
            go = True
        elif self.kind == "often":
            go = self.r.random() < 0.3
        elif self.kind == "seldom":
            go = self.r.random() < 0.03
        else:  # at a few given lines
            go = bool(self.when) and self.lines >= self.when[0]
            if go:
                self.when.pop(0)
        return others[int(self.r.integers(len(others)))] if go else i

    def wait(self, i):
        while self.turn != i and self.turn in self.alive:
            seen = self.moves
            if not self.cv.wait(self.PATIENCE) and self.moves == seen:
                self.turn = i
        self.moves += 1

    def line(self, i):
        with self.cv:
            self.lines += 1
            self.moves += 1
            if self.turn == i:
                j = self.next_of(i)
                if j != i:
                    self.switches += 1
                    self.turn = j
                    self.cv.notify_all()
            self.wait(i)

    def done(self, i):
        with self.cv:
            self.alive.discard(i)
            if self.turn == i and self.alive:
                self.turn = min(self.alive)
            self.moves += 1
            self.cv.notify_all()

    def trace(self, i):
        def local(frame, event, arg):
            if event == ("opcode" if self.fine else "line"):
                self.line(i)
            return local

        def begin(frame, event, arg):
            if not frame.f_code.co_filename.startswith(ROOT):
                return None
            frame.f_trace_opcodes = self.fine
            return local

        return begin


def together(jobs, plan):
    """Results of jobs in threads under a schedule."""
    board = Switchboard(len(jobs), plan)
    out = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))

    def work(i):
        try:
            gate.wait(60)
            with board.cv:
                board.wait(i)
            sys.settrace(board.trace(i))
            try:
                out[i] = ("result", jobs[i]())
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa: BLE001
            out[i] = ("error", e)
        finally:
            board.done(i)

    threads = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(jobs))]
    for t in threads:
        t.start()
    end = time.monotonic() + 90
    for t in threads:
        while t.is_alive() and time.monotonic() < end:
            t.join(0.5)
        assert not t.is_alive(), "computations in several threads do not end"
    return out, board.switches


plans = st.fixed_dictionaries(
    {
        "kind": evenly(["few", "each", "often", "each", "seldom"]),
        "at": st.lists(st.integers(0, 60), min_size=1, max_size=4),
        "fine": st.sampled_from([False, False, False, True]),
        "seed": seeds,
    }
)


def cases(group):
    names = [n for n, e in api.ENTRIES.items() if e.group == group]

    @st.composite
    def strategy(draw):
        first = draw(evenly(names))
        k = draw(evenly([1, 2]))
        return {
            "calls": [first] + [draw(evenly([first] * 2 * len(names) + names)) for _ in range(k)],
            "lib": draw(evenly([v for v in ("np",) * 12 + ("strict",) * 3 + ("jax",) if v in api.ENTRIES[first].libs])),
            "shared": draw(evenly([False, False, True])),
            "plan": draw(plans),
            "seed": draw(seeds),
        }

    return strategy


def overlapping(case):
    """Calls that run at the same time in several threads, of one function or of different ones and with the same or other arguments, give what they give one after another; the interleaving follows a generated schedule."""
    lib = case["lib"]
    todo = [n for n in case["calls"] if lib in api.ENTRIES[n].libs]
    jobs, refs, all_given = [], [], []
    with hpdata.datapath(weights=0.1):
        firsts = {}
        for i, n in enumerate(todo):
            e = api.ENTRIES[n]
            seed = case["seed"] if case["shared"] else (case["seed"] + 17 * i) % 2**31
            if (n, seed) in firsts:
                g, ref = firsts[n, seed]
            else:
                g = api.Given(lib, seed)
                ref = api.flatten(e.fn(g, rnd(seed)))
                firsts[n, seed] = g, ref
            h = copy.copy(g)  # its own place in the list of arguments, which are the same
            h.again()
            all_given.append(g)
            refs.append((n, ref))
            jobs.append(lambda e=e, h=h, seed=seed: e.fn(h, rnd(seed)))
        out, switches = together(jobs, case["plan"])
    for (n, ref), (kind, x) in zip(refs, out):
        assert kind == "result", f"{n} in a thread raised {type(x).__name__}: {x}"
        api.compare(ref, api.flatten(x), EXACT, f"{n} in a thread, with {', '.join(todo)} at the same time")
    for g in all_given:
        g.unchanged()
    return switches > 0


def _register(group, quick):
    def fn(case):
        return overlapping(case)

    fn.__name__, fn.__doc__ = group, overlapping.__doc__
    sub("C45", strategy=cases(group), rule="the threads were switched during a call", quick=quick)(fn)


for _group in sorted({e.group for e in api.ENTRIES.values()}):
    _register(_group, {"fields": 7, "shells": 60, "algorithms": 50, "galaxies": 16, "grf": 16, "shapes": 16, "lensing": 14}.get(_group, 20) * sum(e.group == _group for e in api.ENTRIES.values()))


# ---------------------------------------------------------------- things done in steps


def keep(x):
    """A copy of a result, as buffers may be reused for the next one."""
    return api.flatten(x)


def _fields(g, r):
    n = int(r.integers(1, 5))
    t = [glass.grf.Normal() if r.integers(2) else glass.grf.Lognormal(float(r.uniform(0.5, 2))) for _ in range(n)]
    return glass.generate(t, api.spectra(g, r, n, int(r.choice([8, 8, 6]))), int(r.choice([4, 4, 2])), ncorr=api.pick(r, None, 1), rng=Scripted(int(r.integers(2**31))))


def _gaussian(g, r):
    return glass.generate_gaussian(api.spectra(g, r, 3, 8), 4, rng=Scripted(int(r.integers(2**31))))


def _lognormal(g, r):
    return glass.generate_lognormal(api.spectra(g, r, 3, 8), 4, float(r.uniform(0.5, 2)), rng=Scripted(int(r.integers(2**31))))


def _iternorm(g, r):
    n, k = int(r.integers(2, 6)), int(r.integers(1, 3))
    m = r.normal(size=(k, n, n))
    c = m @ m.transpose(0, 2, 1)
    return glass.iternorm(g(np.stack([c[:, i, i - j] if i >= j else np.zeros(k) for j in range(n)], axis=-1)) for i in range(n))


def _cls2cov(g, r):
    n, nl = int(r.integers(2, 5)), int(r.choice([5, 5, 7]))
    return glass.cls2cov([g(np.abs(r.normal(size=nl))) for _ in range(n * (n + 1) // 2)], nl, n, int(r.integers(0, n)))


def _positions(g, r):
    pops = int(r.integers(1, 4))
    d = g(r.uniform(-0.9, 1, size=(pops, 48)))
    return glass.positions_from_delta(g(r.uniform(1e-4, 1e-3, size=pops)), d, api.pick(r, None, 0.8), g(r.uniform(0, 1, size=48)), rng=Scripted(int(r.integers(2**31))))


def _uniform(g, r):
    return glass.uniform_positions(g(r.uniform(1e-4, 1e-3, size=int(r.integers(1, 4)))), rng=Scripted(int(r.integers(2**31))))


def _multiplane(g, r):
    m = glass.MultiPlaneConvergence(Cosmo(p=1.5, xp=g.xp))
    k, nside = int(r.integers(2, 7)), int(r.choice([1, 1, 2]))
    zs = np.cumsum(r.uniform(0.1, 0.4, size=k))
    for z in zs:
        m.add_plane(g(r.normal(size=12 * nside**2)), float(z), float(r.uniform(0.2, 0.5)))
        yield [m.kappa, m.delta, m.zsrc, m.wlens]


def _multiplane_windows(g, r):
    m = glass.MultiPlaneConvergence(Cosmo(p=1.5, xp=g.xp))
    for w in api.windows(g, r, int(r.integers(2, 6))):
        m.add_window(g(r.normal(size=12)), w)
        yield [m.kappa, m.delta, m.zsrc, m.wlens]


def _catalog(g, r):
    """A catalogue written in pieces: read back after it is closed."""
    with tempfile.TemporaryDirectory(prefix="vf-c45-") as d:
        f, ext = os.path.join(d, "cat.fits"), api.pick(r, None, "CAT")
        with glass.write_catalog(f, ext=ext) as out:
            for k in r.integers(1, 5, size=int(r.integers(1, 5))):
                out.write(RA=r.normal(size=k), DEC=r.normal(size=k))
                yield int(k)
        with fitsio.FITS(f) as fits:
            assert len(fits) == 2, f"the catalogue has {len(fits)} parts"
            x = fits[1].read()
        yield [np.array(x["RA"], dtype=float), np.array(x["DEC"], dtype=float)]


MADE = {
    "fields": (_fields, ("np", "np", "np", "strict")),
    "gaussian": (_gaussian, ("np", "np", "np", "strict")),
    "lognormal": (_lognormal, ("np", "np", "np", "strict")),
    "iternorm": (_iternorm, ("np", "np", "np", "strict")),
    "cls2cov": (_cls2cov, ("np", "np", "np", "strict", "jax")),
    "positions": (_positions, ("np", "np", "np", "strict")),
    "uniform": (_uniform, ("np",)),
    "multiplane": (_multiplane, ("np", "np", "np", "strict", "jax")),
    "multiplane windows": (_multiplane_windows, ("np", "np", "np", "strict")),
    "catalogue": (_catalog, ("np",)),
}


@st.composite
def step_cases(draw):
    first = draw(evenly(sorted(MADE)))
    k = draw(st.integers(1, 3))
    return {
        "things": [first] + [draw(st.sampled_from([first, first, *sorted(MADE)])) for _ in range(k)],
        "lib": draw(st.sampled_from(MADE[first][1])),
        "order": draw(st.sampled_from(["random", "turns", "nested", "random", "alone"])),
        "at": draw(st.integers(1, 4)),
        "left": draw(st.lists(st.integers(0, 6), max_size=2)) if draw(st.booleans()) else [],
        "seed": draw(seeds),
    }


def started(case, i):
    make, libs = MADE[case["things"][i]]
    seed = (case["seed"] + 31 * i) % 2**31
    return iter(make(api.Given(case["lib"] if case["lib"] in libs else "np", seed), rnd(seed)))


@sub("C45", strategy=step_cases, rule="two of them were under way at the same time", quick=500)
def steps(case):
    """Fields, catalogues, lens planes and other things computed in steps, some of them under way at the same time: each yields what it yields alone, whatever the order of the steps, and whether or not some are left unfinished."""
    k = len(case["things"])
    alone = [[keep(x) for x in started(case, i)] for i in range(k)]
    left = {i: n for i, n in enumerate(case["left"])}  # the first ones stop after some steps
    its, at, got = {}, [0] * k, [[] for _ in range(k)]
    overlap = False
    ends = [i for i in range(k) for _ in range(len(alone[i]) + 1)]
    if case["order"] == "turns":
        ends = [i for n in range(max(map(len, alone)) + 1) for i in range(k)]
    elif case["order"] == "nested":  # the first is interrupted by all of the others
        ends = ends[: case["at"]] + ends[len(alone[0]) + 1 :] + ends[case["at"] : len(alone[0]) + 1]
    elif case["order"] == "random":
        ends = [ends[i] for i in rnd(case["seed"] + 1).permutation(len(ends))]
    todo = [*ends, *(i for i in range(k) for _ in range(len(alone[i]) + 1))]
    finished = set()
    for i in todo:
        if i in finished:
            continue
        if i not in its:
            its[i] = started(case, i)
        elif len(its) - len(finished) > 1:
            overlap = True
        if i in left and at[i] >= left[i]:
            getattr(its[i], "close", lambda: None)()
            finished.add(i)
            continue
        try:
            x = keep(next(its[i]))
        except StopIteration:
            assert at[i] == len(alone[i]), f"{case['things'][i]} ended after {at[i]} steps, and alone after {len(alone[i])}"
            finished.add(i)
            continue
        assert at[i] < len(alone[i]), f"{case['things'][i]} had more steps than alone"
        api.compare(alone[i][at[i]], x, EXACT, f"step {at[i]} of {case['things'][i]}, with {', '.join(case['things'])} under way")
        at[i] += 1
    return overlap
