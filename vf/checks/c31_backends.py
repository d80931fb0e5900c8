"""C31: the same result in every array library and for every layout of memory."""

from hypothesis import strategies as st

from vf import api, hpdata
from vf.be import evenly, rnd, seeds
from vf.core import sub
from vf.rec import Scripted


def run(e, g, seed):
    with hpdata.datapath(weights=0.1):
        return api.flatten(e.fn(g, rnd(seed)))


def cases(group, jax_seeds):
    names = [n for n, e in api.ENTRIES.items() if e.group == group]

    @st.composite
    def strategy(draw):
        n = draw(evenly(names))
        lib = draw(st.sampled_from([v for v in ("strict", "strict", "jax", "jax", "layout") if v in api.ENTRIES[n].libs or v == "layout"]))
        return {
            "function": n,
            "lib": lib,
            "layout": draw(st.sampled_from(["strided", "reversed", "fortran", "offset"])) if lib == "layout" else None,
            "seed": draw(st.integers(0, jax_seeds)) if lib == "jax" else draw(seeds),
        }

    return strategy


def agrees(case):
    """The function gives the same values, shapes, kinds and nesting of results in NumPy and in the other library (or for arrays in another layout of memory) for the same data and the same random variates; arrays in the result belong to the caller's library; arguments stay as they are."""
    e = api.ENTRIES[case["function"]]
    ref = run(e, api.Given("np", case["seed"]), case["seed"])
    lib = "np" if case["lib"] == "layout" else case["lib"]
    g = api.Given(lib, case["seed"], layout=case["layout"])
    out = run(e, g, case["seed"])
    api.compare(ref, out, e, f"{e.name} for numpy and {case['layout'] or lib}")
    for which, res in (("np", ref), (lib, out)):
        for path, kind, name, _ in res:
            assert kind != "array" or name == api.NAMES[which], f"{e.name}: {path} for arguments of {api.NAMES[which]} belongs to {name}"
    g.unchanged()
    return any(k == "array" and x.size > 1 for _, k, _, x in out)


def _register(group, quick, jax_seeds):
    def fn(case):
        return agrees(case)

    fn.__name__, fn.__doc__ = group, agrees.__doc__
    sub("C31", strategy=cases(group, jax_seeds), rule="the result contains an array of more than one number", quick=quick)(fn)


for _group in sorted({e.group for e in api.ENTRIES.values()}):
    _k = sum(e.group == _group for e in api.ENTRIES.values())
    _register(_group, 36 * _k, 10**6)


@sub("C31", strategy=lambda: st.fixed_dictionaries({"order": st.permutations(["np", "strict", "jax"]), "function": st.sampled_from(["redshift_grid", "fixed_zbins", "query_strip", "spectra_indices", "vmap_galactic_ecliptic", "ellipticity_gaussian", "uniform_positions"]), "seed": st.integers(0, 50)}), rule="always", quick=40)
def chosen_library(case):
    """Functions without array arguments give arrays of the library asked for, whatever was used before, with the same values."""
    e = api.ENTRIES[case["function"]]
    ref = None
    for lib in case["order"]:
        g = api.Given(lib, case["seed"], rng=lambda: Scripted(case["seed"]))
        res = run(e, g, case["seed"])
        if ref is not None:
            api.compare(ref, res, e, f"{e.name} for {lib}")
        ref = res
        for path, kind, name, _ in res:
            assert kind != "array" or name == api.NAMES[lib], f"{e.name}: {path} for {lib} belongs to {name}"
    return True
