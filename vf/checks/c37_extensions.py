"""C37: extension packages are found."""

import importlib
import importlib.util
import os
import sys
import tempfile

from hypothesis import strategies as st

import glass
from vf.core import sub

NAMES = ["alpha", "beta", "gamma"]


@st.composite
def layouts(draw):
    dirs = []
    for _ in range(draw(st.integers(1, 5))):
        dirs.append({
            "glass": draw(st.sampled_from(["dir", "dir", "dir", "init", "file", "none", "missing"])),
            "ext": draw(st.sampled_from(["dir", "dir", "dir", "init", "file", "none"])),
            "modules": draw(st.lists(st.sampled_from(NAMES), max_size=3, unique=True)),
            "package": draw(st.booleans()),
        })
    return {
        "dirs": dirs,
        "order": draw(st.permutations(range(len(dirs)))),
        "front": draw(st.integers(0, len(dirs))),
        "twice": draw(st.booleans()),
        "ask": draw(st.permutations(NAMES)),
    }


def build(root, k, d):
    top = os.path.join(root, f"d{k}")
    if d["glass"] == "missing":
        return top
    os.makedirs(top)
    g = os.path.join(top, "glass")
    if d["glass"] == "file":
        with open(g, "w") as f:
            f.write("not a package")
    if d["glass"] not in ("dir", "init"):
        return top
    os.makedirs(g)
    if d["glass"] == "init":
        with open(os.path.join(g, "__init__.py"), "w") as f:
            f.write("raise RuntimeError('the package of an extension must not be imported')\n")
    e = os.path.join(g, "ext")
    if d["ext"] == "file":
        with open(e, "w") as f:
            f.write("not a package")
    if d["ext"] not in ("dir", "init"):
        return top
    os.makedirs(e)
    if d["ext"] == "init":
        with open(os.path.join(e, "__init__.py"), "w") as f:
            f.write("__path__ = __import__('pkgutil').extend_path(__path__, __name__)\n")
    for m in d["modules"]:
        src = f"where = {k}\nname = __name__\n"
        if d["package"]:
            os.makedirs(os.path.join(e, "vf_" + m))
            with open(os.path.join(e, "vf_" + m, "__init__.py"), "w") as f:
                f.write(src + "from .inner import inner\nimport glass\nglass_file = glass.__file__\n")
            with open(os.path.join(e, "vf_" + m, "inner.py"), "w") as f:
                f.write(f"inner = {k}\n")
        else:
            with open(os.path.join(e, "vf_" + m + ".py"), "w") as f:
                f.write(src)
    return top


def forget():
    for m in [m for m in sys.modules if m == "glass.ext" or m.startswith("glass.ext.")]:
        del sys.modules[m]
    if hasattr(glass, "ext"):
        del glass.ext


@sub("C37", strategy=layouts, rule="at least two directories with extensions, or one that is shadowed", quick=150)
def found(case):
    """Extensions installed in any directories of the module search path, with or without package files, next to directories that are missing or something else, can be imported from glass.ext; the first on the path counts, and glass itself stays the same."""
    before, file = list(sys.path), glass.__file__
    own = os.path.dirname(os.path.dirname(os.path.abspath(file)))
    with tempfile.TemporaryDirectory() as root:
        tops = [build(root, k, d) for k, d in enumerate(case["dirs"])]
        order = list(case["order"])
        head, tail = order[: case["front"]], order[case["front"] :]
        if case["twice"]:
            tail = tail + order[:1]
        rest = [p for p in before if os.path.abspath(p) != own]
        sys.path[:] = [*(tops[k] for k in head), own, *rest, *(tops[k] for k in tail)]
        importlib.invalidate_caches()
        dont, sys.dont_write_bytecode = sys.dont_write_bytecode, True
        forget()
        try:
            spec = importlib.util.spec_from_file_location("glass.ext", os.path.join(os.path.dirname(file), "ext", "__init__.py"), submodule_search_locations=[os.path.join(os.path.dirname(file), "ext")])
            mod = importlib.util.module_from_spec(spec)
            sys.modules["glass.ext"] = glass.ext = mod
            spec.loader.exec_module(mod)
            good = [k for k in (*head, *tail) if case["dirs"][k]["glass"] in ("dir", "init") and case["dirs"][k]["ext"] in ("dir", "init")]
            paths = [os.path.join(tops[k], "glass", "ext") for k in good]
            got = [p for p in mod.__path__ if p.startswith(root)]
            assert list(dict.fromkeys(got)) == list(dict.fromkeys(paths)), f"extension directories {got}, expected {paths}"
            for m in case["ask"]:
                want = next((k for k in good if m in case["dirs"][k]["modules"]), None)
                try:
                    x = importlib.import_module("glass.ext.vf_" + m)
                except ModuleNotFoundError:
                    assert want is None, f"extension {m} of directory {want} was not found on {mod.__path__}"
                    continue
                assert want is not None, f"extension {m} found in {x.__file__}"
                assert x.where == want, f"extension {m} of directory {x.where} found, the first on the path is {want}"
                assert x.name == "glass.ext.vf_" + m, f"extension is called {x.name}"
                if case["dirs"][want]["package"]:
                    assert x.inner == want, f"part of extension {m} comes from directory {x.inner}"
                    assert x.glass_file == file, f"the extension sees glass at {x.glass_file}"
            assert sys.modules["glass"] is glass, "glass was replaced"
        finally:
            sys.path[:] = before
            forget()
            sys.dont_write_bytecode = dont
            for p in [p for p in sys.path_importer_cache if p.startswith(root)]:
                del sys.path_importer_cache[p]
            importlib.invalidate_caches()
    return len(good) > 1
