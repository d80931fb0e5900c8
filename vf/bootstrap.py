"""Make hypothesis importable next to glass's own interpreter and packages.

The project's interpreter (/opt/venv) has no hypothesis; the tooling environment
(/opt/veriftools/pyvenv, same CPython minor version) has.  Only the packages
named below are taken from there, so that numpy, scipy etc. always come from the
project's environment.  If the tooling environment is missing, the wheels in
/opt/veriftools/wheels are unpacked into a temporary directory.
"""

from __future__ import annotations

import atexit
import glob
import importlib.machinery
import importlib.util
import os
import shutil
import sys
import tempfile
import zipfile

ALLOWED = ("hypothesis", "_hypothesis_pytestplugin", "_hypothesis_globals", "_hypothesis_ftz_detector", "sortedcontainers")
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"


class _Restricted:
    """Finder exposing only ALLOWED top-level packages of one directory."""

    def __init__(self, path: str) -> None:
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if path is None and name in ALLOWED:
            return importlib.machinery.PathFinder.find_spec(name, [self.path])
        return None


def setup() -> None:
    repo = os.environ.get("VERIF_REPO", "/repo")
    if sys.path[:1] != [repo]:
        sys.path.insert(0, repo)
    if importlib.util.find_spec("hypothesis") is None:
        site = SITE
        if not os.path.isdir(os.path.join(site, "hypothesis")):
            site = tempfile.mkdtemp(prefix="vf-hyp-")
            atexit.register(shutil.rmtree, site, ignore_errors=True)
            for pat in ("hypothesis-*.whl", "sortedcontainers-*.whl"):
                for whl in glob.glob(os.path.join(WHEELS, pat)):
                    with zipfile.ZipFile(whl) as f:
                        f.extractall(site)
        sys.meta_path.append(_Restricted(site))
    if "HYPOTHESIS_STORAGE_DIRECTORY" not in os.environ:
        d = tempfile.mkdtemp(prefix="vf-hyp-db-")
        os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = d
        atexit.register(shutil.rmtree, d, ignore_errors=True)


def import_glass():
    """Import the package under test and make sure it is the working tree's."""
    import glass

    repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
    f = os.path.realpath(glass.__file__)
    if not f.startswith(repo + os.sep):
        raise RuntimeError(f"glass imported from {f}, expected {repo}")
    import array_api_strict
    import jax

    jax.config.update("jax_enable_x64", True)
    array_api_strict.set_array_api_strict_flags(api_version="2025.12")
    return glass
