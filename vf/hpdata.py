"""Synthetic HEALPix data files (the real ones cannot be downloaded here)."""

from __future__ import annotations

import atexit
import contextlib
import os
import shutil
import tempfile

import fitsio
import numpy as np

_dirs: dict = {}
NSIDES = (1, 2, 4, 8, 16, 32, 64)


def window(nside: int):
    """Temperature and polarisation windows of the synthetic files."""
    ell = np.arange(4 * nside + 1)
    pt = np.exp(-ell * (ell + 1) / (20.0 * nside**2)) * (1 - 0.01 * np.cos(ell))
    pp = np.exp(-ell * (ell + 1) / (15.0 * nside**2)) * (1 + 0.02 * np.sin(ell))
    return pt, pp


def directory(weights: float = 0.0) -> str:
    """Directory with pixel windows and full pixel weights; the given amplitude sets how far these are from uniform."""
    d = _dirs.get(weights)
    if d is None or not os.path.isdir(d):
        d = _dirs[weights] = tempfile.mkdtemp(prefix="vf-hp-")
        atexit.register(shutil.rmtree, d, ignore_errors=True)
        os.mkdir(os.path.join(d, "pixel_window_functions"))
        os.mkdir(os.path.join(d, "full_weights"))
        for nside in NSIDES:
            pt, pp = window(nside)
            with fitsio.FITS(os.path.join(d, "pixel_window_functions", f"pixel_window_n{nside:04d}.fits"), "rw", clobber=True) as f:
                f.write({"TEMPERATURE": pt, "POLARIZATION": pp})
            n = ((3 * nside + 1) * (nside + 1)) // 4
            with fitsio.FITS(os.path.join(d, "full_weights", f"healpix_full_weights_nside_{nside:04d}.fits"), "rw", clobber=True) as f:
                f.write([weights * np.cos(1.0 + 3.0 * np.arange(n))], names=["COMPRESSED PIXEL WEIGHTS"], header={"NSIDE": nside, "MAX_LPOL": 3 * nside})
    return d


@contextlib.contextmanager
def datapath(weights: float = 0.0):
    """Point glass to the synthetic data files."""
    old = os.environ.get("HEALPY_DATAPATH")
    os.environ["HEALPY_DATAPATH"] = d = directory(weights)
    try:
        yield d
    finally:
        if old is None:
            del os.environ["HEALPY_DATAPATH"]
        else:
            os.environ["HEALPY_DATAPATH"] = old
