"""Small HEALPix data files with known contents."""

from __future__ import annotations

import atexit
import os
import shutil
import tempfile

import numpy as np

PIX = "pixel_window_functions/pixel_window_n%04d.fits"
FULL = "full_weights/healpix_full_weights_nside_%04d.fits"


def scratch() -> str:
    return tempfile.mkdtemp(prefix="dst-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)


def windows(nside, v):
    """Pixel window functions, version v."""
    ell = np.arange(4 * nside + 1)
    s = (0.3 + 0.2 * v) / nside**2
    t = np.exp(-ell * (ell + 1) * s / 20)
    p = np.exp(-ell * (ell + 1) * s / 15) * (1 - 0.02 * v * (ell > 2))
    p[:2] = 0.0
    return t, p


def weights(nside, v):
    """Pixel weights, version v."""
    n = ((3 * nside + 1) * (nside + 1)) // 4
    return 0.05 * np.cos(np.arange(n) * (1.0 + v)) + 0.01 * v


def write(path, kind, nside, v) -> None:
    import fitsio

    if kind == "pix":
        fitsio.write(path, list(windows(nside, v)), names=["TEMPERATURE", "POLARIZATION"], clobber=True)
    else:
        fitsio.write(path, [weights(nside, v)], names=["COMPRESSED PIXEL WEIGHTS"], header={"NSIDE": nside}, clobber=True)


def install(nsides=(1, 2, 4, 8)) -> str:
    """Data directory for as long as this process lives, and set it up."""
    root = scratch()
    pid = os.getpid()
    os.makedirs(os.path.join(root, os.path.dirname(PIX)))
    os.makedirs(os.path.join(root, os.path.dirname(FULL)))
    for ns in nsides:
        write(os.path.join(root, PIX % ns), "pix", ns, 0)
        write(os.path.join(root, FULL % ns), "full", ns, 0)

    def remove():
        if os.getpid() == pid:
            shutil.rmtree(root, ignore_errors=True)

    atexit.register(remove)
    os.environ["HEALPY_DATAPATH"] = root
    return root
