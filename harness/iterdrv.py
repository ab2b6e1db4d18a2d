"""Sets of spectra, distributed over processes, given to the real continuum
fitter and continuum models; every spectrum's state is projected after."""
import os
import sys

import numpy as np

import forest
import world
from core import num, nums

L1, L2 = 1050., 1180.


def cell(rng, tid, fate, dw=16., arms="BR", lo=2.2, hi=3.1, shape=None,
         noise=1., edges=None):
    """One quasar: identity, and pixels of its arms.  fate: good, negative
    (negative flux), sparse (a handful of good pixels), onearm, none (every
    pixel bad), dip (good but falling below zero at one end)."""
    z = round(float(rng.uniform(lo, hi)), 5)
    on = lambda w: 3600. + dw * np.ceil((w - 3600.) / dw)
    edges = edges or {"B": (3600., 4401.), "R": (on(4200.), 5001.),
                      "Z": (on(4800.), 5401.)}
    g = {a: np.arange(*edges[a], dw) for a in arms}
    amp = rng.uniform(1.5, 3.)
    tilt = rng.uniform(-.3, .3)
    data = {}
    for j, (a, w) in enumerate(g.items()):
        n = w.size
        x = (w / (1 + z) - 1115.) / 65.
        c = amp * (1 + tilt * x)
        if shape is not None:
            c = c * shape(w / (1 + z))
        if fate == "dip":
            c = amp * (1 - 1.6 * x)
        if fate == "negative":
            c = -np.abs(c)
        iv = 10**rng.uniform(0., 2.5, n)
        fl = c * (1 + .15 * rng.standard_normal(n)) \
            + noise * rng.standard_normal(n) / np.sqrt(iv)
        mk = (rng.uniform(size=n) < .05).astype('i4')
        if fate == "none" or (fate == "onearm" and j):
            mk[:] = 1
        if fate == "sparse":
            f = np.nonzero((w >= (1 + z) * L1) & (w < (1 + z) * L2))[0]
            mk[:] = 1
            mk[rng.permutation(f)[:4]] = 0
        data[a] = (fl, iv, mk)
    return dict(tid=tid, z=z, fate=fate, g=g, data=data,
                pix=int(rng.integers(0, 3000)),
                ra=round(float(rng.uniform(0, 360)), 4),
                dec=round(float(rng.uniform(-60, 60)), 4))


def spectrum(q, coadd=False, smooth=0.):
    """A Spectrum ready to be fitted, or None if nothing of it is left."""
    s = forest.make_spectrum(
        forest.catrow(q["z"], q["tid"], q["pix"], q["ra"], q["dec"]),
        q["g"], q["data"], {})
    s.set_forest_region(3600., 4800., L1, L2)
    if not s.forestwave:
        return None
    if coadd:
        s.coadd_arms_forest()
    s.set_smooth_forestivar(smooth)
    return s


def fitter_args(*argv):
    from qsonic.scripts.qsonic_fit import get_parser
    old = sys.argv
    a = get_parser().parse_args(
        ["-i", "x", "--catalog", "x", "--wave1", "3600", "--wave2", "4800",
         "--forest-w1", num(L1), "--forest-w2", num(L2), *argv])
    sys.argv = old
    return a


def proj(s):
    e = world.project(s)
    e.update(tid=str(s.targetid), z=num(s.z_qso),
             pix=str(s.catrow["HPXPIXEL"]), x=nums(s.cont_params["x"]),
             xcov=nums(np.asarray(s.cont_params["xcov"]).ravel()),
             dof=num(s.cont_params["dof"]))
    return e


def rows(out):
    return [{"tid": x["TARGETID"], "z": x["Z"], "pix": x["HPXPIXEL"],
             "arms": x["ARMS"].split(","), "snr": x["MEANSNR"],
             "rsnr": x["RSNR"], "rank": x["MPI_RANK"],
             "valid": x["CONT_valid"] in ("1", "True", "true"),
             "chi2": x["CONT_chi2"], "dof": x["CONT_dof"],
             "x": x["CONT_x"], "xcov": x["CONT_xcov"]} for x in out["chi2"]]
