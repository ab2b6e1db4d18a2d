"""Directories of delta files and qsonic-calib runs on them."""
import os
import sys

import fitsio
import numpy as np

import simmpi
import world
from core import num, nums


def sightline(rng, tid, snr, w1=3600., w2=4800., dw=8., n=100, arm="brz",
              off=0.):
    i1 = int(rng.integers(0, max(1, int((w2 - w1) / dw) - n)))
    w = np.arange(w1 + off, w2, dw)[i1:i1 + n]
    m = w.size
    iv = 10**rng.uniform(-0.5, 2.5, m)
    de = .2 * rng.standard_normal(m) + rng.standard_normal(m) / np.sqrt(iv)
    iv[rng.uniform(size=m) < .05] = 0
    de[iv == 0] = 0
    return dict(tid=tid, snr=snr, arm=arm, dw=dw, lam=w, delta=de, ivar=iv,
                weight=iv / (1 + .05 * iv), cont=np.full(m, 2.),
                z=float(rng.uniform(2.2, 3.1)))


def write(d, files):
    """files: dict file name -> list of sightlines."""
    os.makedirs(d, exist_ok=True)
    for name, f in files.items():
        with fitsio.FITS(f"{d}/{name}", "rw", clobber=True) as ft:
            if not f:
                ft.write(None)
            for x in f:
                ft.write([x["lam"], x["delta"], x["ivar"], x["weight"],
                          x["cont"]],
                         names=["LAMBDA", "DELTA", "IVAR", "WEIGHT", "CONT"],
                         header={"TARGETID": x["tid"], "MEANSNR": x["snr"],
                                 "DELTA_LAMBDA": x["dw"], "RA": .1,
                                 "DEC": .1, "Z": x["z"], "BLINDING": "none"},
                         extname=f"{x['tid']}-{x['arm']}")


def run(d, out, size, *argv, timeout=120.):
    import qsonic.scripts.qsonic_calib as qc
    a = ["qsonic-calib", "-i", d, "-o", out, *argv]

    def job(comm, rank, sz):
        world.shrink_varlss(easy=True)
        sys.argv = list(a)
        return qc.mpi_run_all(comm, rank, sz)
    return simmpi.run(job, size, timeout)


def product(out):
    """Extensions of the one file a calibration run writes, and its name."""
    f = [x for x in sorted(os.listdir(out)) if x.endswith(".fits")] \
        if os.path.isdir(out) else []
    ext, hdr = [], {}
    for p in f:
        with fitsio.FITS(f"{out}/{p}") as ft:
            for h in ft[1:]:
                d = h.read()
                ext.append({"ext": h.get_extname(),
                            "names": list(d.dtype.names),
                            "cols": [{"name": c, "v": nums(d[c])}
                                     for c in d.dtype.names
                                     if d[c].ndim == 1]})
                if h.get_extname() == "VAR_STATS":
                    hh = h.read_header()
                    hdr = {k: num(hh[k]) for k in
                           ("MINSNR", "MAXSNR", "MINNPIX", "MINNQSO",
                            "NWBINS", "NVARBINS") if k in hh}
    return f, ext, hdr
