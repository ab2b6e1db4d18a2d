"""Delta files written by the harness and coadded by the real script."""
import glob
import os
import sys

import fitsio
import numpy as np

import simmpi
from core import num, nums

STRAT = {False: ["none"], True: ["desi_m2", "desi_y1", "desi_y3"]}


def entry(rng, tid, ra, dec, z, n0, n, dw, reso, blind, bad=.2, w0=3600.):
    lam = w0 + dw * (n0 + np.arange(n))
    lam = np.round(lam, 6)
    iv = np.round(10**rng.uniform(-1, 1.5, n), 4)
    iv[rng.uniform(size=n) < bad] = 0
    if rng.uniform() < .05:
        iv[:] = 0
    lss = np.round(rng.uniform(.02, .3, n), 4)
    wt = iv / (1 + iv * lss)
    wt[rng.uniform(size=n) < .05] = 0      # no weight but still noise known
    de = np.round(rng.standard_normal(n) * .3, 4)
    if rng.uniform() < .7:
        de[iv == 0] = 0
    co = np.round(rng.uniform(1, 3, n), 4)
    nd = int(rng.choice([3, 5])) if reso else 0
    rs = np.round(rng.uniform(.1, 1, (n, nd)), 4) if reso else None
    snr = float(np.dot(np.sqrt(iv), 1 + de) / max(1, (iv > 0).sum()))
    return dict(tid=tid, ra=float(np.radians(ra)), dec=float(np.radians(dec)),
                z=z, lam=lam, delta=de, ivar=iv, weight=wt, cont=co, reso=rs,
                blind=blind, strategy=str(rng.choice(STRAT[blind])),
                snr=snr, dw=dw)


def write(path, entries, idkey="TARGETID", with_dw=True, names=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with fitsio.FITS(path, 'rw', clobber=True) as f:
        f.write(None)
        for k, e in enumerate(entries):
            h = {idkey: e["tid"], "RA": e["ra"], "DEC": e["dec"],
                 "Z": e["z"], "BLINDING": e["strategy"],
                 "MEANSNR": e["snr"], "RSNR": 1.5}
            if with_dw:
                h["DELTA_LAMBDA"] = e["dw"]
            cols = [e["lam"], e["delta"], e["ivar"], e["weight"], e["cont"]]
            n = ["LAMBDA", "DELTA_BLIND" if e["blind"] else "DELTA", "IVAR",
                 "WEIGHT", "CONT"]
            if e["reso"] is not None:
                cols.append(e["reso"])
                n.append("RESOMAT")
            f.write(cols, names=n, header=h,
                    extname=f"{e['tid']}-{'BRZ'[k % 3]}")


def rec(e):
    return {"tid": str(e["tid"]), "ra": num(e["ra"]), "dec": num(e["dec"]),
            "z": num(e["z"]), "lam": nums(e["lam"]),
            "delta": nums(e["delta"]), "ivar": nums(e["ivar"]),
            "weight": nums(e["weight"]), "cont": nums(e["cont"]),
            "reso": nums(e["reso"]) if e["reso"] is not None else [],
            "snr": num(e["snr"]), "blind": bool(e["blind"]),
            "strategy": e["strategy"]}


def read(path):
    """Entries of a delta file, as records."""
    out = []
    with fitsio.FITS(path) as f:
        for h in f[1:]:
            hd, c, d = h.read_header(), h.get_colnames(), h.read()
            key = next((k for k in ("TARGETID", "THING_ID", "MOCKID")
                        if k in hd), None)
            bl = "DELTA_BLIND" in c
            out.append({
                "file": os.path.basename(path),
                "tid": str(hd.get(key)), "ra": num(hd.get("RA")),
                "dec": num(hd.get("DEC")), "z": num(hd.get("Z")),
                "lam": nums(d["LAMBDA"]),
                "delta": nums(d["DELTA_BLIND" if bl else "DELTA"]),
                "ivar": nums(d["IVAR"]), "weight": nums(d["WEIGHT"]),
                "cont": nums(d["CONT"]),
                "reso": nums(d["RESOMAT"]) if "RESOMAT" in c else [],
                "snr": num(hd.get("MEANSNR")),
                "blind": bl and "DELTA" not in c,
                "strategy": str(hd.get("BLINDING", "")).strip()})
    return out


def run_coadd(dirs, out, nside, nest, nproc):
    """The real script in a fresh process."""
    import qsonic.scripts.qsonic_coadd_deltas as cd
    os.makedirs(out, exist_ok=True)

    def job():
        sys.argv = ["qsonic-coadd", "-i", *dirs, "-o", out, "--nside",
                    str(nside)] + (["--nest"] if nest else []) \
            + (["--nproc", str(nproc)] if nproc else [])
        cd.main()
    return simmpi.isolated(job)


def scenario(seed, i, tmp):
    import healpy
    rng = np.random.default_rng([seed, 12, i])
    d = os.path.join(tmp, f"dc{i}")
    dw = float(rng.choice([.8, 1., .5]))
    reso = bool(rng.integers(0, 2))
    some_blind = rng.uniform() < .6
    idkey = str(rng.choice(["TARGETID"] * 4 + ["THING_ID", "MOCKID"]))
    with_dw = dw != .8 or rng.uniform() < .5
    ndir = int(rng.integers(1, 4))
    # directories may have the same name
    sub = "/Delta" if i % 3 == 2 else ""
    files = [f"{d}/in{a}{sub}/delta-{b}.fits" for a in range(ndir)
             for b in range(int(rng.integers(1, 4)))]
    content = {f: [] for f in files}
    ins = {}
    big = int(rng.choice([39627700846986001, 7, 2 ** 53 + 1]))
    for k in range(int(rng.integers(1, 6))):
        tid = big + 3 * k
        ra, dec = float(rng.uniform(0, 360)), float(rng.uniform(-80, 80))
        z = round(float(rng.uniform(2, 3)), 4)
        base = int(rng.integers(0, 20))
        ins[tid] = []
        for m in range(int(rng.choice([1, 1, 2, 2, 3, 4]))):
            blind = bool(some_blind and rng.uniform() < .5)
            e = entry(rng, tid, ra, dec, z, base + int(rng.integers(-6, 7)),
                      int(rng.integers(1, 9)), dw, reso, blind)
            ins[tid].append(e)
            content[files[int(rng.integers(0, len(files)))]].append(e)
    for f in files:
        c = content[f]
        write(f, [c[j] for j in rng.permutation(len(c))], idkey, with_dw)
    nside, nest = int(rng.choice([2, 8, 16])), bool(rng.integers(0, 2))
    dirs = [f"{d}/in{a}{sub}" for a in range(ndir)]
    n1, n2 = [(1, 3), (2, 1), (4, None), (3, 2)][i % 4]
    res = []
    for j, n in enumerate((n1, n2)):
        o = f"{d}/out{j}"
        kind, name, v = run_coadd(dirs, o, nside, nest, n)
        got = [x for p in sorted(glob.glob(f"{o}/*")) for x in read(p)] \
            if kind == "ok" else []
        res.append((kind if kind == "ok" else f"{name} {str(v)[-300:]}", got,
                    sorted(os.path.basename(p)
                           for p in glob.glob(f"{o}/*"))))
    want = {}
    for tid, es in ins.items():
        p = healpy.ang2pix(nside, np.degrees(es[0]["ra"]),
                           np.degrees(es[0]["dec"]), lonlat=True, nest=nest)
        want[tid] = f"delta-{p}.fits"
    ev = [{"k": "dir", "out": res[0][0] if res[1][0] == "ok" else res[1][0],
           "intids": sorted(map(str, ins)),
           "tids": [x["tid"] for x in res[0][1]], "files": res[0][2],
           "want": sorted(set(want.values())), "nside": nside,
           "nproc": [n1 or 0, n2 or 0]}]
    if res[0][0] == "ok" and res[1][0] == "ok":
        for tid, es in ins.items():
            ev.append({"k": "target", "tid": str(tid), "want": want[tid],
                       "dw": num(dw), "ins": [rec(e) for e in es],
                       "outs": [x for x in res[0][1] if x["tid"] == str(tid)],
                       "outs2": [x for x in res[1][1]
                                 if x["tid"] == str(tid)]})
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    return ev
