"""C30: delta files are read as they were written."""
import os

import fitsio
import numpy as np

import simmpi
from core import num, nums, pmap

WAVE = ["LAMBDA", "LAMBDA", "LOGLAM"]
DELTA = ["DELTA", "DELTA_BLIND"]
ID = ["TARGETID", "TARGETID", "MOCKID", "THING_ID"]


def rows(m):
    return [nums(x) for x in m]


def obj(d):
    return {"tid": str(int(d.targetid)), "snr": num(d.mean_snr),
            "wave": nums(d.wave), "delta": nums(d.delta),
            "ivar": nums(d.ivar), "weight": nums(d.weight),
            "cont": nums(d.cont),
            # in memory: diagonals times pixels; in the file: pixels first
            "reso": [] if d.reso is None else rows(np.asarray(d.reso).T)}


def on_disk(path):
    out = []
    with fitsio.FITS(path) as f:
        for h in f[1:]:
            c, d, hd = h.get_colnames(), h.read(), h.read_header()
            e = {"cols": list(c), "named": hd["EXTNAME"].strip(),
                 "hdr": {k: hd[k].strip() if isinstance(hd[k], str)
                         else num(hd[k]) for k in
                         ("RA", "DEC", "Z", "BLINDING", "MEANSNR", "SKYPATCH",
                          "RSNR", "DELTA_LAMBDA") if k in hd.keys()}}
            for n, k in (("lam", "LAMBDA"), ("delta", "DELTA"),
                         ("blind", "DELTA_BLIND"), ("ivar", "IVAR"),
                         ("weight", "WEIGHT"), ("cont", "CONT")):
                e[n] = nums(d[k]) if k in c else []
            e["reso"] = rows(d["RESOMAT"]) if "RESOMAT" in c else []
            out.append(e)
    return out


def _one(seed, i, tmp):
    from qsonic.io import read_deltas
    rng = np.random.default_rng([seed, 30, i])
    p = os.path.join(tmp, f"rd{i}.fits" + str(rng.choice(["", ".gz"])))
    q = os.path.join(tmp, f"wr{i}.fits")
    nl = int(rng.choice([0, 1, 2, 3, 7], p=[.05, .3, .3, .2, .15]))
    miss = rng.uniform() < .3      # one sightline lacks something
    blind = DELTA[int(rng.integers(0, 2))]
    which = int(rng.integers(0, max(nl, 1)))
    lines = []
    with fitsio.FITS(p, "rw", clobber=True) as f:
        f.write(None)
        for k in range(nl):
            n = int(rng.choice([1, 2, 5, 12]))
            y = {"wave": str(rng.choice(WAVE)), "delta": blind,
                 "id": str(rng.choice(ID))}
            if rng.uniform() < .1:
                y["delta"] = str(rng.choice(DELTA))
            if miss and k == which:
                y[str(rng.choice(["wave", "delta", "id"]))] = "none"
            ty = str(rng.choice(["f8", "f8", "f4"]))
            lam = np.round(3600. + .8 * rng.integers(0, 900)
                           + .8 * np.arange(n), 6)
            iv = np.round(10**rng.uniform(-2, 2, n), 5)
            iv[rng.uniform(size=n) < .3] = 0
            de = np.round(rng.standard_normal(n), 5)
            wt = np.round(iv / (1 + iv * .1), 6)
            co = np.round(rng.uniform(.5, 3, n), 5)
            cols, names = [], []
            if y["wave"] == "LOGLAM":
                cols.append(np.log10(lam))
            elif y["wave"] == "LAMBDA":
                lam = lam.astype(ty)
                cols.append(lam)
            names += [y["wave"]] if y["wave"] != "none" else []
            de, iv, wt, co = (x.astype(ty) for x in (de, iv, wt, co))
            if y["delta"] != "none":
                cols.append(de)
                names.append(y["delta"])
            cols += [iv, wt, co]
            names += ["IVAR", "WEIGHT", "CONT"]
            reso = []
            if rng.uniform() < .5:
                m = np.round(rng.uniform(size=(n, int(rng.choice([3, 5, 11])))),
                             4).astype(ty)
                cols.append(m)
                names.append("RESOMAT")
                reso = rows(m)
            if rng.uniform() < .3:    # columns nobody asked for
                cols.append(np.arange(n) * 1.5)
                names.append("EXTRA")
            tid = int(rng.choice([7, 39627700846986001, 2 * 10**18])) \
                + int(rng.integers(0, 10**6))
            snr = float(np.round(rng.uniform(-2, 30), 6))
            hdr = {"RA": float(np.round(rng.uniform(0, 6), 6)),
                   "DEC": float(np.round(rng.uniform(-1, 1), 6)),
                   "Z": float(np.round(rng.uniform(2, 4), 5)),
                   "MEANSNR": snr, "SKYPATCH": "north",
                   "BLINDING": "desi_y1" if y["delta"] == "DELTA_BLIND"
                   else "none", "RSNR": 1.5, "DELTA_LAMBDA": .8}
            h = dict(hdr)
            if y["id"] != "none":
                h[y["id"]] = tid
            order = rng.permutation(len(cols))
            f.write([cols[j] for j in order], names=[names[j] for j in order],
                    header=h, extname=f"{k}-x")
            lines.append({
                "y": y, "tid": str(tid), "snr": num(snr), "wave": nums(lam),
                "delta": nums(de), "ivar": nums(iv), "weight": nums(wt),
                "cont": nums(co), "reso": reso,
                "hdr": [{"key": a, "v": b if isinstance(b, str) else num(b),
                         "num": not isinstance(b, str)}
                        for a, b in hdr.items()]})
    e = {"k": "file", "lines": lines, "out": "ok", "mem": [], "file": [],
         "mem2": []}
    try:
        ds = read_deltas(p)
    except Exception as x:
        e["out"] = type(x).__name__
        os.remove(p)
        return [e]
    e["mem"] = [obj(d) for d in ds]
    with fitsio.FITS(q, "rw", clobber=True) as f:
        f.write(None)
        for d in ds:
            d.write(f)
    e["file"] = on_disk(q)
    e["mem2"] = [obj(d) for d in read_deltas(q)]
    os.remove(p)
    os.remove(q)
    return [e]


def one(item):
    kind, name, v = simmpi.isolated(_one, *item)
    return v if kind == "ok" else [{"k": "crash", "msg": str(v)[-900:]}]


def run(chk):
    chk.model("MC_DeltaRead")
    chk.model("MC_DeltaRead", "MC_DeltaRead_plain.cfg",
              expect_violation="StaysBlind")
    chk.model("MC_DeltaRead", "MC_DeltaRead_keepbad.cfg",
              expect_violation="SameSightlines")
    chk.model("MC_DeltaRead", "MC_DeltaRead_skip.cfg",
              expect_violation="Accepts")
    import qsonic.io   # noqa: before forking
    scen = pmap(one, [(chk.seed, i, chk.tmp)
                      for i in range(6000 if chk.thorough else 700)])
    chk.sample(scen[1][0])
    chk.validate("Trace_C30", scen)
