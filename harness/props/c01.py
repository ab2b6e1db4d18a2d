"""C01: catalogue reading against Catalog.tla."""
import itertools
import os

import healpy
import numpy as np

import simmpi
import world
from core import num

# pixel numbers, nside 64, nested; the last ones at the poles and at RA 0
SKY64 = [5, 1234, 20011, 49151, 4095, 16383, 32768, 36864, 0, 17748]
RENAME = {"TARGETID": str, "SURVEY": str}


def enc(col, v):
    if col == "SURVEY":
        return v.decode() if isinstance(v, bytes) else str(v).strip()
    return num(v)


def build(case, uniq):
    """dict of columns to write, and the spec's view of rows."""
    f = case["f"]
    rows = [dict(r) for r in case["rows"]]
    if uniq:
        # distinct targets: append the position in a way that keeps numeric
        # and textual order different
        seen = {}
        for r in rows:
            k = r["TARGETID"]
            seen[k] = seen.get(k, 0) + 1
            r["TARGETID"] = str(int(k) + 1000 * (seen[k] - 1))
    n = len(rows)
    cols = {}
    cols["TARGETID"] = np.array([int(r["TARGETID"]) for r in rows], 'i8')
    cols["Z"] = np.array([float(r["Z"]) for r in rows])
    pix = np.array([SKY64[r["sky"] - 1] for r in rows])
    ra, dec = healpy.pix2ang(64, pix, nest=True, lonlat=True)
    if f["ra"] in ("RA", "BOTH"):
        cols["RA"], cols["DEC"] = ra, dec
    if f["ra"] in ("TARGET_RA", "BOTH"):
        d = 1.5 if f["ra"] == "BOTH" else 0.
        cols["TARGET_RA"], cols["TARGET_DEC"] = ra + d, dec - d
    if f["night"] != "NONE":
        nights = 20210101 + np.arange(n)
        for k in ("LASTNIGHT", "COADD_LASTNIGHT", "LAST_NIGHT"):
            if f["night"] == k or f["night"] == "BOTH":
                cols[k] = nights + 100 * len(cols)
    if f["survey"]:
        cols["SURVEY"] = np.array([r["SURVEY"] for r in rows])
    if f["hpx"]:
        cols["HPXPIXEL"] = np.array([([40, 7, 100, 9] + SKY64[4:])[r["sky"] - 1]
                                     for r in rows])
    if f["tilecols"]:
        cols["TILEID"] = np.array([([300, 82, 1000, 9] + SKY64[4:])[r["sky"] - 1]
                                   for r in rows])
        cols["PETAL_LOC"] = np.array([int(r["PETAL_LOC"]) for r in rows])
    if f["bal"]:
        cols["VMIN_CIV_450"] = np.arange(n * 2, dtype=float).reshape(n, 2)
        cols["VMAX_CIV_450"] = cols["VMIN_CIV_450"] + 0.5
    if f["miss"]:
        for k in (f["miss"], "TARGET_" + f["miss"]):
            cols.pop(k, None)
    cols["EXTRA"] = np.arange(n)
    view = []
    for i in range(n):
        r = {c: enc(c, cols[c][i]) for c in cols
             if c not in ("VMIN_CIV_450", "VMAX_CIV_450")}
        for c in ("VMIN_CIV_450", "VMAX_CIV_450"):
            if c in cols:
                r[c] = [num(x) for x in cols[c][i]]
        r["pix64"] = num(pix[i])
        r["pix16"] = num(pix[i] >> 4)
        view.append(r)
    return cols, view


def proj(cat):
    names = list(cat.dtype.names)
    out = []
    for r in cat:
        d = {}
        for c in names:
            v = r[c]
            d[c] = [num(x) for x in v] if np.ndim(v) else enc(c, v)
        out.append(d)
    return names, out


def kwargs(o):
    return dict(is_mock=o["mock"], is_tile=o["tile"],
                keep_surveys=None if o["allsurveys"] else list(o["surveys"]),
                zmin=float(o["zmin"]), zmax=float(o["zmax"]))


def events(case, cols, view, fname, how):
    from qsonic import catalog as qc
    o = case["o"]
    kw = kwargs(o)
    base = {"k": "read", "rows": view, "cols": list(cols), "o": o}

    def one(fn):
        try:
            c = fn()
            names, res = proj(c)
            return {"out": "ok", "res": res, "rescols": names}
        except Exception as e:
            return {"out": "error", "res": [], "rescols": [],
                    "msg": type(e).__name__}
    if how == 0:
        return [{**base, **one(lambda: qc.read_quasar_catalog(fname, **kw))}]
    if how == 1:
        return [{**base,
                 **one(lambda: qc.mpi_read_quasar_catalog(fname, **kw))}]
    r = simmpi.run(lambda comm, rank, size: one(
        lambda: qc.mpi_read_quasar_catalog(fname, comm, rank, **kw)), 2)
    return [{**base, **(r.value[i] if r.kind[i] == "ok" else
                        {"out": "stuck", "res": [], "rescols": []})}
            for i in range(2)]


def run(chk):
    chk.model("MC_Catalog")
    cases = chk.generate("Gen_Catalog", num=2500 if chk.thorough else 500,
                         depth=12)
    scen = []
    for i, case in enumerate(cases):
        # two thirds of the cases: the plain valid file
        if i % 3:
            case["f"]["miss"] = ""
            if case["f"]["night"] == "NONE" and not case["o"]["mock"]:
                case["f"]["night"] = "LAST_NIGHT"
            if not case["o"]["mock"]:
                case["f"]["survey"] = True
            if case["o"]["tile"]:
                case["f"]["tilecols"] = True
        cols, view = build(case, uniq=i % 7 != 0)
        fname = os.path.join(chk.tmp, "cat.fits")
        ext = case["f"]["ext"]
        world.write_catalog(fname, cols, "FOO" if ext == "OTHER" else ext)
        how = 2 if i % 25 == 3 else i % 2
        ev = events(case, cols, view, fname, how)
        scen.append(ev)
    chk.sample(scen[1][0])
    # larger files: many rows, ties in every key prefix, target ids that only
    # differ beyond double precision, redshifts at and next to the limits and
    # undefined ones, names that begin with a requested one, the whole sky
    rng = chk.nprng(1)
    zs = [2., np.nextafter(2., 0), np.nextafter(2., 9), 3.5, np.nan,
          np.nextafter(3.5, 0), np.nextafter(3.5, 9), 2 - 1e-9, 3.5 + 1e-9,
          -1., 0.]
    keeps = [["main", "sv3"], ["sv"], ["main"], ["sv1", "cmx"]]
    for k in range(36 if chk.thorough else 12):
        n = 60 if k % 3 else 400
        case = {"f": {"ra": ["RA", "TARGET_RA"][k % 2],
                      "night": "LASTNIGHT", "survey": True,
                      "hpx": k % 4 == 1, "tilecols": True, "bal": True,
                      "miss": "", "ext": "ZCATALOG"},
                "o": {"mock": k % 6 == 5, "tile": k % 3 == 2,
                      "allsurveys": k % 4 == 0,
                      "surveys": keeps[int(rng.integers(4))], "zmin": "2",
                      "zmax": "3.5"}}
        case["o"]["mock"] &= not case["o"]["tile"]
        tids = 39627000000000000 + rng.choice(np.arange(3 * n), n,
                                              replace=False)
        case["rows"] = [
            {"TARGETID": str(tids[i]),
             "Z": num(rng.choice(zs) if i % 3 == 0
                      else rng.uniform(1.8, 3.8)),
             "SURVEY": str(rng.choice(["main", "main2", "sv", "sv1", "sv12",
                                       "sv3", "cmx", "Main", "SV3"])),
             "sky": int(rng.integers(1, len(SKY64) + 1)),
             "PETAL_LOC": str(rng.integers(0, 10))} for i in range(n)]
        if k % 6 == 2:
            # one target twice on a tile, seen by two petals
            case["rows"][3].update(
                TARGETID=case["rows"][4]["TARGETID"],
                sky=case["rows"][4]["sky"], PETAL_LOC=str(1),
                SURVEY=case["rows"][4]["SURVEY"])
            case["rows"][4]["PETAL_LOC"] = str(2)
        if k % 6 == 4:
            # a repeated target, once outside the redshift window
            case["rows"][3].update(TARGETID=case["rows"][4]["TARGETID"],
                                   Z="1.5")
            if k % 12 == 4:     # both outside of it
                case["rows"][4]["Z"] = "0.5"
                case["rows"][3]["Z"] = "0.25"
        cols, view = build(case, uniq=False)
        world.write_catalog(fname, cols)
        scen.append(events(case, cols, view, fname, 0))
    chk.validate("Trace_Catalog", scen)
