"""C25: calibration runs."""
import os
import shutil

import numpy as np

import caldrv
import world
from core import num, nums, pmap

SNR = [.25, .5, 1., 1.5, 2., 2., 3., 7.5, 8., 100., 150.]


def catalogue(path, rng, tids, mock):
    n = len(tids)
    out = []
    cols = dict(TARGETID=np.array(tids), Z=rng.uniform(2.2, 3.1, n),
                RA=rng.uniform(0, 300, n), DEC=rng.uniform(-50, 50, n),
                HPXPIXEL=rng.integers(0, 3000, n))
    sv = rng.choice(["main", "sv1", "sv3"], n)
    if not mock:
        cols["SURVEY"] = sv
        cols["LASTNIGHT"] = np.full(n, 20210101)

    def pairs(m):
        lo = np.where(rng.uniform(size=(n, m)) < .12,
                      rng.uniform(100, 9000, (n, m)), -1.)
        lo[rng.uniform(size=(n, m)) < .1] = 0.
        hi = np.where(lo > 0, lo + 500., -1.)
        # one limit without the other is no trough
        odd = rng.uniform(size=(n, m)) < .04
        hi = np.where(odd & (lo <= 0), 800., hi)
        return lo, hi
    for a, m in (("450", 4), ("2000", 2)):
        lo, hi = pairs(m)
        cols[f"VMIN_CIV_{a}"], cols[f"VMAX_CIV_{a}"] = lo, hi
    world.write_catalog(path, cols)
    for i in range(n):
        r = {"tid": str(tids[i]), "survey": str(sv[i])}
        for a, k in (("450", "ai"), ("2000", "bi")):
            r[k] = [{"lo": num(x), "hi": num(y)} for x, y in
                    zip(cols[f"VMIN_CIV_{a}"][i], cols[f"VMAX_CIV_{a}"][i])]
        out.append(r)
    return out


def scenario(item):
    k, tmp, seed = item
    rng = np.random.default_rng([seed, 25, k])
    d = os.path.join(tmp, f"cb{k}")
    nf = 1 + int(rng.integers(0, 6))
    size = 1 + k % 7
    cov = bool(rng.uniform() < .2)
    # (w1, w2, wavelength bins): pixels (3600 + 8 i) fall in the middle, a
    # quarter off, exactly half way between two points of the stack
    w1, w2, nw = [(3592., 4848., 6), (3602., 4802., 7),
                  (3604., 4828., 8)][int(rng.integers(0, 3))]
    nv = 8
    base = [39627700846986001, 4611686018427387000, 100][int(
        rng.integers(0, 3))]
    files, allt, t = {}, [], 0
    names = [f"delta-{x}" for x in rng.permutation(50)[:nf]]
    main = int(rng.integers(0, nf))
    for j, nm in enumerate(names):
        n = 44 if j == main else int(rng.choice([0, 1, 3, 8]))
        L = []
        for i in range(n):
            tid = base + t
            t += 1
            arms = ["brz"] if rng.uniform() < .8 else ["B", "R"]
            s = 3. if j == main and i < 26 else float(rng.choice(SNR))
            for a in arms:
                L.append(caldrv.sightline(
                    rng, tid, s, w1=3600., w2=4840., n=int(
                        rng.integers(60, 100)), arm=a))
            allt.append(tid)
        files[nm + (".fits.gz" if rng.uniform() < .1 else ".fits")] = L
    caldrv.write(d, files)
    # not delta files
    caldrv.write(d, {"attributes.fits": [caldrv.sightline(rng, 5, 3.)]})
    lo, hi = [("0", "100"), ("2", "8"), ("0.5", "100"), ("1.5", "7.5")][
        int(rng.integers(0, 4))]
    o = {"min": lo, "max": hi, "list": [], "cat": [], "bal": False,
         "surveys": [], "w1": num(w1), "w2": num(w2), "dw": "8"}
    argv = ["--nvarbins", str(nv), "--nwbins", str(nw), "--wave1", num(w1),
            "--wave2", num(w2), "--min-snr", lo, "--max-snr", hi, "--var1", "0.003", "--var2", "3"]
    if cov:
        argv.append("--var-use-cov")
    if rng.uniform() < .5:
        m = int(rng.choice([0, 1, 2, 9]))
        o["list"] = [str(x) for x in rng.choice(allt, m)] \
            + ([str(base + 10**6)] if m > 1 else [])
        with open(f"{d}/list.txt", "w") as f:
            f.write("\n".join(o["list"]) + "\n")
        argv += ["--remove-targetid-list", f"{d}/list.txt"]
    if rng.uniform() < .6:
        mock = bool(rng.uniform() < .3)
        ids = [allt[i] for i in rng.permutation(len(allt))]
        ids = ids[:int(len(ids) * .8)] + [base + 2 * 10**6]
        cat = catalogue(f"{d}/cat.fits", rng, ids, mock)
        o["cat"] = cat
        argv += ["--catalog", f"{d}/cat.fits"]
        if mock:
            argv.append("--mock-analysis")
        if rng.uniform() < .6:
            o["bal"] = True
            argv.append("--remove-bal-qsos")
        if not mock and rng.uniform() < .6:
            o["surveys"] = [["main"], ["main", "sv3"], ["sv1"]][int(
                rng.choice([0, 1, 1, 2]))]
            argv += ["--keep-surveys", *o["surveys"]]
    r = caldrv.run(d, f"{d}/out", size, *argv)
    e = {"k": "calib", "out": "ok", "o": o, "cov": cov, "mp": 3, "mq": 2,
         "size": size, "nf": nf,
         "c": dict(w1=num(w1), w2=num(w2), nw=nw, v1="0.003", v2="3",
                   nv=nv),
         "sight": [{"tid": str(s["tid"]), "snr": num(s["snr"]),
                    "wave": nums(s["lam"]), "delta": nums(s["delta"]),
                    "ivar": nums(s["ivar"]), "weight": nums(s["weight"])}
                   for L in files.values() for s in L]}
    if not r.all_ok:
        e["out"] = r.first_error()[-700:]
        # too little is left for the variance fit
        few = "more than 40% points" in e["out"]
        e = [] if few else [e]
    else:
        _, ext, hdr = caldrv.product(f"{d}/out")
        A = {x["ext"]: {y["name"]: y["v"] for y in x["cols"]} for x in ext}
        v = A.get("VAR_STATS", {})
        e["table"] = {b: v.get(a, []) for a, b in (
            ("num_pixels", "npix"), ("num_qso", "nqso"),
            ("mean_delta", "mean"), ("var_delta", "var"),
            ("var_pipe", "vpipe"), ("e_var_delta", "evar"))}
        e["table"].update(minsnr=hdr.get("MINSNR", "nan"),
                          maxsnr=hdr.get("MAXSNR", "nan"))
        e["func"] = {a: A.get("VAR_FUNC", {}).get(a, [])
                     for a in ("lambda", "var_lss", "eta", "e_var_lss",
                               "e_eta")}
        e["hascov"] = any("cov_var_delta" in x["names"] for x in ext)
        e["stack"] = {a: A.get("STACKED_FLUX", {}).get(a, [])
                      for a in ("lambda", "stacked_flux")}
        e = [e]
    shutil.rmtree(d, ignore_errors=True)
    return e


def run(chk):
    chk.model("MC_CalibRun")
    for v in ("floor", "ceil", "all"):
        chk.model("MC_CalibRun", f"MC_CalibRun_{v}.cfg",
                  expect_violation="Once")
    import qsonic.scripts.qsonic_calib   # noqa: before forking
    n = 300 if chk.thorough else 42
    scen = pmap(scenario, [(k, chk.tmp, chk.seed) for k in range(n)])
    chk.notes.append(f"{sum(not s for s in scen)} of {n} runs had too few "
                     "sightlines left")
    chk.sample(str(scen[0])[:3000])
    chk.validate("Trace_C25", scen)
