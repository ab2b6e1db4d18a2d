"""C04: full runs never leave processes waiting (RunAll.tla)."""
import os
import shutil
import sys

import numpy as np

import runs
import simmpi
import world
from core import num, pmap

def event(c, r, script, argv, mustok, mustfail):
    return [{"k": "run", "script": script, "size": r.size, "case": c,
             "argv": argv,
             "res": [{"kind": k, "name": n if k == "raise" else ""}
                     for k, n in zip(r.kind, r.name)],
             "msg": r.first_error()[:1500] + r.mismatch[:300],
             "logs": r.log, "mustok": mustok, "mustfail": mustfail}]


def fit_run(item):
    k, c, tmp, seed = item
    d = os.path.join(tmp, f"run{k}")
    rng = np.random.default_rng([seed, k])
    s, argv, r = runs.fit(c, d, rng)
    shutil.rmtree(d, ignore_errors=True)
    g = set(c["groups"])
    bad = {"masked", "short", "absent"}
    if c["model"] != "true":
        bad.add("invalid")
    return event(c, r, "fit", [a.replace(tmp, "") for a in argv],
                 "good" in g, g <= bad)


# ---------------------------------------------------------------- calibration
def write_delta_files(d, rng, files, w1=3600., w2=4800., dw=8.):
    """files: list of lists of (targetid, snr, good)."""
    import fitsio
    os.makedirs(d, exist_ok=True)
    for k, f in enumerate(files):
        with fitsio.FITS(f"{d}/delta-{k * 3}.fits", "rw", clobber=True) as ft:
            ft.write(None)
            for tid, snr in f:
                i1 = int(rng.integers(0, 40))
                w = np.arange(w1, w2, dw)[i1:i1 + 100]
                n = w.size
                iv = 10**rng.uniform(-0.5, 2.5, n)
                de = 0.2 * rng.standard_normal(n) \
                    + rng.standard_normal(n) / np.sqrt(iv)
                iv[rng.uniform(size=n) < .05] = 0
                wt = iv / (1 + 0.05 * iv)
                ft.write([w, de, iv, wt, np.ones(n)],
                         names=["LAMBDA", "DELTA", "IVAR", "WEIGHT", "CONT"],
                         header={"TARGETID": tid, "MEANSNR": snr,
                                 "DELTA_LAMBDA": dw, "RA": 0.1, "DEC": 0.1,
                                 "Z": 2.5},
                         extname=f"{tid}-brz")


def calib_run(item):
    import qsonic.scripts.qsonic_calib as qc
    k, c, tmp, seed = item
    d = os.path.join(tmp, f"cal{k}")
    rng = np.random.default_rng([seed, 77, k])
    t, files = 100, []
    for f in c["files"]:
        n = {"empty": 0, "kept": 12, "excluded": 3}[f]
        files.append([(t + i, 2. if f == "kept" else 200.)
                      for i in range(n)])
        t += n
    write_delta_files(d, rng, files)
    argv = ["qsonic-calib", "-i", d, "-o", d + "/out", "--nvarbins", "8",
            "--nwbins", "6", "--wave1", "3600", "--wave2", "4800"] \
        + (["--var-use-cov"] if c["cov"] else [])

    def job(comm, rank, size):
        world.shrink_varlss()
        sys.argv = list(argv)
        return qc.mpi_run_all(comm, rank, size)
    r = simmpi.run(job, c["size"])
    shutil.rmtree(d, ignore_errors=True)
    return event(c, r, "calib", [a.replace(tmp, "") for a in argv],
                 "kept" in c["files"], False)


# ------------------------------------------------- main programs and faults
def junk(path, how):
    """Something on the disk that no process can be prepared for."""
    if how == "dir":
        os.makedirs(path + "/x", exist_ok=True)
    else:
        with open(path, "wb") as f:
            f.write(b"no FITS file" * (40 if how == "text" else 0))


def main_fit(item):
    import glob

    import qsonic.scripts.qsonic_fit as qf
    k, c, tmp, seed = item
    d = os.path.join(tmp, f"mfit{k}")
    rng = np.random.default_rng([seed, 78, k])
    cc = dict(runs.BASE, size=c["size"], groups=c["groups"], fid=True,
              hpx=c.get("hpx", False), expo=c.get("expo", "disable"))
    s = world.Survey(d, rng, runs.quasars(cc, rng))
    argv = world.fit_argv(s, d + "/out", *runs.options(cc, d, s, rng))
    os.makedirs(d + "/out")
    w = c["what"]
    if w == "nobal":         # the catalogue has no BAL columns
        argv.append("--bal-mask")
    elif w == "nocatalog":
        os.remove(s.catalog)
    elif w == "badcatalog":
        os.remove(s.catalog)
        junk(s.catalog, "text")
    elif w in ("spectra", "nospectra", "emptyspectra"):
        fs = sorted(f for f in glob.glob(d + "/**/*.fits*", recursive=True)
                    if os.path.basename(f).startswith("coadd-"))
        f = fs[c["pos"] % len(fs)]
        os.remove(f)
        if w != "nospectra":
            junk(f, "text" if w == "spectra" else "empty")
    elif w == "attributes":
        junk(d + "/out/attributes.fits", "dir")
    elif w == "chi2":
        junk(d + "/out/continuum_chi2_catalog.fits", "dir")
    elif w == "delta":
        for x in range(c["size"]) if c["pos"] < 0 else [c["pos"] % c["size"]]:
            junk(f"{d}/out/delta-{x}.fits", "dir")

    def job(comm, rank, size):
        world.shrink_varlss()
        sys.argv = list(argv)
        qf.main()
    r = simmpi.run(job, c["size"])
    shutil.rmtree(d, ignore_errors=True)
    return main_event(c, r, "fit")


def main_calib(item):
    import qsonic.scripts.qsonic_calib as qc
    k, c, tmp, seed = item
    d = os.path.join(tmp, f"mcal{k}")
    rng = np.random.default_rng([seed, 79, k])
    files = [[(100 + 20 * f + i, 2.) for i in range(12)] for f in range(4)]
    w = c["what"]
    write_delta_files(d, rng, [] if w == "nofiles" else files)
    os.makedirs(d + "/out")
    if w == "delta":
        f = f"{d}/delta-{3 * (c['pos'] % 4)}.fits"
        os.remove(f)
        junk(f, "text")
    argv = ["qsonic-calib", "-i", d, "-o", d + "/out", "--nvarbins", "8",
            "--nwbins", "6", "--wave1", "3600", "--wave2", "4800"]
    if w == "nolist":
        argv += ["--remove-targetid-list", d + "/none.txt"]

    def job(comm, rank, size):
        world.shrink_varlss()
        sys.argv = list(argv)
        qc.main()
    r = simmpi.run(job, c["size"])
    shutil.rmtree(d, ignore_errors=True)
    return main_event(c, r, "calib")


def main_event(c, r, script):
    return [{"k": "main", "script": script, "case": c, "expect": c["expect"],
             "size": r.size, "msg": r.first_error()[:1500],
             "res": [{"kind": k, "name": str(n)}
                     for k, n in zip(r.kind, r.name)]}]


def main_cases(rng, thorough):
    good, fit, cal = ["good", "mixed", "good", "good"], [], []
    for size in (1, 2, 3, 4) if thorough else (1, 3):
        a = dict(size=size, groups=good, pos=rng.randrange(12))
        fit += [dict(a, what="none", expect="ok"),
                dict(a, what="nocatalog", expect="error"),
                dict(a, what="badcatalog", expect="error"),
                dict(a, what="nobal", expect="error"),
                dict(a, what="none", groups=["masked", "invalid", "absent",
                                             "masked"], expect="error")]
        for w in ("spectra", "nospectra", "emptyspectra", "attributes",
                  "chi2", "delta"):
            for _ in range(3 if thorough else 1):
                fit.append(dict(a, what=w, expect="fault",
                                pos=rng.randrange(12)))
        cal += [dict(a, what="none", expect="ok"),
                dict(a, what="nofiles", expect="error"),
                dict(a, what="nolist", expect="error"),
                dict(a, what="delta", expect="fault")]
    return fit, cal


def run(chk):
    chk.model("RunAll", "RunAllBig.cfg" if chk.thorough else None)
    chk.model("RunAll", "RunAllBroken.cfg", expect_violation="Terminat")
    chk.model("RunAll", "RunAllNoAbort.cfg", expect_violation="Terminat")
    cases = chk.generate("Gen_RunAll", num=400 if chk.thorough else 70,
                         depth=6)
    import qsonic.scripts.qsonic_fit   # noqa: before forking
    import qsonic.scripts.qsonic_calib   # noqa
    # the corner cases of the distribution, for each way of coadding
    base = dict(kind="data", expo="disable", model="picca", fid=False,
                eta=False, hpx=False, dla=True, cal="add", cov=False,
                out=True, norm=True, reso=False)
    for coadd in ("before", "after", "disable"):
        for gr in (["good", "invalid", "masked"],
                   ["good", "onearm", "short"],
                   ["invalid", "masked", "absent"],
                   ["absent", "good", "absent"]):
            cases.append(dict(base, size=3, groups=gr, coadd=coadd))
    for expo in ("before", "after"):
        for gr in (["good", "invalid", "masked"],
                   ["good", "masked", "good"]):
            cases.append(dict(base, size=3, groups=gr, coadd="before",
                              expo=expo))
    for m in ("input", "true"):
        cases.append(dict(base, size=3, groups=["good", "masked", "absent"],
                          coadd="before", model=m, fid=True,
                          kind="mock" if m == "true" else "data"))
    scen = pmap(fit_run, [(k, c, chk.tmp, chk.seed)
                          for k, c in enumerate(cases)])
    cal = chk.generate("Gen_Calib")
    if not chk.thorough:
        chk.rng.shuffle(cal)
        cal = [c for c in cal if len(c["files"]) < c["size"]][:8] + cal[:22]
    scen += pmap(calib_run, [(k, c, chk.tmp, chk.seed)
                             for k, c in enumerate(cal)])
    mf, mc = main_cases(chk.rng, chk.thorough)
    scen += pmap(main_fit, [(k, c, chk.tmp, chk.seed)
                            for k, c in enumerate(mf)])
    scen += pmap(main_calib, [(k, c, chk.tmp, chk.seed)
                              for k, c in enumerate(mc)])
    chk.sample(scen[0][0])
    chk.sample(scen[-1][0])
    chk.validate("Trace_RunAll", scen)
