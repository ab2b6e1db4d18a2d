"""C27: contradictory options are refused."""
import glob
import itertools
import logging
import os
import shutil
import sys

import fitsio
import numpy as np

import runs
import simmpi
import world
from core import nums, pmap

LIM = {"above": (3700., 4800.), "equal": (4000., 4000.),
       "below": (4800., 3700.)}
SKIP = {"in": ".35", "zero": "0", "one": "1", "low": "-0.01",
        "high": "1.0001", "nan": "nan", "text": "some"}


def argv(o, out, rng):
    a = ["qsonic-fit", "-i", "/nonexistent/in", "-o", out, "--catalog",
         "/nonexistent/catalog.fits"]
    b = []
    if o["model"] != "unset":
        b.append(["--continuum-model", o["model"]])
    for k, x in (("true", ["--true-continuum"]), ("tile", ["--tile-format"]),
                 ("mock", ["--mock-analysis"]), ("hpx", ["--save-by-hpx"]),
                 ("dir", ["--input-continuum-dir", "/nonexistent/ic"]),
                 ("mf", ["--fiducial-meanflux", "/nonexistent/f"]),
                 ("vl", ["--fiducial-varlss", "/nonexistent/f"])):
        if o[k]:
            b.append(x)
    if o["exp"] != "unset":
        b.append(["--exposures", o["exp"]])
    for k, n1, n2, sc in (("wave", "--wave1", "--wave2", 1.),
                          ("forest", "--forest-w1", "--forest-w2", .25)):
        if o[k] == "nan":
            b.append([n1, "nan"] if rng.uniform() < .5 else [n2, "nan"])
        elif o[k] != "above" or rng.uniform() < .5:
            x, y = LIM[o[k]]
            b.append([n1, str(x * sc), n2, str(y * sc)])
    if o["skip"] != "unset":
        b.append([f"--skip={SKIP[o['skip']]}"])
    return a + [x for i in rng.permutation(len(b)) for x in b[i]]


def attempt(comm, rank, size, a):
    import qsonic.scripts.qsonic_fit as qf
    from qsonic import QsonicException
    sys.argv = list(a)
    try:
        qf.mpi_run_all(comm, rank, size)
        return "ran"
    except SystemExit:
        return "exit"
    except QsonicException:
        return "read"
    except Exception as e:
        return repr(e)[:200]


def opts(c):
    return {k: v for k, v in c.items() if k != "done"}


def solo(cases, tmp, k, seed):
    """Many attempts, one process each time."""
    logging.disable(logging.CRITICAL)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 2)
    rng = np.random.default_rng([seed, 27, k])
    rows = []
    for i, c in enumerate(cases):
        out = f"{tmp}/a{k}-{i}"
        r = attempt(simmpi.SoloComm(), 0, 1, argv(c, out, rng))
        rows.append({"o": opts(c), "out": [r], "made": os.path.exists(out)})
        if os.path.isdir(out):
            os.rmdir(out)
    return rows


def rows(item):
    cases, tmp, k, seed = item
    kind, name, val = simmpi.isolated(solo, cases, tmp, k, seed)
    if kind != "ok":
        val = [{"o": opts(cases[0]), "out": [f"{name} {val}"[-300:]],
                "made": False}]
    return [{"k": "rows", "rows": val}]


def several(item):
    """One attempt on several processes."""
    k, c, tmp, seed = item
    rng = np.random.default_rng([seed, 271, k])
    out = f"{tmp}/m{k}"
    a = argv(c, out, rng)
    size = 2 + k % 3

    def job(comm, rank, sz):
        return attempt(comm, rank, sz, a)
    r = simmpi.run(job, size, timeout=60)
    v = r.value if r.all_ok else [r.first_error()[-300:]]
    e = {"k": "rows", "rows": [{"o": opts(c), "out": list(v),
                                "made": os.path.exists(out)}]}
    shutil.rmtree(out, ignore_errors=True)
    return [e]


def whole(item):
    k, tmp, seed, (model, true, dr, fid) = item
    rng = np.random.default_rng([seed, 272, k])
    d = os.path.join(tmp, f"w{k}")
    c = dict(runs.BASE, kind="mock", model="picca", fid=fid, size=1,
             groups=["good", "good"], n=16)
    s = world.Survey(d, rng, runs.quasars(c, rng), kind="mock")
    for f in glob.glob(f"{d}/**/truth-*.fits", recursive=True):
        with fitsio.FITS(f, "rw") as ft:
            t = ft["TRUE_CONT"].read()
            t["TRUE_CONT"] = 7.
            ft["TRUE_CONT"].write(t)
    o = runs.options(c, d, s, rng)
    if dr:
        os.makedirs(f"{d}/ic")
        from healpy import ang2pix
        p = {}
        for q in s.q:
            p.setdefault(int(ang2pix(8, q["ra"], q["dec"], lonlat=True,
                                     nest=True)), []).append(q["tid"])
        for h, t in p.items():
            b = np.zeros(len(t), dtype=[("TARGETID", "i8")])
            b["TARGETID"] = t
            with fitsio.FITS(f"{d}/ic/input-continuum-8-{h}.fits", "rw") as f:
                f.write(b, extname="FIBERMAP")
                f.write(np.full((len(t), 60), 11.), extname="CONTINUA",
                        header={"WAVE1": 1000., "DWAVE": 4.})
        o += ["--input-continuum-dir", f"{d}/ic"]
    if model != "unset":
        o += ["--continuum-model", model]
    if true:
        o.append("--true-continuum")
    r = world.run_fit(world.fit_argv(s, f"{d}/out", *o), 1, easy=True)
    e = {"k": "model", "out": "ok", "ents": [],
         "o": {"model": model, "true": true, "dir": dr, "mock": True,
               "mf": fid, "vl": fid}}
    if not r.all_ok:
        e["out"] = r.first_error()[-700:]
    else:
        for y in world.outputs(f"{d}/out")["deltas"][:6]:
            w = np.array([float(x) for x in y["lam"]])
            f = .8 + 1e-4 * (w - 4000) if fid else np.ones_like(w)
            e["ents"].append({"cont": y["cont"], "mf": nums(f)})
    shutil.rmtree(d, ignore_errors=True)
    return [e]


def run(chk):
    chk.model("MC_Args")
    for v, p in (("early", "Refused"), ("only", "Refused"),
                 ("late", "Refused"), ("silent", "emporal")):
        chk.model("MC_Args", f"MC_Args_{v}.cfg", expect_violation=p)
    import qsonic.scripts.qsonic_fit   # noqa: before forking
    cs = chk.generate("Gen_Args")
    if chk.thorough:
        cs += chk.generate("Gen_Args", "Gen_ArgsAll.cfg")
    else:
        cs += chk.generate("Gen_Args", "Gen_ArgsAll.cfg", num=1500, depth=3)
    n = 150
    scen = pmap(rows, [(cs[i:i + n], chk.tmp, i, chk.seed)
                       for i in range(0, len(cs), n)])
    R = chk.rng
    # mostly right, so that the rare contradiction decides
    some = []
    for c in R.sample(cs, 300 if chk.thorough else 40):
        c = dict(c)
        if R.random() < .7:
            c.update(wave="above", forest="above", skip="unset")
        some.append(c)
    scen += pmap(several, [(k, c, chk.tmp, chk.seed)
                           for k, c in enumerate(some)])
    ways = [w for w in itertools.product(
        ("unset", "picca", "true", "input"), (False, True), (False, True),
        (False, True))
        if not ((w[1] or w[0] == "true") and (w[2] or w[0] == "input"
                                              or not w[3]))
        and not (w[0] == "input" and not w[2])]
    scen += pmap(whole, [(k, chk.tmp, chk.seed, w)
                         for k, w in enumerate(ways)])
    chk.sample(str(scen[0])[:3000])
    chk.validate("Trace_C27", scen)
