"""C06: bad pixels never contribute."""
import os
import shutil

import numpy as np

import forest
import world
from core import pmap

O = forest.ops
SEQ = [
    O("region", "sky", "noisecal", "fluxcal", "smooth", "cont", "weight",
      "chi2", "save", "addnoise", "smooth", "weight", "chi2", "save",
      "coadd", "chi2", "save"),
    O("region", "smooth", "weight", "cont", "weight", "chi2", "coadd",
      "save", ("smooth", {"s": 2}), "weight", "chi2", "save"),
    O("region", "fluxcal", ("smooth", {"s": 0}), "cont", ("weight",
      {"w": 2}), "slice", "save", "chi2"),
    O("simple", "region", "fluxcal", "noisecal", "smooth", "cont", "weight",
      "save", "chi2"),
    O(("region", {"r": 2}), "coadd", "sky", "smooth", "cont", "weight",
      "chi2", "save"),
    O("region", ("smooth", {"s": 2}), "cont", ("weight", {"w": 1}), "save",
      "chi2", ("region", {"r": 3})),
]


def history(item):
    seed, i, tmp, q, kw = item
    a = forest.one((seed, i, tmp, q, dict(kw, tweak=1)))
    b = forest.one((seed, i, tmp, q, dict(kw, tweak=2 + i)))
    cut = lambda ev: [{k: e[k] for k in ("k", "out", "post", "ret")
                       if k in e} for e in ev]
    return a + [{"k": "twin", "out": "ok", "a": cut(a), "b": cut(b),
                 "post": {}}]


def bad_values(v):
    """The same bad pixels in every survey, with values depending on v."""
    def tweak(s):
        pick = np.random.default_rng(5)
        for q in s.q:
            sets = [q["data"]] + [e["data"] for e in q["exps"]]
            for d in sets:
                for fl, iv, mk in d.values():
                    k = np.nonzero(pick.uniform(size=fl.size) < .12)[0]
                    t = pick.integers(0, 5, k.size)
                    mk[k[t == 0]] = 1
                    fl[k[t == 1]] = np.nan
                    iv[k[t == 2]] = np.nan
                    iv[k[t == 3]] = -1.
                    iv[k[t == 4]] = 0.
                forest.tweak_bad(d, v)
    return tweak


def quasars(rng, n, nexp=0):
    return [dict(tid=39627700846986001 + 37 * i, pix=100 + 7 * (i % 5),
                 survey="main" if i % 3 else "sv3", night=20210101,
                 z=float(rng.uniform(2.2, 3.1)), fate="good",
                 ra=5. + i, dec=2. + .1 * i, nexp=nexp) for i in range(n)]


def full(item):
    k, tmp, seed, c = item
    res = []
    for v in (1, 2 + k):
        d = os.path.join(tmp, f"full{k}-{v}")
        rng = np.random.default_rng([seed, 5, k])
        s = world.Survey(d, rng, quasars(rng, 40, c.get("nexp", 0)),
                         reso=c.get("reso", False), tweak=bad_values(v))
        o = list(c["opt"])
        if not c.get("reso"):
            o.append("--skip-resomat")
        if c.get("fid"):
            f = world.write_fiducial(f"{d}/fid.fits")
            o += ["--fiducial-meanflux", f, "--fiducial-varlss", f]
        if c.get("ncal"):
            o += ["--noise-calibration",
                  world.write_noisecal(f"{d}/ncal.fits")]
        if c.get("fcal"):
            o += ["--flux-calibration", world.write_fluxcal(f"{d}/fcal.fits")]
        if c.get("sky"):
            o += ["--sky-mask", forest.write_sky(
                f"{d}/sky.txt", [(4000., 4060.), (4300., 4310.)],
                [(1100., 1105.)])]
        if c.get("dla"):
            t = [q["tid"] for q in s.q][::3]
            o += ["--dla-mask", world.write_dla(
                f"{d}/dla.fits", t, np.full(len(t), 2.3),
                np.full(len(t), 20.3))]
        r = world.run_fit(world.fit_argv(
            s, d + "/out", "--keep-surveys", "main", "sv3", *o), 2)
        try:
            out = world.outputs(d + "/out")
        except Exception:
            out = {"deltas": [], "chi2": [], "attr": []}
        for e in out["chi2"]:
            e.pop("MPI_RANK", None)
        shutil.rmtree(d, ignore_errors=True)
        res.append(("ok" if r.all_ok else r.first_error()[-600:], out))
    return [{"k": "run", "out": "ok", "case": c, "outa": res[0][0],
             "outb": res[1][0], "a": res[0][1], "b": res[1][1]}]


CASES = [
    {"opt": [], "ncal": True, "fcal": True, "sky": True},
    {"opt": ["--coadd-arms", "after", "--var-fit-eta"], "dla": True},
    {"opt": ["--coadd-arms", "before", "--smoothing-scale", "0"],
     "reso": True, "fid": True, "sky": True},
    {"opt": ["--exposures", "after", "--coadd-arms", "disable"], "nexp": 2,
     "fcal": True},
    {"opt": ["--varlss-as-additive-noise", "--normalize-stacked-flux",
             "--coadd-arms", "disable"], "ncal": True, "fid": True,
     "reso": True},
    {"opt": ["--exposures", "before", "--save-by-hpx"], "nexp": 2,
     "ncal": True, "sky": True},
]


def run(chk):
    chk.model("MC_Bad")
    for v in ("Clean", "Restore", "Blank"):
        chk.model("MC_Bad", f"MC_Bad{v}.cfg", expect_violation="Indep")
    import qsonic.scripts.qsonic_fit   # noqa: before forking
    t = chk.thorough
    n = 1500 if t else 150
    items = [(chk.seed, i, chk.tmp, SEQ[i % len(SEQ)],
              {"bad": [.3, .6, .15][i % 3], "ndia": (5, 5, 5),
               "reso": False if i % 2 else None}) for i in range(n)]
    # saving needs a resolution that peaks at the centre: not stored here
    for it in items:
        it[4]["reso"] = False
    if t:
        gen = chk.generate("Gen_Forest", num=1000, depth=30)
        items += [(chk.seed, 50000 + i, chk.tmp,
                   q + O("weight", "chi2", "save"), {"reso": False})
                  for i, q in enumerate(gen)]
    else:
        gen = chk.generate("Gen_Forest", num=60, depth=30)
        items += [(chk.seed, 50000 + i, chk.tmp,
                   q + O("weight", "chi2", "save"), {"reso": False})
                  for i, q in enumerate(gen)]
    scen = pmap(history, items)
    cases = CASES * (6 if t else 1)
    runs = pmap(full, [(k, chk.tmp, chk.seed, c)
                       for k, c in enumerate(cases)])
    chk.sample(scen[0][0])
    chk.notes.append({"histories": len(scen), "full_run_pairs": len(runs),
                      "deltas_compared": [len(r[0]["a"]["deltas"])
                                          for r in runs]})
    chk.validate("Trace_C06", scen)
    chk.validate("Trace_C06", runs)
