"""C26: exposures processed after the fit."""
import os
import shutil

import numpy as np

import forest
import maskdrv
import pipedrv
import world
from core import num, nums, pmap

L1, L2 = 1050., 1178.


def scenario(item):
    k, tmp, seed, c = item
    d = os.path.join(tmp, f"exp{k}")
    rng = np.random.default_rng([seed, 26, k])
    three = c.get("three")
    DW = float(rng.choice([16., 12.8, 11.2]))
    # later pixels hold more targets
    pick = rng.choice(5, 45, p=[.05, .1, .15, .3, .4])
    pick[:5] = range(5)
    w2 = 5400. if three else 4800.
    q = []
    for i in range(34):
        q.append(dict(z=round(float(rng.uniform(2.2, 3.5 if three else 3.1)),
                              5), fate="good", play="some"))
    for i in range(8):
        q.append(dict(z=round(float(rng.uniform(3.08, 3.18) if three
                                    else rng.uniform(2.75, 3.05)), 5),
                      fate="good", play="arms"))
    for i in range(3):
        q.append(dict(z=2.6 + .1 * i, fate="invalid", play="some"))
    for i, x in enumerate(q):
        x.update(tid=39627700846986001 + 37 * i, pix=100 + 7 * int(pick[i]),
                 survey="main" if i % 4 else "sv3", night=20210101,
                 ra=5. + i, dec=2. + .1 * i, nexp=int(rng.integers(1, 4)))
        x.update({"VMIN_CIV_450": -np.ones(5), "VMAX_CIV_450": -np.ones(5),
                  "VMIN_CIV_2000": -np.ones(3),
                  "VMAX_CIV_2000": -np.ones(3)})
        if c.get("bal") and i % 3 == 0:
            x.update(maskdrv.bal_list(rng))

    def hide(data, arms, f):
        for a in arms:
            fl, iv, mk = data[a]
            mk = mk.copy()
            mk[f(a)] = 1
            data[a] = (fl, iv, mk)

    def tweak(s):
        arms = list(s.wave)
        for x in s.q:
            def f(a):
                w = s.wave[a]
                return (w >= (1 + x["z"]) * 1000) & (w < (1 + x["z"]) * 1200)
            if x["play"] == "arms":
                # the coadd lacks arms that exposures have and vice versa
                n = int(rng.integers(1, len(arms)))
                apart = (three or 0) and [y["tid"] for y in s.q].index(
                    x["tid"]) % 4
                if apart not in (1, 2):
                    hide(x["data"], rng.permutation(arms)[:n], f)
                if apart == 1:   # opposite ends of the forest
                    hide(x["data"], arms[1:], f)
                elif apart == 2:
                    hide(x["data"], arms[:-1], f)
            for e in x["exps"]:
                t = rng.uniform()
                if x["play"] == "arms" and apart in (1, 2):
                    hide(e["data"], arms[:-1] if apart == 1 else arms[1:], f)
                elif x["play"] == "arms":
                    hide(e["data"], rng.permutation(arms)[
                        :int(rng.integers(0, len(arms)))], f)
                elif t < .15:
                    hide(e["data"], [str(rng.choice(arms))], f)
                elif t < .25:
                    for a in arms:       # short
                        fl, iv, mk = e["data"][a]
                        mk = np.where(rng.uniform(size=mk.size) < .8, 1, mk)
                        e["data"][a] = (fl, iv, mk)
                elif t < .4:             # faint
                    g = 10**rng.uniform(-2, -.5)
                    for a in arms:
                        fl, iv, mk = e["data"][a]
                        e["data"][a] = (fl, iv * g, mk)
    s = world.Survey(d, rng, q, bal=True, dwave=DW, tweak=tweak, w2=w2,
                     arms=("B", "R", "Z") if three else ("B", "R"))
    fd = world.write_fiducial(f"{d}/fid.fits", w2=5600.)
    o = ["--skip-resomat", "--fiducial-meanflux", fd, "--fiducial-varlss",
         fd, "--coadd-arms", c["coadd"], "--skip", str(c["skip"]),
         "--forest-w1", num(L1), "--forest-w2", num(L2),
         "--keep-surveys", "main", "sv3",
         f"--min-rsnr={c['minr']}", f"--min-forestsnr={c['minf']}"]
    if three:
        o += ["--arms", "B", "R", "Z"]
    if c.get("hpx"):
        o.append("--save-by-hpx")
    if c.get("norm"):
        o.append("--normalize-stacked-flux")
    op = {"w1": num(s.w1), "w2": num(s.w2), "l1": num(L1), "l2": num(L2),
          "dw": num(DW), "minr": str(c["minr"]), "minf": str(c["minf"]),
          "skip": str(c["skip"]), "coadd": "disable"
          if c["coadd"] == "disable" else "before", "noise": False,
          "flux": False, "add": False, "eta": pipedrv.NOT, "sf": pipedrv.NOT,
          "vl": pipedrv.NOT, "sky": maskdrv.NOSKY, "limit": "0.8"}
    if c.get("noise"):
        op["noise"] = True
        op["eta"] = pipedrv.table(rng, .8, 1.4, 3600., 200., 10)
        o += ["--noise-calibration", world.write_noisecal(
            f"{d}/ncal.fits", dw=200., n=10,
            eta=np.array(op["eta"]["f"], float), vl=np.full(10, .02))]
    if c.get("flux"):
        op["flux"] = True
        op["sf"] = pipedrv.table(rng, .9, 1.1, 3600., 40., 60)
        o += ["--flux-calibration", world.write_fluxcal(
            f"{d}/fcal.fits", dw=40., n=60,
            sf=np.array(op["sf"]["f"], float))]
    if c.get("sky"):
        op["sky"] = {"obs": [nums([4300., 4364.]), nums([4010., 4031.])],
                     "rf": [nums([1101., 1106.5])]}
        o += ["--sky-mask", forest.write_sky(
            f"{d}/sky.txt", [[float(y) for y in x]
                             for x in op["sky"]["obs"]],
            [[float(y) for y in x] for x in op["sky"]["rf"]])]
    if c.get("bal"):
        o.append("--bal-mask")
    dl = []
    if c.get("dla"):
        for x in q[::3]:
            zd = rng.uniform((1 + x["z"]) * 1060 / 1215.67,
                             (1 + x["z"]) * .95) - 1
            dl.append((x["tid"], round(float(zd), 5),
                       round(float(rng.uniform(20, 20.6)), 3)))
        o += ["--dla-mask", world.write_dla(
            f"{d}/dla.fits", [r[0] for r in dl], [r[1] for r in dl],
            [r[2] for r in dl])]
    r1 = world.run_fit(world.fit_argv(s, d + "/o1", *o),
                       c["size"], easy=True)
    r2 = world.run_fit(world.fit_argv(s, d + "/o2", *o, "--exposures",
                                      "after"), c["size"], easy=True)
    ok = r1.all_ok and r2.all_ok
    a, b = ({"deltas": [], "chi2": []},) * 2
    if ok:
        a, b = world.outputs(d + "/o1"), world.outputs(d + "/o2")
    shutil.rmtree(d, ignore_errors=True)

    def ents(o):
        out = []
        for y in o["deltas"]:
            p = y["ext"].split("-")
            out.append({"tid": p[0], "arm": p[1],
                        "exp": p[2] if len(p) > 2 else "", "lam": y["lam"],
                        "delta": y["delta"] or y["blind"],
                        "ivar": y["ivar"], "cont": y["cont"]})
        return out
    e = {"k": "expo", "out": "ok" if ok else
         (r1 if not r1.all_ok else r2).first_error()[-600:],
         "o": op, "case": c, "allsaved": c["skip"] == 0,
         "coadd": ents(a), "ents": ents(b), "specs": [],
         "rows": [{"tid": x["TARGETID"],
                   "valid": x["CONT_valid"] in ("1", "True", "true")}
                  for x in b["chi2"]]}
    for x in q:
        for y in x["exps"]:
            e["specs"].append({
                "tid": str(x["tid"]), "exp": str(y["expid"]),
                "z": num(x["z"]), "exactr": "", "exactf": "",
                "exactlen": False,
                "raw": [{"arm": a, "wave": nums(s.wave[a]),
                         "flux": nums(v[0]), "ivar": nums(v[1]),
                         "mask": nums(v[2])} for a, v in y["data"].items()],
                "bal": maskdrv.bal_rec(x) if c.get("bal")
                else maskdrv.NOBAL,
                "dla": [{"z": num(t[1]), "n": num(t[2])} for t in dl
                        if t[0] == x["tid"]]})
    return [e]


def run(chk):
    chk.model("MC_Match")
    import qsonic.scripts.qsonic_fit   # noqa: before forking
    R = chk.rng
    fixed = [dict(coadd="before"), dict(coadd="disable", three=1),
             dict(coadd="after", noise=1), dict(coadd="before", three=1,
                                                sky=1),
             dict(coadd="disable", flux=1, noise=1, hpx=1),
             dict(coadd="after", three=1, dla=1), dict(coadd="before", bal=1,
                                                       norm=1)]
    cs = []
    for j in range(80 if chk.thorough else 12):
        c = dict(fixed[j]) if j < len(fixed) else dict(
            coadd=R.choice(["before", "after", "disable"]))
        if j >= len(fixed):
            for o in ("three", "noise", "flux", "sky", "bal", "dla", "hpx",
                      "norm"):
                if R.random() < .35:
                    c[o] = 1
        c["size"] = 1 + j % 4
        c["skip"] = R.choice([0, .1, .2, .25])
        c["minr"] = R.choice([-1000, 0, 3.1, 5.2])
        c["minf"] = R.choice([-1000, 0, 3.1, 5.2])
        if j in (1, 3):
            c.update(skip=0, minr=-1000, minf=-1000)
        cs.append(c)
    scen = pmap(scenario, [(k, chk.tmp, chk.seed, c)
                           for k, c in enumerate(cs)])
    chk.sample(str(scen[0])[:3000])
    chk.validate("Trace_C26", scen)
