"""Whole runs for the selection (C15) and for the data that are saved (C29):
quasars that comfortably pass every cut, and probes at the limits."""
import os
import shutil

import numpy as np

import forest
import maskdrv
import simmpi
import world
from core import num, nums

L1, L2, DW = 1050., 1178., 16.
NOT = {"x0": "0", "dx": "1", "f": ["1", "1"]}


def _probe(rng, q, s, c):
    """Pixels of a probe, for the cut it probes."""
    d = {}
    kind = q["probe"]
    q["exactr"] = q["exactf"] = ""
    for a, w in s.wave.items():
        n = w.size
        f = (w >= max(s.w1, (1 + q["z"]) * L1)) \
            & (w < min(s.w2, (1 + q["z"]) * L2))
        red = w >= (1 + q["z"]) * 1215.67
        fl = 2. + .25 * rng.integers(-3, 4, n)
        iv = np.full(n, 4.)
        mk = np.zeros(n, dtype='i4')
        if kind == "red":
            # the red side is only in one arm; sums are exact
            fl[red] = .25 * q["level"] + .25 * rng.integers(-1, 2, n)[red]
        elif kind == "snr":
            if a != "B":
                mk[f] = 1
            fl[f] = .25 * q["level"] + .25 * rng.integers(-1, 2, n)[f]
            if q["level"] < 0:
                fl[~f] = 3.
        elif kind == "mix":
            # one arm well above zero, another below
            fl[f] = q["level"] * (.5 if a == "B" else -.375) \
                + .0625 * rng.integers(-1, 2, n)[f]
        elif kind == "twice":
            # the same wavelengths in two arms
            m = c["need"] + q["level"]
            k = w[f & (w >= 4208.) & (w < 4401.)]
            k = np.concatenate((k, w[f & (w >= 4401.)]))[:max(m, 0)]
            mk[f & ~np.isin(w, k)] = 1
        elif kind == "len":
            # q["level"] more good pixels than the limit
            mk[f] = 1
            if a == q["arm"]:
                k = np.nonzero(f)[0]
                m = c["need"] + q["level"]
                mk[rng.permutation(k)[:max(m, 0)]] = 0
        elif kind == "sky":
            # only the sky mask makes it short
            mk[f] = 1
            inside = (w >= 4300) & (w < 4364)
            k = np.nonzero(f & ~inside)[0]
            if a == q["arm"]:
                mk[f & inside] = 0
                mk[rng.permutation(k)[:c["need"] + q["level"]]] = 0
        elif kind == "all":
            # nothing but masked pixels is left
            mk[f] = 1
            if a == q["arm"]:
                mk[f & (w >= 4300) & (w < 4364)] = 0
        d[a] = (fl, iv, mk)
    return d


def _levels(rng, q, s, c):
    """The reported signal to noise of the exact probes."""
    def one(x):
        sp = forest.make_spectrum(
            forest.catrow(x["z"]), s.wave, x["data"], {})
        sp.set_forest_region(s.w1, s.w2, L1, L2)
        if c["coadd"] == "before":
            sp.coadd_arms_forest()
        return float(sp.rsnr), float(sp.get_effective_meansnr())

    def job():
        return [one(x) for x in q]
    kind, name, v = simmpi.isolated(job)
    if kind != "ok":
        raise RuntimeError(f"{name} {v}")
    return v


def table(rng, lo, hi, w1, dw, n):
    return {"x0": num(w1), "dx": num(dw),
            "f": nums(np.round(rng.uniform(lo, hi, n), 4))}


def scenario(item):
    k, tmp, seed, c, what = item
    d = os.path.join(tmp, f"pipe{k}")
    rng = np.random.default_rng([seed, 15, k])
    q = []
    nb = c.get("n", 32)
    for i in range(nb):
        q.append(dict(z=round(float(rng.uniform(2.2, 3.1)), 5), fate="good"))
    c["need"] = int(4 * (L2 - L1) / DW * float(c["skip"]))
    if c.get("probes", True):
        for lv in (1, 2, 2, 3, 0, -1):
            q.append(dict(z=round(float(rng.uniform(2.95, 3.1)), 5),
                          probe="red", level=lv))
        for lv in (1, 2, 3, 0, -2):
            q.append(dict(z=round(float(rng.uniform(2.4, 2.9)), 5),
                          probe="snr", level=lv))
        for lv in (-1, 0, 1, 2):
            q.append(dict(z=3., probe="len", level=lv, arm="R"))
        q.append(dict(z=3., probe="len", level=5, arm="R"))
        for lv in (-3, -1, 0, 1, 3):
            q.append(dict(z=3., probe="twice", level=lv))
        for lv in (1, 2, 3, -2):
            q.append(dict(z=round(float(rng.uniform(2.65, 2.85)), 5),
                          probe="mix", level=lv))
        if c.get("sky"):
            q.append(dict(z=3., probe="sky", level=0, arm="R"))
            q.append(dict(z=3., probe="sky", level=1, arm="R"))
            q.append(dict(z=3., probe="all", level=1, arm="R"))
        zr = [3600 / L2 - 1, 4800 / L1 - 1]
        for z in (zr[0] + .01, zr[0] + .2, zr[1] - .2, zr[1] - .01, 2.05,
                  3.4, zr[0] - .05, zr[1] + .05):
            q.append(dict(z=round(float(z), 5), probe="z", level=0))
    for i, x in enumerate(q):
        x.update(tid=39627700846986001 + 37 * i, pix=100 + 7 * (i % 5),
                 tile=80 + i % 5, petal=i % 3, survey="main",
                 night=20210101, ra=5. + i, dec=2. + .1 * i,
                 nexp=2 if c.get("expo") and "probe" not in x else
                 1 if c.get("expo") else 0)
        x.setdefault("fate", "good")
        x.update(maskdrv.bal_list(rng) if c.get("bal") and i % 3 == 0 else
                 {"VMIN_CIV_450": -np.ones(5), "VMAX_CIV_450": -np.ones(5),
                  "VMIN_CIV_2000": -np.ones(3),
                  "VMAX_CIV_2000": -np.ones(3)})

    def tweak(s):
        for x in s.q:
            x["exactr"] = x["exactf"] = ""
            if "probe" in x:
                x["data"] = _probe(rng, x, s, c)
                if c.get("expo"):
                    x["exps"] = [{"expid": 5000, "data": x["data"]}]
    s = world.Survey(d, rng, q, kind=c["kind"], bal=True, dwave=DW,
                     tweak=tweak)
    minr, minf = "-1000", "-1000"
    if c.get("cuts"):
        ex = [x for x in q if x.get("probe") == "red"]
        for x, v in zip(ex, _levels(rng, ex, s, c)):
            x["exactr"] = num(v[0])
        if "r" in c["cuts"]:
            minr = ex[1]["exactr"]
        ef = [x for x in q if x.get("probe") == "snr"]
        for x, v in zip(ef, _levels(rng, ef, s, c)):
            x["exactf"] = num(v[1])
        if "f" in c["cuts"]:
            minf = ef[1]["exactf"]
    f = world.write_fiducial(f"{d}/fid.fits")
    o = ["--skip-resomat", "--fiducial-meanflux", f, "--fiducial-varlss", f,
         "--coadd-arms", c["coadd"], "--skip", str(c["skip"]),
         "--forest-w1", num(L1), "--forest-w2", num(L2)]
    if c.get("cuts") == "d":        # as it comes
        minr = minf = "0"
    else:
        o += [f"--min-rsnr={minr}", f"--min-forestsnr={minf}"]
    if c["kind"] == "mock":
        o.append("--mock-analysis")
    if c["kind"] == "tile":
        o.append("--tile-format")
    if c.get("expo"):
        o += ["--exposures", "before"]
    if "order" in c:
        o += ["--cont-order", str(c["order"])]
    if "smooth" in c:
        o += ["--smoothing-scale", str(c["smooth"])]
    op = {"w1": num(s.w1), "w2": num(s.w2), "l1": num(L1), "l2": num(L2),
          "dw": num(DW), "minr": minr, "minf": minf, "skip": str(c["skip"]),
          "coadd": c["coadd"], "noise": False, "flux": False, "add": False,
          "eta": NOT, "sf": NOT, "vl": NOT, "sky": maskdrv.NOSKY,
          "limit": "0.8"}
    if c.get("noise"):
        op["noise"] = True
        op["eta"] = table(rng, .8, 1.4, 3600., 200., 7)
        op["vl"] = table(rng, .01, .03, 3600., 200., 7)
        o += ["--noise-calibration", world.write_noisecal(
            f"{d}/ncal.fits", dw=200., n=7,
            eta=np.array(op["eta"]["f"], float),
            vl=np.array(op["vl"]["f"], float))]
        if c["noise"] == "add":
            op["add"] = True
            o.append("--varlss-as-additive-noise")
    if c.get("flux"):
        op["flux"] = True
        op["sf"] = table(rng, .9, 1.1, 3600., 40., 40)
        o += ["--flux-calibration", world.write_fluxcal(
            f"{d}/fcal.fits", dw=40., n=40,
            sf=np.array(op["sf"]["f"], float))]
    if c.get("sky"):
        op["sky"] = {"obs": [nums([4300., 4364.]), nums([4010., 4031.])],
                     "rf": [nums([1101., 1106.5])]}
        o += ["--sky-mask", forest.write_sky(
            f"{d}/sky.txt", [[float(y) for y in x]
                             for x in op["sky"]["obs"]],
            [[float(y) for y in x] for x in op["sky"]["rf"]])]
    if c.get("bal"):
        o.append("--bal-mask")
    dl = []
    if c.get("dla"):
        for x in q[:nb]:
            for _ in range(int(rng.choice([0, 0, 0, 1]))):
                zd = rng.uniform((1 + x["z"]) * 1060 / 1215.67,
                                 (1 + x["z"]) * .95) - 1
                dl.append((x["tid"], round(float(zd), 5),
                           round(float(rng.uniform(20, 20.6)), 3)))
        dl = dl or [(999, 2.5, 20.)]
        o += ["--dla-mask", world.write_dla(
            f"{d}/dla.fits", [r[0] for r in dl], [r[1] for r in dl],
            [r[2] for r in dl])]
    r = world.run_fit(world.fit_argv(s, d + "/out", *o), c["size"], easy=True)
    out = {"deltas": [], "chi2": []}
    if r.all_ok:
        out = world.outputs(d + "/out")
    shutil.rmtree(d, ignore_errors=True)
    e = {"k": what, "out": "ok" if r.all_ok else r.first_error()[-600:],
         "o": op, "specs": [], "case": {a: b for a, b in c.items()},
         "rows": [{"tid": x["TARGETID"],
                   "valid": x["CONT_valid"] in ("1", "True", "true"),
                   "arms": x["ARMS"].split(","), "rsnr": x["RSNR"],
                   "snr": x["MEANSNR"], "z": x["Z"], "pix": x["HPXPIXEL"],
                   "rank": x["MPI_RANK"], "chi2": x["CONT_chi2"],
                   "dof": x["CONT_dof"], "x": x["CONT_x"],
                   "xcov": x["CONT_xcov"]} for x in out["chi2"]],
         "ents": [], "coef": 1 + c.get("order", 1)}
    for x in q:
        lst = [("", x["data"])] if not c.get("expo") else \
            [(str(y["expid"]), y["data"]) for y in x["exps"]]
        for ex, data in lst:
            e["specs"].append({
                "tid": str(x["tid"]), "exp": ex, "z": num(x["z"]),
                "pix": str(x["pix"]),
                "exactr": x["exactr"], "exactf": x["exactf"],
                "exactlen": x["z"] == 3. and float(c["skip"]) in (0., .25,
                                                                  .5),
                "raw": [{"arm": a, "wave": nums(s.wave[a]),
                         "flux": nums(v[0]), "ivar": nums(v[1]),
                         "mask": nums(v[2])} for a, v in data.items()],
                "bal": maskdrv.bal_rec(x) if c.get("bal")
                else maskdrv.NOBAL,
                "dla": [{"z": num(y[1]), "n": num(y[2])} for y in dl
                        if y[0] == x["tid"]]})
    for y in out["deltas"]:
        p = y["ext"].split("-")
        e["ents"].append({
            "tid": p[0], "arm": p[1], "exp": p[2] if len(p) > 2 else "",
            "lam": y["lam"], "delta": y["delta"] or y["blind"],
            "ivar": y["ivar"], "cont": y["cont"], "weight": y["weight"],
            "file": y["file"]})
    return [e]


def cases(chk, n):
    R = chk.rng
    fixed = [
        dict(coadd="before", kind="data", skip=.25, cuts="rf"),
        dict(coadd="disable", kind="data", skip=.25, cuts="rf", sky=1),
        dict(coadd="before", kind="data", skip=.25, cuts="r", sky=1,
             noise="eta"),
        dict(coadd="after", kind="data", skip=.25, cuts="f", flux=1),
        dict(coadd="disable", kind="mock", skip=0, cuts="rf", noise="eta",
             sky=1),
        dict(coadd="before", kind="tile", skip=.5, cuts="", bal=1),
        dict(coadd="disable", kind="data", skip=.25, cuts="rf", expo=1,
             flux=1, noise="eta"),
        dict(coadd="before", kind="data", skip=.2, cuts="f", expo=1, sky=1),
        dict(coadd="disable", kind="data", skip=.2, cuts="d")]
    out = []
    for j in range(n):
        if j < len(fixed):
            c = dict(fixed[j])
        else:
            c = dict(coadd=R.choice(["before", "before", "disable",
                                     "after"]),
                     kind=R.choice(["data", "data", "mock", "tile"]),
                     skip=R.choice([.25, .25, 0, .5, .1, .3]),
                     cuts=R.choice(["", "r", "f", "rf", "rf", "d"]))
            for o, v in (("sky", [1]), ("noise", ["eta", "add"]),
                         ("flux", [1]), ("bal", [1]), ("dla", [1])):
                if R.random() < .35:
                    c[o] = R.choice(v)
            if c["kind"] == "data" and R.random() < .25:
                c["expo"] = 1
        c["size"] = 1 + j % 4
        out.append(c)
    return out
