"""C17: saved deltas."""
import glob
import os
import shutil

import numpy as np

import forest
import runs
import simmpi
import world
from core import num, nums, pmap


def _spec(rng, g, dw, j, o):
    """A spectrum ready to be saved, and its record."""
    data, rs = forest.raw(rng, g, o["reso"], bad=.25, ndia=(5, 5, 5))
    for a in rs:
        rs[a][:] = np.array([.05, .2, .6, .2, .05])[:, None] \
            * rng.uniform(.9, 1.1, rs[a].shape[1])
    neg = [a for a in g if rng.uniform() < .15]
    dead = [a for a in list(g)[1:] if rng.uniform() < .25]
    for a, (fl, iv, mk) in data.items():
        mk[0] = 0
        fl[0], iv[0] = 3., 1.
        if a in neg:             # negative mean signal to noise
            fl[:] = -np.abs(fl) - .5
        if a in dead:
            # an arm without signal although it has good pixels: the
            # signal to noise cancels exactly
            mk[:] = 1
            mk[:2] = 0
            fl[:2], iv[:2] = [2., -2.], 4.
    u = 1e3 if j % 5 == 3 else 1.       # in other units
    v = 1e6 if j % 5 == 2 else u**2     # or with hardly any information
    data = {a: (fl * u, iv / v, mk) for a, (fl, iv, mk) in data.items()}
    z = float(rng.choice([2.5, 2.25, 3.0, 2.296875]))
    ex, extra = "", {}
    if o["exp"]:
        ex = str(int(rng.integers(1, 10**6)))
        extra = {"EXPID": int(ex)}
        for k in ("TILEID", "FIBER", "PETAL_LOC", "NIGHT"):
            if rng.uniform() < .7:
                extra[k] = int(rng.integers(0, 10**7))
    if o["exp"]:            # several exposures of a target
        j = j // 2
    tid = int(rng.choice([39627700846986001, 7, 2**62 + 3]) if not o["exp"]
              else o["base"]) + 3 * j
    pix = int(o["pix"][j % len(o["pix"])])
    ra, dec = round(float(rng.uniform(0, 360)), 5), \
        round(float(rng.uniform(-89, 89)), 5)
    s = forest.make_spectrum(
        forest.catrow(z, tid, pix, ra, dec, extra), g, data, rs)
    s.set_forest_region(3000., 9000., 1000., 2000.)
    sc = float(rng.choice([0., 0., 16., 2.]))
    if sc:
        s.set_smooth_forestivar(sc)
    s.cont_params['valid'] = bool(rng.uniform() < .75)
    if s.cont_params['valid'] or rng.uniform() < .5:
        s.cont_params['cont'] = {
            a: u * np.round(rng.uniform(.3, 4.)
                            + rng.uniform(0, 1, w.size), 4)
            for a, w in s.forestwave.items()}
        how = rng.integers(0, 3)
        if how == 1:
            s.set_forest_weight()
        elif how == 2:
            s.set_forest_weight(lambda w: .1 + 0 * w, lambda w: 1.2 + 0 * w)
    return s, {"s": world.project(s), "tid": str(tid), "pix": str(pix),
               "ra": num(ra), "dec": num(dec), "z": num(z), "exp": ex,
               "extra": [{"key": k, "v": str(v)} for k, v in extra.items()],
               "dw": num(dw), "scale": num(sc)}


def read_all(d):
    out, files = [], []
    for p in sorted(glob.glob(d + "/delta-*.fits")):
        files.append(os.path.basename(p))
        out += world.read_delta_file(p)
    return out, files


def back(d):
    from qsonic.io import read_deltas
    out = []
    for p in sorted(glob.glob(d + "/delta-*.fits")):
        for x in read_deltas(p):
            out.append({"file": os.path.basename(p), "tid": str(x.targetid),
                        "wave": nums(x.wave), "delta": nums(x.delta),
                        "ivar": nums(x.ivar), "weight": nums(x.weight),
                        "cont": nums(x.cont), "snr": num(x.mean_snr),
                        "ra": num(x.ra), "dec": num(x.dec),
                        "reso": [] if x.reso is None
                        else nums(np.asarray(x.reso).T)})
    return out


def _save(seed, i, tmp):
    from types import SimpleNamespace
    from qsonic.io import save_deltas
    from qsonic.spectrum import Spectrum
    rng = np.random.default_rng([seed, 17, i])
    g, dw = forest.grids(rng)
    ev = []
    o = {"base": int(rng.choice([39627700846986001, 7, 2**62 + 3])),
         "reso": bool(rng.integers(0, 2)), "exp": bool(rng.integers(0, 3) == 0)}
    Spectrum.set_blinding(
        int(rng.choice([20210101, 20230101])), SimpleNamespace(
            mock_analysis=bool(rng.integers(0, 2)), forest_w1=1050.,
            skip_resomat=not o["reso"]))
    d = os.path.join(tmp, f"s{i}")
    os.makedirs(d)
    for t in range(int(rng.integers(1, 3))):
        # a second save replaces files of the same name
        o["pix"] = [int(x) for x in rng.choice([3, 12, 700, 1, 45678], 2)]
        n = int(rng.choice([0, 1, 2, 3, 5]))
        byhpx = bool(rng.integers(0, 2))
        for p in glob.glob(d + "/*.fits"):
            os.rename(p, f"{d}/delta-{rng.choice(o['pix'])}.fits"
                      if byhpx and n else f"{d}/delta-4.fits")
        old = set(os.listdir(d))
        sp = [_spec(rng, g, dw, j, o) for j in range(n)]
        e = {"k": "save", "out": "ok", "readable": "ok", "byhpx": byhpx,
             "rank": "4", "specs": [x[1] for x in sp], "ents": [],
             "back": [], "files": []}
        try:
            save_deltas([x[0] for x in sp], d, save_by_hpx=byhpx,
                        mpi_rank=None if byhpx and rng.integers(0, 2) else 4)
        except Exception as x:
            e["out"] = type(x).__name__ + " " + str(x)[:200]
        else:
            # files of an earlier save under names this one does not use
            mine = {f"delta-{x[1]['pix']}.fits" for x in sp} if byhpx \
                else {"delta-4.fits"}
            for f in old - mine:
                os.unlink(f"{d}/{f}")
            try:
                e["ents"], e["files"] = read_all(d)
                e["back"] = back(d)
            except Exception as x:
                e["readable"] = type(x).__name__ + " " + str(x)[:200]
        ev.append(e)
    shutil.rmtree(d)
    return ev


def save(item):
    kind, name, v = simmpi.isolated(_save, *item)
    return v if kind == "ok" else [{"k": "crash", "msg": str(v)[-900:]}]


def _split(e):
    p = e["ext"].split("-")
    return {"tid": p[0], "arm": p[1] if len(p) > 1 else "",
            "exp": p[2] if len(p) > 2 else "", "ext": e["ext"],
            "file": e["file"], "hdr": e["hdr"]}


def full(item):
    k, tmp, seed, c = item
    d = os.path.join(tmp, f"run{k}")
    rng = np.random.default_rng([seed, 171, k])
    s, argv, r = runs.fit(c, d, rng)
    e = {"k": "run", "out": "ok" if r.all_ok else r.first_error()[-500:],
         "readable": "ok", "byhpx": c["hpx"],
         "exposures": c["expo"] != "disable", "dw": num(s.dwave),
         "qso": [{"tid": str(q["tid"]), "pix": str(q["pix"]),
                  "z": num(q["z"]), "ra": num(q["ra"]),
                  "dec": num(q["dec"])} for q in s.q],
         "rows": [], "ents": [], "case": c}
    if r.all_ok:
        try:
            o = world.outputs(d + "/out")
            back(d + "/out/")
            e["ents"] = [_split(x) for x in o["deltas"]]
            e["rows"] = [{"tid": x["TARGETID"], "valid": x["CONT_valid"]
                          in ("1", "True", "true"),
                          "arms": x["ARMS"].split(","),
                          "rank": x["MPI_RANK"]} for x in o["chi2"]]
        except Exception as x:
            e["readable"] = type(x).__name__ + " " + str(x)[:200]
    shutil.rmtree(d, ignore_errors=True)
    return [e]


def run(chk):
    chk.model("MC_Save")
    chk.model("MC_Save", "MC_SaveSplit.cfg", expect_violation="Once")
    import qsonic.scripts.qsonic_fit   # noqa: before forking
    n = 3000 if chk.thorough else 160
    scen = pmap(save, [(chk.seed, i, chk.tmp) for i in range(n)])
    cases = []
    R = chk.rng
    for j in range(60 if chk.thorough else 9):
        c = dict(runs.BASE, size=1 + j % 4, skip=0,
                 groups=[["mixed", "good", "good", "masked"],
                         ["good", "invalid", "mixed", "onearm"],
                         ["mixed", "mixed", "absent", "good"]][j % 3],
                 coadd=["before", "after", "disable"][j % 3 if j < 6
                                                      else int(R.randrange(3))],
                 hpx=bool(j % 2), eta=bool(R.randrange(2)),
                 reso=bool(R.randrange(3) == 0),
                 expo=["disable", "disable", "after", "before"][j % 4])
        cases.append(c)
    scen += pmap(full, [(k, chk.tmp, chk.seed, c)
                        for k, c in enumerate(cases)])
    chk.sample(scen[0])
    chk.validate("Trace_C17", scen)
