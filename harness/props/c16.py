"""C16: blinding."""
import glob
import os
import shutil
from types import SimpleNamespace

import numpy as np

import deltadrv
import forest
import simmpi
import world
from core import num, pmap

STEP = ["20201218", "20210513", "20210514", "20210731", "20210801",
        "20220731", "20220801", "20240101"]


def ents(paths):
    out = []
    for p in paths:
        for e in world.read_delta_file(p):
            out.append({"cols": e["cols"],
                        "hdr": e["hdr"].get("BLINDING", "absent")})
    return out


def _hist(seed, i, tmp, ops):
    from qsonic.io import save_deltas
    from qsonic.spectrum import Spectrum
    rng = np.random.default_rng([seed, 16, i])
    g, dw = forest.grids(rng)
    ev = [{"k": "begin"}]
    for k, o in enumerate(ops):
        if o["op"] == "set":
            a = SimpleNamespace(mock_analysis=o["mock"],
                                forest_w1=float(o["w1"]),
                                skip_resomat=o["skip"])
            e = {"k": "set", "mock": o["mock"], "w1": o["w1"],
                 "night": str(o["night"]), "out": "ok"}
            try:
                Spectrum.set_blinding(None if o["mock"] else o["night"], a)
            except Exception as x:
                e["out"] = type(x).__name__
            ev.append(e)
            continue
        ss, n = [], 0
        for j in range(int(rng.integers(1, 3))):
            data, rs = forest.raw(rng, g, o["reso"], bad=.1, ndia=(5, 5, 5))
            for a in data:
                data[a][2][0] = 0
                data[a][0][0], data[a][1][0] = 3., 1.
            for a in rs:
                rs[a][:] = np.array([.05, .2, .6, .2, .05])[:, None]
            z = 2.5
            s = forest.make_spectrum(forest.catrow(z, tid=9 + j, pix=j), g,
                                     data, rs)
            s.set_forest_region(3000., 9000., 1000., 2000.)
            s.cont_params['valid'] = True
            s.cont_params['cont'] = {a: 2. + 0 * w
                                     for a, w in s.forestwave.items()}
            s.set_forest_weight()
            n += sum(bool(v != 0) for v in s.mean_snr.values())
            ss.append(s)
        d = os.path.join(tmp, f"b{i}-{k}")
        os.makedirs(d)
        e = {"k": "save", "out": "ok", "n": n}
        try:
            save_deltas(ss, d, save_by_hpx=o["byhpx"],
                        mpi_rank=None if o["byhpx"] else 0)
        except Exception as x:
            e["out"] = type(x).__name__
        try:
            e["ents"] = ents(sorted(glob.glob(d + "/*.fits")))
        except Exception:        # an unreadable file: C17's concern
            e["ents"] = []
        shutil.rmtree(d)
        ev.append(e)
    return ev


def hist(item):
    kind, name, v = simmpi.isolated(_hist, *item)
    return v if kind == "ok" else [{"k": "crash", "msg": str(v)[-900:]}]


def full(item):
    k, tmp, seed, c = item
    d = os.path.join(tmp, f"brun{k}")
    rng = np.random.default_rng([seed, 161, k])
    side = c.get("side")
    nights = c["nights"]
    q = [dict(tid=39627700846986001 + 37 * i, pix=100 + 7 * (i % 4),
              survey="main", night=nights[i % len(nights)],
              z=round(float(rng.uniform(1.7, 2.2) if side
                            else rng.uniform(2.2, 3.1)), 5), fate="good",
              ra=5. + i, dec=2. + .1 * i, nexp=2) for i in range(20)]
    if c.get("one"):
        # only one quasar was observed last
        for x in q:
            x["night"] = nights[0]
        q[int(rng.integers(0, len(q)))]["night"] = nights[-1]
    s = world.Survey(d, rng, q, kind="mock" if c.get("mock") else "data",
                     dwave=16.)
    f = world.write_fiducial(f"{d}/fid.fits")
    o = ["--skip-resomat", "--fiducial-meanflux", f, "--fiducial-varlss", f,
         "--coadd-arms", c.get("coadd", "before"), "--min-forestsnr", "-1000",
         "--skip", "0"]
    if side:
        o += ["--forest-w1", "1300", "--forest-w2", "1500"]
    if c.get("mock"):
        o += ["--mock-analysis"]
    if c.get("exp"):
        o += ["--exposures", c["exp"]]
    if c.get("hpx"):
        o += ["--save-by-hpx"]
    r = world.run_fit(world.fit_argv(s, d + "/out", *o), c["size"])
    e = {"k": "run", "mock": bool(c.get("mock")),
         "w1": "1300" if side else "1040",
         "nights": [int(x["night"]) for x in q],
         "out": "ok" if r.all_ok else r.first_error()[-500:], "ents": [],
         "case": c}
    if r.all_ok:
        e["ents"] = ents(sorted(glob.glob(d + "/out/delta-*.fits")))
    shutil.rmtree(d, ignore_errors=True)
    return [e]


def coadd(item):
    out = []
    for e in deltadrv.scenario(*item):
        if e["k"] == "target":
            f = lambda x: {"blind": x["blind"], "strategy": x["strategy"]}
            out.append({"k": "target", "ins": [f(x) for x in e["ins"]],
                        "outs": [f(x) for x in e["outs"]]})
        elif e["out"] != "ok":
            out.append({"k": "crash", "msg": e["out"]})
    return out


def run(chk):
    chk.model("MC_Blind", workers=4)
    chk.model("MC_Blind", "MC_BlindLocal.cfg",
              expect_violation="NeverUnblinded")
    chk.model("MC_Blind", "MC_BlindSticky.cfg",
              expect_violation="NeverUnblinded")
    import qsonic.scripts.qsonic_coadd_deltas   # noqa: before forking
    import qsonic.scripts.qsonic_fit   # noqa
    n = 3000 if chk.thorough else 250
    hs = chk.generate("Gen_Blind", num=n, depth=6)
    # every single decision, followed by a save
    for m in (False, True):
        for w in ("1050", "1215.67", "1300"):
            for t in STEP:
                hs.append([{"op": "set", "mock": m, "w1": w, "night": int(t),
                            "skip": True},
                           {"op": "save", "byhpx": False, "reso": False}])
    hs += [[{"op": "save", "byhpx": b, "reso": False}] for b in (True, False)]
    scen = pmap(hist, [(chk.seed, i, chk.tmp, h) for i, h in enumerate(hs)])
    R = chk.rng
    late = int(R.choice(STEP[2:]))
    cases = [{"nights": [20210101, late], "one": 1, "size": 3},
             {"nights": [20210101, int(R.choice(STEP[2:]))], "one": 1,
              "size": 2, "coadd": "disable", "exp": R.choice(["after",
                                                              "before"])},
             {"nights": [20210101, 20210513], "size": 2, "hpx": 1},
             {"nights": [int(R.choice(STEP[2:]))], "size": 1,
              "coadd": "after", "hpx": 1},
             {"nights": [20230101], "mock": 1, "size": 2},
             {"nights": [20230101], "side": 1, "size": 2}]
    cases += [{"nights": [20210101, int(R.choice(STEP[2:]))], "one": 1,
               "size": 1 + j % 4} for j in range(8)]
    scen += pmap(full, [(k, chk.tmp, chk.seed, c) for k, c in
                        enumerate(cases * (6 if chk.thorough else 1))])
    m = 300 if chk.thorough else 36
    scen += pmap(coadd, [(chk.seed, 5000 + i, chk.tmp) for i in range(m)])
    chk.sample(scen[0])
    chk.validate("Trace_C16", scen)
