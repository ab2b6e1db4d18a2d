"""C14: noise and flux calibration."""
import os
import shutil

import numpy as np

import forest
import simmpi
import world
from core import num, nums, pmap


def tab(w, f):
    return {"x0": num(w[0]), "dx": num(w[1] - w[0]), "f": nums(f)}


def _one(seed, i, tmp):
    from qsonic.calibration import FluxCalibrator, NoiseCalibrator
    rng = np.random.default_rng([seed, 14, i])
    g, dw = forest.grids(rng)
    specs = []
    reso = bool(rng.integers(0, 2))
    for k in range(int(rng.integers(1, 4))):
        data, rs = forest.raw(rng, g, reso)
        z = float(rng.choice([2.25, 2.296875, 2.5]))
        s = forest.make_spectrum(forest.catrow(z, tid=100 + k), g, data, rs)
        s.set_forest_region(3900. + 3 * k, 5000., 3900. / (1 + z),
                            5000. / (1 + z))
        if not s.forestwave:
            continue
        c = rng.uniform()
        if c < .8:
            s.cont_params['valid'] = True
            s.cont_params['cont'] = {
                a: 1.5 + .02 * (w - 4000.) + k
                for a, w in s.forestwave.items()}
        if rng.uniform() < .4:
            s.set_smooth_forestivar(float(rng.choice([0., 3.])))
        if rng.uniform() < .4:
            s.set_forest_weight()
        specs.append(s)
    ev = []
    f = os.path.join(tmp, f"cal{os.getpid()}.fits")
    for step in range(3):
        kind = str(rng.choice(["noise", "flux", "add"]))
        n = int(rng.choice([3, 4, 6, 12, 30]))
        h = float(rng.choice([.8, 1., 2.5, 4., 120.]))
        # the table need not cover the spectrum
        w = float(rng.choice([3990., 3999., 4000., 4003.])) \
            + h * np.arange(n)
        uneq = rng.uniform() < .12
        if uneq:
            k = int(rng.integers(1, n))
            w[k:] += float(rng.choice([.3, -.2, .03, -.01])) * h
            if rng.uniform() < .4 and 2 <= k < n - 1:
                w[-1] = w[0] + (w[1] - w[0]) * (n - 1)  # evenly on average
            if k == n - 1 == 1:
                uneq = False
        if kind == "flux":
            v = np.round(rng.uniform(.7, 1.3, n), 4)
            v[rng.uniform(size=n) < .2] = 0.
            world.write_fluxcal(f, w[0], 1., n, sf=v)
            _rewave(f, "STACKED_FLUX", w)
            if h > 100:
                v[:] = 1.02
                v[0] = 0
                world.write_fluxcal(f, w[0], 1., n, sf=v)
                _rewave(f, "STACKED_FLUX", w)
        else:
            eta = np.round(rng.uniform(.9, 1.3, n), 4)
            eta[rng.uniform(size=n) < .15] = 0.
            vl = np.round(rng.uniform(.01, .2, n), 4)
            vl[rng.uniform(size=n) < .1] = 0.
            # a spline continued far outside of its table is not meaningful
            # as a noise factor
            if w[0] + h * n < 4030. or h > 100:
                x = (w - 4000.) / 100.
                eta, vl = np.round(1.1 + .1 * x, 6), np.round(.1 + .01 * x, 6)
            world.write_noisecal(f, w[0], 1., n, eta=eta, vl=vl)
            _rewave(f, "VAR_FUNC", w)
        add = kind == "add"
        kw = {}
        if add:
            kw = dict(add_varlss=True, no_eta=bool(rng.integers(0, 2)))
        elif kind == "noise" and rng.uniform() < .15:
            kw = dict(no_eta=True)
        cal = None
        try:
            cal = FluxCalibrator(f) if kind == "flux" \
                else NoiseCalibrator(f, **kw)
            out = "ok"
        except Exception as e:
            out = type(e).__name__
        os.remove(f)
        ev.append({"k": "read", "wave": nums(w), "out": out})
        if cal is None:
            continue
        pre = [world.project(s) for s in specs]
        try:
            cal.apply(specs)
            out = "ok"
        except Exception as e:
            out = type(e).__name__
        e = {"k": "flux" if kind == "flux" else "noise", "out": out,
             "pre": pre, "post": [world.project(s) for s in specs]}
        if kind == "flux":
            e["sf"] = tab(w, v)
        else:
            e.update(eta=tab(w, eta), vl=tab(w, vl), add=add,
                     noeta=bool(kw.get("no_eta", False)))
        ev.append(e)
    return ev


def _rewave(f, ext, w):
    import fitsio
    with fitsio.FITS(f, 'rw') as h:
        h[ext].write_column('lambda', np.asarray(w))


def one(item):
    kind, name, v = simmpi.isolated(_one, *item)
    return v if kind == "ok" else [{"k": "crash", "msg": str(v)[-900:]}]


def full(item):
    k, tmp, seed, c = item
    d = os.path.join(tmp, f"crun{k}")
    rng = np.random.default_rng([seed, 141, k])
    q = [dict(tid=39627700846986001 + 37 * i, pix=100 + 7 * (i % 4),
              survey="main", night=20210101,
              z=round(float(rng.uniform(2.2, 3.1)), 5), fate="good",
              ra=5. + i, dec=2. + .1 * i)
         for i in range(40 if c.get("etafit") == "fit" else 24)]
    s = world.Survey(d, rng, q, dwave=16.)
    f = world.write_fiducial(f"{d}/fid.fits")
    fit = c.get("etafit") == "fit"
    o = ["--skip-resomat", "--fiducial-meanflux", f,
         *([] if fit else ["--fiducial-varlss", f]),
         "--coadd-arms", "disable", "--min-forestsnr", "-1000", "--skip",
         "0"]
    w = 3600. + 120. * np.arange(12)
    eta = np.round(rng.uniform(.9, 1.3, 12), 4)
    eta[5] = 0.
    vl = np.round(rng.uniform(.02, .1, 12), 4)
    wf = 3600. + 8. * np.arange(170)
    sf = np.round(rng.uniform(.9, 1.1, 170), 4)
    sf[rng.uniform(size=170) < .1] = 0.
    if c.get("noise"):
        o += ["--noise-calibration", world.write_noisecal(
            f"{d}/nc.fits", 3600., 120., 12, eta, vl)]
        if c.get("add"):
            o += ["--varlss-as-additive-noise"]
    if c.get("flux"):
        o += ["--flux-calibration", world.write_fluxcal(
            f"{d}/fc.fits", 3600., 8., 170, sf)]
    if c.get("plain"):
        o += ["--smoothing-scale", "0"]
    if c.get("smooth"):
        o += ["--smoothing-scale", "192"]
    if c.get("etafit"):
        # the fitted noise factor is divided out at the end of the fit
        o += ["--eta-calib-ivar"] + (["--var-fit-eta"] if fit else [])
    r = world.run_fit(world.fit_argv(s, d + "/out", *o), c["size"], easy=fit)
    out = {"deltas": []}
    if r.all_ok:
        out = world.outputs(d + "/out")
    shutil.rmtree(d, ignore_errors=True)
    fitted = []
    if fit:
        for x in out.get("attr", []):
            if x["ext"] == "VAR_FUNC":
                v = {y["name"]: y["v"] for y in x["cols"]}
                fitted = [{"x0": v["lambda"][0],
                           "dx": num(float(v["lambda"][1])
                                     - float(v["lambda"][0])),
                           "f": v["eta"]}]
    by = {str(x["tid"]): x for x in q}
    ev = [{"k": "run", "out": "ok" if r.all_ok else r.first_error()[-600:],
           "n": len(out["deltas"]), "case": c,
           "fitted": fitted, "fit": fit}]
    for en in out["deltas"]:
        t, arm = en["ext"].split("-")[:2]
        if t not in by or arm not in s.wave:
            continue
        fl, iv, mk = by[t]["data"][arm]
        ev.append({
            "k": "saved", "fitted": fitted, "noise": bool(c.get("noise")),
            "flux": bool(c.get("flux")), "add": bool(c.get("add")),
            "eta": tab(w, eta), "vl": tab(w, vl), "sf": tab(wf, sf),
            "raw": {"wave": nums(s.wave[arm]), "flux": nums(fl),
                    "ivar": nums(iv), "mask": nums(mk)},
            "smooth": "12" if c.get("smooth") else
            ("1" if not c.get("plain") else "0"),
            "ent": {a: en[a] for a in ("lam", "delta", "ivar", "cont",
                                       "weight")}})
    return ev


def run(chk):
    chk.model("MC_Calib")
    import qsonic.calibration   # noqa
    import qsonic.scripts.qsonic_fit   # noqa
    n = 2500 if chk.thorough else 260
    scen = pmap(one, [(chk.seed, i, chk.tmp) for i in range(n)])
    cases = [{"noise": 1, "flux": 1, "size": 2},
             {"noise": 1, "add": 1, "flux": 1, "smooth": 1, "size": 1},
             {"noise": 1, "add": 1, "size": 3}, {"flux": 1, "size": 1},
             {"etafit": "fit", "noise": 1, "size": 2},
             {"etafit": "fid", "flux": 1, "size": 1}]
    scen += pmap(full, [(k, chk.tmp, chk.seed, c) for k, c in
                        enumerate(cases * (4 if chk.thorough else 1))])
    chk.sample(scen[0][:2])
    chk.validate("Trace_C14", scen)
