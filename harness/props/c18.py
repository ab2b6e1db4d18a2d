"""C18: iterations and their record."""
import os
import shutil

import numpy as np

import iterdrv
import runs
import simmpi
import world
from core import num, nums, pmap

L1, L2 = iterdrv.L1, iterdrv.L2


def table(x0, dx, f):
    return {"x0": num(x0), "dx": num(dx), "f": nums(f)}


def xof(w):
    return np.log(w / w[0]) / np.log(w[-1] / w[0])


def update(cells, argv, m0, size, steps):
    """The mean continuum updated several times by the real fitter."""
    def rank(comm, r, _):
        from qsonic.picca_continuum import PiccaContinuumFitter
        L = [s for s in (iterdrv.spectrum(q) for q in cells
                         if q["rank"] == r) if s is not None]
        fit = PiccaContinuumFitter(iterdrv.fitter_args(*argv))
        fit.model.init_spectra(L)
        fit.meancont_interp.reset(m0.copy())
        for s in L:
            s.cont_params["valid"] = True
            s.cont_params["cont"] = {a: np.full(w.size, 2.)
                                     for a, w in s.forestwave.items()}
            s.set_forest_weight(fit.varlss_interp, fit.eta_interp)
        out = []
        for _ in range(steps):
            c = bool(fit.update_mean_cont(L))
            out.append((c, nums(fit.meancont_interp.fp),
                        nums(fit.meancont_interp.ep),
                        nums(fit.flux_stacker.stacked_flux_rf),
                        nums(fit.flux_stacker.std_flux_rf)))
        return out
    return simmpi.run(rank, size, timeout=60)


def bins(rfd):
    nb = int(round((L2 - L1) / rfd))
    return L1 + (L2 - L1) / nb * (np.arange(nb) + .5)


def events(r, wr, m0, order, size):
    if not r.all_ok:
        return [{"k": "crash", "msg": r.first_error()[-900:]}]
    ev = []
    old = nums(m0)
    for v in zip(*r.value):
        ev.append({"k": "update", "out": "ok", "size": size,
                   "u": {"x": nums(xof(wr)), "old": old, "new": v[0][1],
                         "err": v[0][2], "stack": v[0][3], "std": v[0][4],
                         "order": order, "residual": True},
                   "conv": [x[0] for x in v], "news": [x[1] for x in v]})
        old = v[0][1]
    return ev


def updates(item):
    """Spectra whose continua are off by a known shape."""
    seed, i = item
    rng = np.random.default_rng([seed, 18, i])
    size = 1 + int(rng.integers(0, 3))
    order = int(rng.integers(0, 4))
    rfd = float(rng.choice([8., 5.2, 3.25]))
    amp = 10**rng.uniform(-4, -.3)
    noise = 10**rng.uniform(-3, -.5)
    p = rng.uniform(-1, 1, 5)

    def shape(w):
        u = (w - 1115.) / 65.
        return 1 + amp * (p[0] * u + p[1] * u**2 + p[2] * u**3
                          + p[3] * np.sin(7 * u) + p[4] * np.exp(-90 * u**2))
    hole = rng.uniform() < .25
    scale = 2. * rng.uniform(.7, 1.4)
    h0 = rng.uniform(L1, L2 - 20.)
    cells = []
    for j in range(int(rng.integers(3, 9))):
        q = iterdrv.cell(rng, 39627700846986001 + j, "good", lo=2.2, hi=3.)
        for a, w in q["g"].items():
            r = w / (1 + q["z"])
            iv = np.full(w.size, 10**rng.uniform(1, 3)) \
                * rng.uniform(.5, 2., w.size)
            mk = (rng.uniform(size=w.size) < .05).astype('i4')
            if hole:
                mk[(r > h0) & (r < h0 + 20.)] = 1
            q["data"][a] = (
                scale * shape(r) * (1 + noise * rng.standard_normal(w.size)),
                iv, mk)
        q["rank"] = int(rng.integers(0, size))
        cells.append(q)
    wr = bins(rfd)
    m0 = 1 + .2 * np.sin(wr / 20. + p[0]) if rng.uniform() < .5 \
        else np.ones(wr.size)
    r = update(cells, ["--cont-order", str(order), "--rfdwave", num(rfd)], m0,
               size, int(rng.integers(1, 4)))
    return events(r, wr, m0, order, size)


def limits(item):
    """One bin far better measured than the rest, its change brought to where
    the two limits of convergence differ."""
    seed, i, aim = item
    rng = np.random.default_rng([seed, 182, i])
    order = int(rng.integers(0, 2))
    rfd = float(rng.choice([.8, .8, 3.25]))
    p = rng.uniform(-1, 1, 4)
    h0 = rng.uniform(L1 + 10., L2 - 20.)
    cells = [iterdrv.cell(rng, 39627700846986001 + j, "good", lo=2.2, hi=2.7,
                          dw=4.) for j in range(6)]
    wide = .9 if rfd < 1 else 4.
    flat = rng.uniform() < .3

    def build(amp):
        for q in cells:
            for a, w in q["g"].items():
                r = w / (1 + q["z"])
                u = (r - 1115.) / 65.
                iv = np.full(w.size, 30.)
                if not flat:
                    iv[(r < h0) | (r > h0 + wide)] = 3e-4
                f = 2. * (1 + amp * (p[0] * u + p[1] * u**2 + p[2] * u**3
                                     + .3 * p[3]))
                q["data"][a] = (f, iv, np.zeros(w.size, 'i4'))
            q["rank"] = 0
        return update(cells, ["--cont-order", str(order), "--rfdwave",
                              num(rfd)], m0, 1, 1)
    wr = bins(rfd)
    m0 = np.ones(wr.size)
    amp = 1e-3
    r = build(amp)
    if r.all_ok:
        c = (np.array(r.value[0][0][1], float) - 1) \
            / np.array(r.value[0][0][2], float)
        r = build(min(.3, amp * aim / max(1e-9, np.abs(c).max())))
    return events(r, wr, m0, order, 1)


def tables(out):
    cont, var = [], []
    A = [(a["ext"], {x["name"]: x["v"] for x in a["cols"]})
         for a in out["attr"]]
    D = dict(A)
    for ext, t in A:
        b, _, s = ext.partition("-")
        s = s or "final"
        if b == "CONT":
            x = ext.replace("CONT", "STACKED_FLUX_RF")
            y = D.get(x, {"stacked_flux_rf": [], "e_stacked_flux_rf": []})
            cont.append({"name": s, "w": t["lambda_rf"], "m": t["mean_cont"],
                         "err": t["e_mean_cont"],
                         "stack": y["stacked_flux_rf"],
                         "std": y["e_stacked_flux_rf"]})
        if b == "VAR_FUNC":
            var.append({"name": s, "w": t["lambda"], "v": t["var_lss"],
                        "ev": t["e_var_lss"], "h": t["eta"],
                        "eh": t["e_eta"]})
    return cont, var


def statistics(out, c, var, w1, w2):
    """The statistics table of a run, its functions and what it saved."""
    A = {a["ext"]: {x["name"]: x["v"] for x in a["cols"]}
         for a in out["attr"]}
    t = A["VAR_STATS"]
    v = [x for x in var if x["name"] == ("fit" if "v" in c["fids"]
                                         else "final")][0]
    late = c["coadd"] == "after" or c["cal"] == "add"
    return {"k": "table", "eta": c["eta"], "cov": c["cov"], "whole": not late,
            "mp": 3, "mq": 2, "case": {x: str(y) for x, y in c.items()},
            "c": {"w1": num(w1), "w2": num(w2),
                  "nw": int(round((w2 - w1) / 120)), "v1": "1e-4",
                  "v2": "20", "nv": 10},
            "t": {a: t[b] for a, b in (
                ("wave", "wave"), ("npix", "num_pixels"),
                ("nqso", "num_qso"), ("mean", "mean_delta"),
                ("var", "var_delta"), ("vpipe", "var_pipe"),
                ("evar", "e_var_delta"))},
            "f": {a: v[a] for a in ("v", "ev", "h", "eh")},
            "pix": [] if late else [
                {"wave": y["lam"], "delta": y["delta"], "ivar": y["ivar"]}
                for y in out["deltas"]]}


def history(item):
    k, tmp, seed, c = item
    d = os.path.join(tmp, f"it{k}")
    os.makedirs(d)
    rng = np.random.default_rng([seed, 181, k])
    c = dict(runs.BASE, groups=["good", "mixed"], n=40, **c)
    ph, am = rng.uniform(0, 6), rng.uniform(.2, .6)
    am = c.get("am", am)

    def bumpy(sv):             # common features in rest wavelength
        for q in sv.q:
            for a, w in sv.wave.items():
                fl, iv, mk = q["data"][a]
                u = (w / (1 + q["z"]) - L1) / (L2 - L1)
                q["data"][a] = (fl * (1 + am * np.sin(9 * u + ph)
                                      + am * np.exp(-99 * (u - .4)**2)),
                                iv * c["depth"], mk)
    s = world.Survey(d, rng, runs.quasars(c, rng), kind=c["kind"],
                     tweak=bumpy)
    o = runs.options(c, d, s, rng)
    w = np.arange(3500., 5000., 10.)
    mf = .75 + 1e-4 * (w - 4000.) + .1 * np.sin(w / 137. + rng.uniform(0, 6))
    vl = .06 + .04 * np.sin(w / 153. + rng.uniform(0, 6))
    f = world.write_fiducial(f"{d}/fid2.fits", mf=lambda _: mf,
                             vl=lambda _: vl)
    F = table(3600., 1200., [1., 1., 1.])
    if "m" in c["fids"]:
        o += ["--fiducial-meanflux", f]
        F = table(3500., 10., mf)
    if "v" in c["fids"]:
        o += ["--fiducial-varlss", f]
    order = c["order"]
    o += ["--cont-order", str(order), "--smoothing-scale",
          num(c.get("smooth", 0)), "--skip", "0"]
    e = {"k": "runs", "case": {x: str(y) for x, y in c.items()}, "out": "ok",
         "order": order if c["model"] == "picca" else 0,
         "residual": c["model"] == "picca", "fid": "v" in c["fids"],
         "eta": c["eta"], "late": c["coadd"] == "after" or c["cal"] == "add",
         "F": F, "V": table(3500., 10., vl), "H": table(3500., 10.,
                                                        np.ones(4)),
         "runs": []}
    z = {str(q["tid"]): num(q["z"]) for q in s.q}
    ev = [e]
    for n in c["ns"]:
        r = world.run_fit(world.fit_argv(
            s, f"{d}/o{n}", *o, "--num-iterations", str(n)), c["size"],
            easy=True)
        if not r.all_ok:
            # a variance fit to this few sightlines may run away in the end,
            # and is then refused
            if "failed at more than 40%" not in r.first_error() \
                    or n < 3 or not e["runs"]:
                e["out"] = r.first_error()[-700:]
            break
        out = world.outputs(f"{d}/o{n}")
        cont, var = tables(out)
        if n == c["ns"][-1] or n == 2:
            ev.append(statistics(out, c, var, s.w1, s.w2))
        X = {x["TARGETID"]: x["CONT_x"] for x in out["chi2"]}
        ents = []
        D = out["deltas"]
        for j in sorted(rng.permutation(len(D))[:c["keep"]]):
            y = D[j]
            t = y["ext"].split("-")[0]
            ents.append({"ext": y["ext"], "z": z[t], "x": X[t],
                         "lam": y["lam"], "cont": y["cont"],
                         "ivar": y["ivar"], "weight": y["weight"]})
        e["runs"].append({"n": 1 if c["model"] == "true" else n, "cont": cont, "var": var, "ents": ents})
    shutil.rmtree(d, ignore_errors=True)
    return ev


def run(chk):
    chk.model("MC_Iterate")
    for v, p in (("after", "Recorded"), ("zero", "Recorded"),
                 ("first", "Recorded"), ("cap", "Stops"),
                 ("more", "NoMore"), ("replace", "Fiducial")):
        chk.model("MC_Iterate", f"MC_Iterate_{v}.cfg", expect_violation=p)
    import qsonic.scripts.qsonic_fit   # noqa: before forking
    n = 800 if chk.thorough else 80
    scen = pmap(updates, [(chk.seed, i) for i in range(n)])
    scen += pmap(limits, [(chk.seed, i, a) for i in range(n // 10) for a in
                          (.2, .36, .45, .6, .9)])
    R = chk.rng
    NS = [1, 2, 3, 12]
    C = lambda **k: dict(dict(fids="", order=R.randrange(0, 3), size=1,
                              ns=NS, keep=6,
                              depth=R.choice([1, 2, 3])), **k)
    cases = [C(), C(eta=True, coadd="disable", ns=[1, 2, 3, 5]), C(fids="v", size=2),
             C(fids="m", order=2), C(fids="mv", order=1, coadd="disable"),
             C(fids="v", coadd="after", order=1),
             C(fids="mv", coadd="after", order=2, ns=[2]),
             C(fids="v", coadd="after", eta=True, order=1, ns=[2]),
             C(coadd="after", ns=[1, 3], eta=R.choice([True, False])),
             C(fids="mv", cal="add", ns=[2]),
             C(cal="add", ns=[2, 3]),
             C(fids="v", model="input", ns=[1, 2, 8]),
             C(model="input", ns=[1, 2, 8]),
             C(fids="mv", model="true", kind="mock", ns=[3]),
             # converged at once, or nearly
             C(am=0., depth=.02, ns=[1, 2, 4], order=2),
             C(am=0., depth=.1, ns=[1, 5], fids="v", order=2),
             C(am=0., depth=.05, ns=[6], eta=True, order=2)]
    if chk.thorough:
        cases = cases * 8
    scen += pmap(history, [(k, chk.tmp, chk.seed, dict(c))
                           for k, c in enumerate(cases)])
    chk.notes.append({"converged_updates": sum(
        e["conv"][0] for s in scen for e in s if e["k"] == "update"),
        "updates": sum(e["k"] == "update" for s in scen for e in s),
        "iterations": [[len(r["cont"]) for r in e["runs"]]
                       for s in scen for e in s if e["k"] == "runs"]})
    chk.sample(scen[0])
    chk.validate("Trace_C18", scen)
