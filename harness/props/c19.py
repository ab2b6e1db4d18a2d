"""C19: continua of the models."""
import os
import shutil

import numpy as np

import iterdrv
import simmpi
import world
from core import num, nums, pmap

L1, L2 = iterdrv.L1, iterdrv.L2
FATES = ["good", "good", "good", "dip", "onearm", "negative", "sparse",
         "none"]


def table(x0, dx, f):
    return {"x0": num(x0), "dx": num(dx), "f": nums(f)}


def mean_cont(kind, rng, w):
    u = (w - L1) / (L2 - L1)
    p = rng.uniform(0, 6, 3)
    pos = 1 + .25 * np.sin(3 * u + p[0]) + .1 * np.sin(15 * u + p[1])
    if kind == "flat":
        return np.ones_like(w)
    if kind == "steep":
        return np.exp(rng.uniform(-1.5, 1.5) * u)
    if kind == "cross":
        return (pos - .2) * np.sign(rng.uniform(-1, 1)) * np.tanh(
            9 * (u - rng.uniform(.2, .8)))
    if kind == "neg":
        return -pos
    if kind == "wild":
        return pos * (1 + .5 * rng.standard_normal(w.size)).clip(.1)
    return pos


def picca(rng, d, h):
    from qsonic.picca_continuum import PiccaContinuumFitter
    arms = ["B", "BR", "BR", "BRZ"][int(rng.integers(0, 4))]
    edges = None
    if arms == "BRZ" and rng.uniform() < .7:
        edges = {"B": (3600., 4161.), "R": (4096., 4481.),
                 "Z": (4400., 5001.)}
    qs = [iterdrv.cell(rng, 39627700846986001 + i, str(rng.choice(FATES)),
                       arms=arms, edges=edges) for i in range(4)]
    coadd = bool(rng.uniform() < .3)
    smooth = float(rng.choice([0., 0., 40.]))
    L = [iterdrv.spectrum(q, coadd, smooth) for q in qs]
    good = [q["fate"] == "good" for q, s in zip(qs, L) if s is not None]
    L = [s for s in L if s is not None]
    rfd = float(rng.choice([8., 3.25, 13.]))
    argv = ["--cont-order", str(h["order"]), "--minimizer", h["min"],
            "--rfdwave", num(rfd)]
    F = table(3600., 1200., [1., 1., 1.])
    V = None
    w = np.arange(3500., 5000., 10.)
    f = f"{d}/fid.fits"
    mf = .75 + 1e-4 * (w - 4000.) + .1 * np.sin(w / 37. + rng.uniform(0, 6))
    vl = .05 + .04 * np.sin(w / 53. + rng.uniform(0, 6))
    world.write_fiducial(f, mf=lambda _: mf, vl=lambda _: vl)
    if rng.uniform() < .6:
        argv += ["--fiducial-meanflux", f]
        F = table(3500., 10., mf)
    if rng.uniform() < .6:
        argv += ["--fiducial-varlss", f]
        V = {"kind": "linear", "t": table(3500., 10., vl)}
    fit = PiccaContinuumFitter(iterdrv.fitter_args(*argv))
    fit.model.init_spectra(L)
    nb = int(round((L2 - L1) / rfd))
    dx = (L2 - L1) / nb
    wr = L1 + dx * (np.arange(nb) + .5)
    ev = []
    for st in h["steps"]:
        M = mean_cont(st[0], rng, wr)
        fit.meancont_interp.reset(M)
        if V is None:
            n = fit.varlss_interp.fp.size
            x0, dv = fit.varlss_interp.xp0, fit.varlss_interp.dxp
            y = .1 + .05 * np.sin(np.arange(n) + rng.uniform(0, 6))
            et = 1.1 + .3 * np.sin(np.arange(n) / 2 + rng.uniform(0, 6))
            fit.varlss_interp.reset(y)
            fit.eta_interp.reset(et)
            V1 = {"kind": "cubic", "t": table(x0, dv, y)}
            H = table(x0, dv, et)
        else:
            V1 = V
            H = table(3500., 10., np.ones(4))
        e = {"k": "fit", "model": "picca", "order": h["order"], "out": "ok",
             "tol": "0.02" if h["min"] == "iminuit" else "0.2",
             "M": table(wr[0], dx, M), "F": F, "V": V1, "H": H,
             "kind": st[0], "min": h["min"]}
        try:
            for s in L:
                fit.model.fit_continuum(s)
        except Exception as x:
            e["out"] = repr(x)[:300]
        # plenty of clean pixels and an ordinary mean continuum
        e["specs"] = [dict(iterdrv.proj(s), healthy=g and st[0] in
                           ("flat", "pos", "steep"))
                      for s, g in zip(L, good)]
        ev.append(e)
    return ev


def supplied(rng, d, h):
    from healpy import ang2pix
    from qsonic.picca_continuum import PiccaContinuumFitter
    import fitsio
    model = h["model"]
    arms = ["B", "BR", "BRZ"][int(rng.integers(0, 3))]
    base = [100, 39627700846986001, 4611686018427387000][int(
        rng.integers(0, 3))]
    tids = [int(base + t) for t in rng.permutation(9)[:3]]
    fate = rng.choice(["good", "good", "onearm", "negative"], 3)
    qs = [iterdrv.cell(rng, t, str(f), arms=arms)
          for t, f in zip(tids, fate)]
    if rng.uniform() < .7:          # two in the same file
        qs[1]["ra"], qs[1]["dec"] = qs[0]["ra"], qs[0]["dec"]
    if rng.uniform() < .3:          # the same target twice
        qs[2] = dict(qs[0], z=qs[0]["z"])
    L = [iterdrv.spectrum(q) for q in qs]
    q2 = [q for q, s in zip(qs, L) if s is not None]
    L = [s for s in L if s is not None]
    w = np.arange(3500., 5000., 10.)
    f = f"{d}/fid.fits"
    mf = .75 + 1e-4 * (w - 4000.) + .1 * np.sin(w / 37. + rng.uniform(0, 6))
    world.write_fiducial(f, mf=lambda _: mf)
    ev = []
    memo = {}
    for n, st in enumerate(h["steps"]):
        kind = {}
        for q, x in zip(qs, st):
            kind.setdefault(q["tid"], x)
        w1 = float(rng.choice([1000., 1020., 985.5]))
        dw = float(rng.choice([2., .8, 5.]))
        m = int(np.ceil((1200. - w1) / dw)) + 2
        if model == "true":
            w1, dw, m = 3500., 4., 380
        wr = w1 + dw * np.arange(m)
        data = {}
        for q in qs:
            t, x = q["tid"], kind[q["tid"]]
            if x == "absent":
                continue
            if x == "new" or t not in memo:
                memo[t] = (rng.uniform(1.5, 4), rng.uniform(0, 6),
                           rng.uniform(20, 90))
            a, p, s = memo[t]
            c = a * (1.2 + np.sin(wr / s + p))
            if x == "low":           # just below zero, or small
                r = wr / (1 + q["z"]) if model == "true" else wr
                o = r * (1 + q["z"])
                fp = (r > L1) & (r < L2) & (o > 3600) & (o < 4800)
                if fp.any():
                    c = np.maximum(c - np.quantile(c[fp], .3), 0)**2 + (
                        -10**rng.uniform(-5, -2.8)
                        if rng.uniform() < .6 and model == "input" else
                        10**rng.uniform(-4, -1.2))
            mid = {"negB": -1, "negR": 1}.get(x)
            if mid:
                lo = max(L1, 3600. / (1 + q["z"]))
                hi = min(L2, 4800. / (1 + q["z"]))
                cut = lo + (hi - lo) * rng.uniform(.1, .9)
                c = np.where((wr - cut) * mid > 0, -c, c)
            if x == "nan":
                c[int(rng.integers(2, m - 2))] = np.nan
            data[t] = c
        argv = ["--fiducial-meanflux", f, "--fiducial-varlss", f]
        sup = {t: {"has": True, "t": table(w1, dw, c)}
               for t, c in data.items()}
        if model == "input":
            files, lost = {}, set()
            pix = {q["tid"]: int(ang2pix(8, q["ra"], q["dec"], lonlat=True,
                                         nest=True)) for q in qs}
            for t, x in kind.items():
                files.setdefault(pix[t], [])
                if x == "nofile":
                    lost.add(pix[t])
                if t in data:
                    files[pix[t]].append((t, data[t]))
            ic = f"{d}/ic{n}"
            os.makedirs(ic)
            for p, R in files.items():
                if p in lost:
                    for t, _ in R:
                        sup.pop(t, None)
                    continue
                for j in range(int(rng.integers(1, 4))):   # other targets
                    R.append((int(base + 20 + j - 40 * (j % 2 and
                                                        base > 1000)),
                              9. + 0 * wr))
                R = [R[i] for i in rng.permutation(len(R))]
                b = np.zeros(len(R), dtype=[("TARGETID", "i8"), ("Z", "f8")])
                b["TARGETID"] = [r[0] for r in R]
                with fitsio.FITS(f"{ic}/input-continuum-8-{p}.fits", "rw",
                                 clobber=True) as ft:
                    ft.write(b, extname="FIBERMAP")
                    ft.write(np.array([r[1] for r in R]), extname="CONTINUA",
                             header={"WAVE1": w1, "DWAVE": dw})
            argv += ["--input-continuum-dir", ic]
        else:
            for q, s in zip(q2, L):
                s.cont_params.update(true_data_w1=w1, true_data_dwave=dw,
                                     true_data=data[q["tid"]].copy())
        fit = PiccaContinuumFitter(iterdrv.fitter_args(
            *argv, "--continuum-model", model))
        e = {"k": "fit", "model": model, "order": 0, "out": "ok",
             "tol": "0", "M": table(1., 1., np.ones(4)),
             "F": table(3500., 10., mf), "V": {"kind": "none"},
             "H": table(1., 1., np.ones(4)), "kind": ",".join(st)}
        try:
            fit.model.init_spectra([L[i] for i in rng.permutation(len(L))])
            for rep in range(1 + int(rng.integers(0, 2))):
                for s in L:
                    fit.model.fit_continuum(s)
        except Exception as x:
            e["out"] = repr(x)[:300]
        e["specs"] = []
        none = {"has": False, "t": table(1., 1., np.ones(4))}
        for q, s in zip(q2, L):
            p = iterdrv.proj(s)
            p["sup"] = sup.get(q["tid"], none)
            e["specs"].append(p)
        ev.append(e)
    return ev


def _one(k, tmp, seed, h):
    rng = np.random.default_rng([seed, 19, k])
    d = os.path.join(tmp, f"cm{k}")
    os.makedirs(d)
    ev = picca(rng, d, h) if h["model"] == "picca" else supplied(rng, d, h)
    for e in ev:
        for s in e["specs"]:
            for a in s["forest"]:
                for x in ("ivar", "wt", "reso"):
                    a.pop(x)
            for x in ("snr", "rsnr", "x0", "xcov", "pix", "dof"):
                s.pop(x)
    shutil.rmtree(d, ignore_errors=True)
    return ev


def one(item):
    kind, name, val = simmpi.isolated(_one, *item)
    if kind != "ok":
        return [{"k": "crash", "name": name, "msg": str(val)[-800:]}]
    return val


def run(chk):
    chk.model("MC_ContFit")
    for v in ("keep", "stale", "sticky"):
        chk.model("MC_ContFit", f"MC_ContFit_{v}.cfg",
                  expect_violation="Marked")
    chk.model("MC_Lookup")
    for v in ("nearest", "order", "first"):
        chk.model("MC_Lookup", f"MC_Lookup_{v}.cfg", expect_violation="Own")
    import qsonic.picca_continuum   # noqa: before forking
    import qsonic.scripts.qsonic_fit   # noqa
    hs = chk.generate("Gen_ContFit", num=1500 if chk.thorough else 170,
                      depth=5)
    scen = pmap(one, [(k, chk.tmp, chk.seed, h) for k, h in enumerate(hs)])
    chk.sample(str(scen[0])[:3000])
    chk.validate("Trace_C19", scen)
