"""C23: variance statistics."""
import os

import numpy as np

import simmpi
from props import c18
from core import num, nums, pmap


def spectrum(rng, c, o):
    """Pixels inside and outside the bins, none within rounding of an edge."""
    n = int(rng.integers(1, o["npix"]))
    dw = (c["w2"] - c["w1"]) / c["nw"]
    if o["out"]:
        w = rng.uniform(c["w1"] - 1.6 * dw, c["w2"] + 1.6 * dw, n)
        t = rng.uniform(-1.5, c["nv"] + 1.5, n)
    else:
        w = rng.uniform(c["w1"], c["w2"], n)
        t = rng.uniform(0, c["nv"], n)
    k = rng.uniform(size=n)
    # just inside and just outside of the edges
    e = rng.integers(0, c["nw"] + 1, n)
    w = np.where(k < .15, c["w1"] + e * dw + rng.choice(
        [-1e-3, 1e-3, -1e-6, 1e-6], n), w)
    e = rng.integers(0, c["nv"] + 1, n)
    t = np.where(rng.uniform(size=n) < .15, e + rng.choice(
        [-1e-4, 1e-4, -2e-8, 2e-8], n), t)
    if "hole" in o:
        # a variance bin with many pixels of hardly any spectrum
        h = o["hole"]
        t = np.where((t > h - .1) & (t < h + 1.1), t + 1.3, t) \
            if not o.get("heavy") else h + rng.uniform(.1, .9, n)
    w = np.sort(w)
    iv = 1 / c["v2"] * (c["v2"] / c["v1"])**(t / c["nv"])
    f = (t - np.round(t))
    iv = np.where(np.abs(f) < 5e-9, iv * 1.01, iv)
    iv[rng.uniform(size=n) < .08] = 0
    sig = np.sqrt(o["vl"] + np.where(iv > 0, o["eta"] / np.where(
        iv > 0, iv, 1), 0))
    d = np.round(o["mu"] + rng.normal(0, 1, n) * sig, 6)
    d = np.where(iv > 0, d, 7.5)      # never to be seen
    return w, d, iv


def stats(v):
    out = {"npix": nums(v.num_pixels), "nqso": nums(v.num_qso),
           "mean": nums(v.mean_delta), "var": nums(v.var_delta),
           "var2": nums(v.var2_delta), "vpipe": nums(v.var_centers),
           "evar": nums(v.e_var_delta), "evpipe": nums(v.e_var_centers)}
    out["cov"] = nums(v.cov_var_delta) if v.use_cov else []
    return out


def table(path, cov):
    import fitsio
    with fitsio.FITS(path) as f:
        d = f["VAR_STATS"].read()
        h = f["VAR_STATS"].read_header()
    names = {"wave": "wave", "var_pipe": "vpipe", "e_var_pipe": "evpipe",
             "var_delta": "var", "e_var_delta": "evar", "mean_delta": "mean",
             "var2_delta": "var2", "num_pixels": "npix", "num_qso": "nqso"}
    t = {v: nums(d[k]) for k, v in names.items()}
    t["cov"] = nums(np.reshape(d["cov_var_delta"], (-1, cov))) if cov \
        else []
    for a, b in (("MINNPIX", "minpix"), ("MINNQSO", "minqso"),
                 ("MINSNR", "minsnr"), ("MAXSNR", "maxsnr")):
        t[b] = num(h[a])
    return t


def witness(v, y, eta, mp, mq):
    """Solutions the specification verifies (it does not trust them)."""
    out = []
    nv = v.nvarbins
    for iw in range(v.nwbins):
        sl = slice(iw * nv, iw * nv + nv)
        u = []
        for a, b in ((mp, mq), (mp // 2, mq // 2)):
            if len(u) < 5:
                u = np.nonzero((v.num_pixels[sl] >= a)
                               & (v.num_qso[sl] >= b))[0]
        g = {"U": [int(t) + 1 + iw * nv for t in u], "pd": False,
             "L": [], "a": [], "b": [], "x": []}
        try:
            C = v.cov_var_delta[iw][np.ix_(u, u)]
            L = np.linalg.cholesky(C)
            vp = v.var_centers[sl][u]
            r = v.var_delta[sl][u] - y[iw, 0] \
                - (y[iw, -1] if eta else 1.) * vp
            g.update(pd=bool(np.linalg.cond(C) < 1e7), L=nums(L),
                     a=nums(np.linalg.solve(C, 1. + 0 * vp)),
                     b=nums(np.linalg.solve(C, vp)),
                     x=nums(np.linalg.solve(C, r)))
        except (np.linalg.LinAlgError, ValueError):
            pass
        out.append(g)
    return out


def scenario(item):
    seed, i, tmp = item
    rng = np.random.default_rng([seed, 23, i])
    fit = i % 2 == 1
    nw = int(rng.integers(1, 5)) if not fit else int(rng.integers(2, 6))
    nv = int(rng.integers(1, 6)) if not fit else int(rng.integers(5, 8))
    w1 = float(rng.choice([3600., 3612.5, 4000.]))
    c = dict(w1=w1, w2=w1 + nw * float(rng.choice([100., 120.5, 60.])),
             nw=nw, v1=float(rng.choice([1e-4, .01, .05])),
             v2=float(rng.choice([20., 2., 1.])), nv=nv)
    size = 1 + int(rng.integers(0, 4))
    cov = bool(rng.uniform() < .25)
    nsub = int(rng.choice([0, 3, 5, 8]))
    nsub = nsub if not (cov and fit) else 0
    mp, mq = int(rng.integers(4, 9)), int(rng.choice([2, 3, 2, 3, 4, 6, 8]))
    minsnr, maxsnr = float(rng.choice([0., .3, 2.])), float(
        rng.choice([100., 5.5]))
    lives = []
    for _ in range(1 + int(rng.integers(0, 2))):
        o = dict(out=rng.uniform() < .6, npix=40 if not fit else 70,
                 vl=float(rng.uniform(.05, .3)),
                 eta=float(rng.uniform(.8, 1.4)),
                 mu=float(rng.choice([0., .3, -.5])))
        if nv > 5 and fit and rng.uniform() < .5:
            o["hole"] = int(rng.integers(0, nv - 1))
        n = int(rng.integers(0, 9)) if not fit else int(rng.integers(8, 16)) \
            + 12 * cov
        adds = [(int(rng.integers(0, size)), *spectrum(rng, c, o))
                for _ in range(n)]
        if "hole" in o:
            o.update(heavy=True, npix=160)
            adds += [(int(rng.integers(0, size)), *spectrum(rng, c, o))
                     for _ in range(mq - 1)]
        lives.append(dict(adds=adds, fit=fit, eta=bool(rng.uniform() < .5),
                          twin=bool(rng.uniform() < .5),
                          write=bool(rng.uniform() < .6)))

    def rank(comm, r, _):
        from qsonic.mpi_utils import MPISaver
        from qsonic.picca_continuum import VarLSSFitter
        VarLSSFitter.min_num_pix, VarLSSFitter.min_num_qso = mp, mq
        v = VarLSSFitter(c["w1"], c["w2"], c["nw"], c["v1"], c["v2"],
                         c["nv"], nsubsamples=nsub or None, use_cov=cov,
                         comm=comm if size > 1 or i % 4 < 2 else None)
        out = []
        for t, lf in enumerate(lives):
            if t:
                v.reset()
            e = {"out": "ok"}
            for a in lf["adds"]:
                if a[0] == r:
                    v.add(a[1].copy(), a[2].copy(), a[3].copy())
            if lf["fit"]:
                g = np.full((c["nw"], 2), .1)
                g[:, 1] = 1.
                f = {"eta": lf["eta"], "out": "ok"}
                try:
                    y, s = v.fit(g if lf["eta"] else g[:, 0], smooth=False)
                    y, s = (y, s) if lf["eta"] else (y[:, None], s[:, None])
                    f.update(v=nums(y[:, 0]), sv=nums(s[:, 0]),
                             h=nums(y[:, -1]), sh=nums(s[:, -1]))
                    if cov:
                        e["gls"] = witness(v, y, lf["eta"], mp, mq)
                    if lf["twin"] and (y[:, 0] > 0).sum() > 3:
                        # the same life again, smoothed
                        v.reset()
                        for a in lf["adds"]:
                            if a[0] == r:
                                v.add(a[1].copy(), a[2].copy(), a[3].copy())
                        y, _ = v.fit(g if lf["eta"] else g[:, 0])
                        y = y if lf["eta"] else y[:, None]
                        f.update(sm=nums(y[:, 0]), smh=nums(y[:, -1]))
                except Exception as x:
                    f["out"] = type(x).__name__
                e["fit"] = f
            else:
                v.calculate_subsampler_stats()
            e["late"] = "ok"
            try:
                v.add(np.array([c["w1"] + 1.]), np.array([.5]),
                      np.array([2. / c["v2"]]))
            except Exception as x:
                e["late"] = type(x).__name__
            e["res"] = stats(v)
            if lf["write"]:
                p = os.path.join(tmp, f"v{i}-{t}.fits")
                s = MPISaver(p, r)
                v.write(s, minsnr, maxsnr)
                s.close()
                if r == 0:
                    e["table"] = table(p, cov and c["nv"])
                    os.remove(p)
            out.append(e)
        return out
    r = simmpi.run(rank, size, timeout=120)
    if not r.all_ok:
        return [{"k": "crash", "msg": r.first_error()[-1200:]}]
    ev = []
    for t, lf in enumerate(lives):
        es = [v[t] for v in r.value]
        e = {"k": "life", "out": "ok", "size": size, "cov": cov,
             "nsub": nsub or c["nv"]**2, "mp": mp, "mq": mq,
             "minsnr": num(minsnr), "maxsnr": num(maxsnr),
             "c": {k: num(v) if k in ("w1", "w2", "v1", "v2") else v
                   for k, v in c.items()},
             "adds": [{"r": a[0] + 1, "wave": nums(a[1]),
                       "delta": nums(a[2]), "ivar": nums(a[3])}
                      for a in lf["adds"]],
             "res": [x["res"] for x in es], "late": es[0]["late"],
             "table": [es[0]["table"]] if "table" in es[0] else []}
        if "fit" in es[0]:
            e["fit"] = es[0]["fit"]
            e["gls"] = es[0].get("gls", [])
        ev.append(e)
    return ev


def run(chk):
    chk.model("MC_VarStats", workers=4)
    chk.model("MC_VarStats", "MC_VarStatsClip.cfg", expect_violation="Counts")
    chk.model("MC_VarStats", "MC_VarStatsKeep.cfg", expect_violation="Counts")
    import qsonic.picca_continuum   # noqa: before forking
    n = 800 if chk.thorough else 90
    scen = pmap(scenario, [(chk.seed, i, chk.tmp) for i in range(n)])
    # the tables of whole runs
    import qsonic.scripts.qsonic_fit   # noqa
    R = chk.rng
    C = lambda **k: dict(dict(fids="", order=R.randrange(0, 3), size=1,
                              ns=[2], keep=1, depth=R.choice([1, 2, 3])), **k)
    cases = [C(), C(eta=True, coadd="disable", size=2),
             C(fids="v", coadd="disable", size=2, smooth=16.),
             C(smooth=8.), C(fids="mv", eta=True, ns=[1]),
             C(fids="m", model="input", coadd="disable")]
    if chk.thorough:
        cases *= 10
    runs = pmap(c18.history, [(k, chk.tmp, chk.seed, dict(c))
                              for k, c in enumerate(cases)])
    for r in runs:
        if r[0]["out"] != "ok":
            r[0] = {"k": "crash", "msg": r[0]["out"]}
            scen.append(r[:1])
        else:
            scen.append(r[1:])
    chk.sample(str(scen[0])[:3000])
    chk.validate("Trace_C23", scen)
