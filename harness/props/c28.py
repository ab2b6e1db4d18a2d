"""C28: interpolation and noise smoothing."""
import numpy as np

import simmpi
from core import num, nums, pmap


def table(rng, n=None):
    n = int(rng.choice([2, 3, 4, 5, 6, 9, 14, 20, 25, 40])) if n is None \
        else n
    t = int(rng.integers(0, 4))
    x = np.arange(n)
    if t == 0:
        f = np.round(rng.standard_normal(n), 3)
    elif t == 1:
        f = np.round(2 + .1 * x, 6)
    elif t == 2 and n >= 3:
        f = 1. + x - .25 * x**2 + (.125 * x**3 if n > 3 else 0)
        f = f / 2.**int(np.log2(np.abs(f).max() + 1))
    else:
        f = np.round(1 + rng.uniform(-.3, .3, n), 4)
    return f.astype('f8')


def points(rng, x0, dx, n):
    nodes = x0 + dx * np.arange(n)
    x = np.concatenate([
        nodes[rng.permutation(n)[:6]], nodes[[0, n - 1]],
        x0 + dx * rng.uniform(0, n - 1, 6),
        x0 - dx * rng.uniform(0, 3, 2), nodes[-1] + dx * rng.uniform(0, 3, 2)])
    return np.round(x[rng.permutation(x.size)], 6).astype('f8')


def _interp(seed, i, ops):
    from qsonic.mathtools import FastCubic1DInterp, FastLinear1DInterp
    rng = np.random.default_rng([seed, 28, i])
    ev = [{"k": "begin"}]
    o, given, sh, kinds = {}, {}, {}, {}

    def do(e, call):
        try:
            r, e["out"] = call(), "ok"
        except Exception as x:
            r, e["out"], e["msg"] = None, type(x).__name__, str(x)[:200]
        ev.append(e)
        return r
    for p in ops:
        k = p["id"]
        if p["op"] == "new":
            f = table(rng)
            x0 = float(rng.choice([3600., 0., -2.5, 1050.25]))
            dx = float(rng.choice([1., .8, 8., 120., .25]))
            sh[k] = (x0, dx, f.size)
            given[k], kinds[k] = f, p["kind"]
            e = {"k": "new", "id": str(k), "kind": p["kind"],
                 "t": {"x0": num(x0), "dx": num(dx), "f": nums(f)}}
            kw = {"copy": True} if p["copy"] else {}
            if rng.uniform() < .3:
                kw["ep"] = np.ones(f.size)
            if p["kind"] == "linear":
                o[k] = do(e, lambda: FastLinear1DInterp(x0, dx, f, **kw))
            elif p["kind"] == "not-a-knot" and rng.uniform() < .5:
                o[k] = do(e, lambda: FastCubic1DInterp(x0, dx, f, **kw))
            else:
                o[k] = do(e, lambda: FastCubic1DInterp(
                    x0, dx, f, bc_type=p["kind"], **kw))
        elif o.get(k) is None:
            continue
        elif p["op"] == "reset":
            f = table(rng, sh[k][2] if rng.uniform() < .7 else None)
            old, given[k] = given[k], f
            sh[k] = (*sh[k][:2], f.size)
            kw = {"copy": True} if p["copy"] else {}
            e = {"k": "reset", "id": str(k), "f": nums(f), "was": nums(old)}
            do(e, lambda: o[k].reset(f, **kw))
            e["after"] = nums(old)
        elif p["op"] == "spoil":
            given[k][:] = -777.
        else:
            x = points(rng, *sh[k])
            if kinds[k] == "linear" and rng.uniform() < .3:   # far outside
                x[:2] = sh[k][0] + sh[k][1] * np.array([-400.5, 777.25])
            e = {"k": "eval", "id": str(k), "x": nums(x), "y": []}
            y = do(e, lambda: o[k](x.copy()))
            e["y"] = nums(y)
    return ev


def _smooth(seed, i):
    from qsonic.mathtools import get_median_outlier_mask, get_smooth_ivar
    rng = np.random.default_rng([seed, 2828, i])
    n = int(rng.choice([1, 2, 3, 5, 12, 30, 60]))
    t = i % 4
    if t == 0:
        iv = np.full(n, float(rng.choice([.37, 1., 4., 250., 1e-3])))
    else:
        iv = 10**rng.uniform(-1, 1, n)
    if n > 2:
        for k in range(n):
            u = rng.uniform()
            if u < .12:
                iv[k] = 0.
            elif u < .22 and t != 1:
                iv[k] *= 10**rng.uniform(-5, -2.5)
    if rng.uniform() < .04:
        iv[:] = 0
    sg = float(rng.choice([.6, 1., 2., 5., 10., 13., 20., 80.]))
    kw = {}
    if rng.uniform() < .4:
        kw["esigma"] = float(rng.choice([2., 5.]))
    e = {"k": "smooth", "ivar": nums(iv), "sigma": num(sg),
         "esigma": num(kw.get("esigma", 3.5)), "res": [], "iv2": [],
         "res2": [], "width": sg >= 10}
    # other values for clear outliers
    iv2 = iv.copy()
    g = iv > 0
    if g.any():
        er = 1 / np.sqrt(iv[g])
        md = np.median(er)
        lim = float(e["esigma"]) * 1.4826 * np.median(np.abs(er - md))
        out = g.copy()
        out[g] = er > md + 1.01 * lim + 1e-6 * md
        if out.any() and 2 * out.sum() < g.sum() - 1:
            # an outlier's rank among errors and deviations stays the same
            # when its error only grows
            iv2[out] /= 10**rng.uniform(.1, 2, out.sum())
            e["iv2"] = nums(iv2)
    a = iv.copy()
    try:
        e["res"] = nums(get_smooth_ivar(a, sg, **kw))
        if e["iv2"]:
            e["res2"] = nums(get_smooth_ivar(iv2, sg, **kw))
        e["out"] = "ok"
    except Exception as x:
        e["out"] = type(x).__name__
    e["after"] = nums(a)
    # outlier flags
    n = int(rng.choice([1, 3, 8, 25]))
    g = float(rng.choice([1., 1., .02, 50.]))
    fl = np.round(rng.standard_normal(n) * 2 * g, 3)
    iv = np.round(10**rng.uniform(-1, 1, n) / g**2, 6)
    iv[rng.uniform(size=n) < .15] = 0
    fl[rng.uniform(size=n) < .15] += 40. * g
    if rng.uniform() < .05:
        iv[:] = 0
    kw = {"esigma": float(rng.choice([3.5, 2.])),
          "nwindow": int(rng.choice([11, 5, 3]))}
    f = {"k": "outliers", "flux": nums(fl), "ivar": nums(iv), "res": [],
         "esigma": num(kw["esigma"]), "nwindow": kw["nwindow"]}
    try:
        f["res"] = nums(np.asarray(get_median_outlier_mask(
            fl.copy(), iv.copy(), **kw)).astype(int))
        f["out"] = "ok"
    except Exception as x:
        f["out"] = type(x).__name__
    return [e, f]


def interp(item):
    kind, name, v = simmpi.isolated(_interp, *item)
    return v if kind == "ok" else [{"k": "crash", "msg": str(v)[-800:]}]


def smooth(item):
    return _smooth(*item)


def run(chk):
    chk.model("MC_Interp")
    chk.model("MC_Interp", "MC_InterpPoly.cfg")
    import qsonic.mathtools   # noqa
    n = 4000 if chk.thorough else 220
    hs = chk.generate("Gen_Interp", num=2 * n, depth=9)
    # prefer histories that evaluate often
    hs = sorted(hs, key=lambda h: -sum(o["op"] == "eval" for o in h))[:n]
    np.random.default_rng(chk.seed).shuffle(hs)
    scen = pmap(interp, [(chk.seed, i, h) for i, h in enumerate(hs)])
    m = 5000 if chk.thorough else 500
    scen += pmap(smooth, [(chk.seed, i) for i in range(m)])
    chk.sample(scen[0])
    chk.validate("Trace_C28", scen)
