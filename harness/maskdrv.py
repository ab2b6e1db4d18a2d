"""Masks applied to single spectra and in whole runs (C08, C09)."""
import copy
import os
import shutil

import numpy as np

import forest
import simmpi
import world
from core import num, nums

NOSKY = {"obs": [], "rf": []}
NOBAL = {"lo": [], "hi": []}


def wide(rng, z, tid=39627700846986001, extra=None, dw=20., n=28,
         start=1020.):
    """A spectrum covering the forest and beyond its own Lyman alpha."""
    w0 = 20. * round((1 + z) * start / 20.)
    off = n - int(rng.integers(2, 6))
    if rng.uniform() < .3:
        off = n + 3
    g = {"B": w0 + dw * np.arange(n), "R": w0 + dw * (off + np.arange(n))}
    data, rs = forest.raw(rng, g, rng.uniform() < .5, bad=.08)
    for fl, iv, mk in data.values():
        mk[:] = np.where(rng.uniform(size=mk.size) < .05, 1, 0)
    s = forest.make_spectrum(forest.catrow(z, tid=tid, extra=extra), g, data,
                             rs)
    s.set_forest_region(2000., 9000., start + 10., start + 290.)
    return s


def sky_list(rng, s, z):
    w = np.concatenate(list(s.forestwave.values()))

    def some(scale):
        out = []
        many = rng.uniform() < .25
        for _ in range(int(rng.integers(8, 30) if many
                           else rng.integers(0, 4))):
            lo = rng.uniform(w.min() - 60, w.max())
            hi = lo + rng.choice([3., 15.] if many else [3., 15., 50., 160.])
            if many:
                out.append([round(lo / scale, 4), round(hi / scale, 4)])
                continue
            if rng.uniform() < .35 and (scale == 1. or z == 3.):
                lo = float(rng.choice(w))
                hi = float(rng.choice(w[w > lo])) if (w > lo).any() \
                    else lo + 20
                out.append([lo / scale, hi / scale])
            elif rng.uniform() < .4:
                # limits just beside pixels
                x, y = np.sort(rng.choice(w, 2)) \
                    + rng.choice([-2e-5, 2e-5, 1e-3, -1e-3], 2)
                out.append([float(x / scale), float(max(x, y) / scale)])
            else:
                out.append([round(lo / scale, 4), round(hi / scale, 4)])
        return out
    return {"obs": [nums(x) for x in some(1.)],
            "rf": [nums(x) for x in some(1 + z)]}


def bal_list(rng):
    """Velocity limits as in catalogues: few entries, the rest not positive,
    at any position."""
    n1, n2 = 5, 3
    v = {}
    for c, n in (("450", n1), ("2000", n2)):
        lo, hi = np.zeros(n) - rng.choice([0., 1.]), np.zeros(n) - 1.
        for k in range(n):
            t = rng.uniform()
            if t < .3:
                lo[k] = round(float(rng.uniform(50, 20000)), 2)
                hi[k] = lo[k] + round(float(rng.uniform(300, 4000)), 2)
            elif t < .36:
                hi[k] = round(float(rng.uniform(50, 20000)), 2)
            elif t < .42:
                lo[k] = round(float(rng.uniform(50, 20000)), 2)
            elif t < .46:
                hi[k] = round(float(rng.uniform(50, 20000)), 2)
                lo[k] = hi[k] + 500.
        if rng.uniform() < .25:
            lo[:], hi[:] = -1., -1.
        v["VMIN_CIV_" + c], v["VMAX_CIV_" + c] = lo, hi
    return v


def bal_rec(v):
    return {"lo": nums(v["VMIN_CIV_450"]) + nums(v["VMIN_CIV_2000"]),
            "hi": nums(v["VMAX_CIV_450"]) + nums(v["VMAX_CIV_2000"])}


def attempt(call):
    try:
        call()
        return "ok"
    except Exception as e:
        return type(e).__name__


def _skybal(seed, i, tmp):
    from qsonic.masks import BALMask, SkyMask
    rng = np.random.default_rng([seed, 8, i])
    z = float(rng.choice([2.25, 2.8, 3., round(rng.uniform(2.1, 3.4), 4)]))
    v = bal_list(rng)
    s = wide(rng, z, extra=v, start=[1020., 900., 1020., 1300.][i % 4])
    ev = [{"k": "start", "out": "ok", "post": world.project(s)}]
    if rng.uniform() < .3:
        arms = list(s.forestwave)
        s.cont_params['valid'] = True
        s.cont_params['cont'] = {a: 1. + 0 * s.forestwave[a] for a in arms}
        if rng.uniform() < .5:
            s.set_smooth_forestivar(40.)
        ev[0]["post"] = world.project(s)
    for kind in rng.permutation(["sky", "bal", "sky"]):
        e = {"k": str(kind), "z": num(z), "sky": NOSKY, "bal": NOBAL,
             "out": "ok", "post": {}}
        if kind == "sky":
            e["sky"] = sky_list(rng, s, z)
            if not e["sky"]["obs"] and not e["sky"]["rf"]:
                continue
            f = os.path.join(tmp, f"sky{os.getpid()}.txt")
            rows = [("a", lo, hi, "OBS") for lo, hi in e["sky"]["obs"]] \
                + [("b", lo, hi, "RF") for lo, hi in e["sky"]["rf"]]
            with open(f, "w") as fh:
                for k in rng.permutation(len(rows)):
                    fh.write(" ".join(rows[k]) + "\n")
            m = SkyMask(f)
            os.remove(f)
            e["out"] = attempt(lambda: m.apply(s))
        else:
            e["bal"] = bal_rec(v)
            e["out"] = attempt(lambda: BALMask.apply(s))
        e["post"] = world.project(s)
        ev.append(e)
    return ev


def skybal(item):
    kind, name, val = simmpi.isolated(_skybal, *item)
    return val if kind == "ok" else [
        {"k": "crash", "name": name, "msg": str(val)[-900:]}]


def _dla(seed, i, tmp):
    """Several sightlines sharing one absorber catalogue."""
    from qsonic.masks import DLAMask
    rng = np.random.default_rng([seed, 9, i])
    n = 4
    big = int(rng.choice([39627700846986001, 10, 2 ** 53 + 1]))
    tids = [big + 3 * k for k in range(n)]
    zq = [float(rng.choice([2.4, 3., round(rng.uniform(2.2, 3.3), 4)]))
          for _ in range(n)]
    rows = []                     # (tid, z, n)
    for k, t in enumerate(tids):
        for _ in range(int(rng.choice([0, 1, 1, 2, 3]))):
            zd = rng.uniform((1 + zq[k]) * 1040 / 1215.67,
                             (1 + zq[k]) * 1.05) - 1
            rows.append((t, round(float(zd), 5),
                         round(float(rng.choice([19., 20.3, 21., 21.9])
                                     + rng.uniform(0, .3)), 3)))
        if rng.uniform() < .25:
            # a pixel at the very centre of a line
            w = 20. * round((1 + zq[k]) * 1120. / 20.)
            u = rng.choice([0., 1e-6, -1e-6, 3e-6, 1e-4])
            zd = w / (1215.67 * (1 + u * 10 / 299792.458)) - 1
            rows.append((t, float(zd), 20.5))
        if rng.uniform() < .3 and rows and rows[-1][0] == t:
            rows.append(rows[-1])     # listed twice
    for k in range(3):            # absorbers of others
        rows.append((big + 1 + 3 * k, round(float(rng.uniform(2., 3.)), 4),
                     21.5))
    rows = [rows[k] for k in rng.permutation(len(rows))]
    zname = str(rng.choice(["Z_DLA", "Z", "both"]))
    f = os.path.join(tmp, f"dla{os.getpid()}.fits")
    world.write_dla(f, [r[0] for r in rows], [r[1] for r in rows],
                    [r[2] for r in rows], zname)
    limit = float(rng.choice([.8, .8, .5]))
    loc = [tids[k] for k in rng.permutation(n)] + [999]
    full = DLAMask(f, None, dla_mask_limit=limit)
    part = DLAMask(f, np.array(loc), dla_mask_limit=limit)
    os.remove(f)
    ev = []
    # each spectrum has its own wavelength range: one per process
    k = i % n
    s = wide(rng, zq[k], tid=tids[k])
    ev.append({"k": "start", "out": "ok", "post": world.project(s)})
    s2 = copy.deepcopy(s)
    e = {"k": "dla", "z": num(zq[k]), "limit": num(limit),
         "dla": [{"z": num(r[1]), "n": num(r[2])} for r in rows
                 if r[0] == tids[k]],
         "cat": [[str(r[0]), num(r[1]), num(r[2])] for r in rows]}
    out = attempt(lambda: full.apply(s))
    out2 = attempt(lambda: part.apply(s2))
    e["out"] = out if out != "ok" else out2
    e["post"], e["post2"] = world.project(s), world.project(s2)
    ev.append(e)
    return ev


def dla(item):
    kind, name, val = simmpi.isolated(_dla, *item)
    return val if kind == "ok" else [
        {"k": "crash", "name": name, "msg": str(val)[-900:]}]


def full(item):
    """A whole run with masks; one event per saved arm."""
    k, tmp, seed, c = item
    d = os.path.join(tmp, f"mrun{k}")
    rng = np.random.default_rng([seed, 11, k])
    q = []
    for i in range(c.get("n", 24)):
        x = dict(tid=39627700846986001 + 37 * i, pix=100 + 7 * (i % 4),
                 survey="main", night=20210101,
                 z=round(float(rng.uniform(2.2, 3.1)), 5), fate="good",
                 ra=5. + i, dec=2. + .1 * i)
        x.update(bal_list(rng) if c.get("bal") and i % 2 else
                 {"VMIN_CIV_450": -np.ones(5), "VMAX_CIV_450": -np.ones(5),
                  "VMIN_CIV_2000": -np.ones(3),
                  "VMAX_CIV_2000": -np.ones(3)})
        q.append(x)
    s = world.Survey(d, rng, q, bal=True, dwave=16.)
    f = world.write_fiducial(f"{d}/fid.fits")
    o = ["--skip-resomat", "--fiducial-meanflux", f, "--fiducial-varlss", f,
         "--coadd-arms", "disable", "--min-forestsnr", "-1000", "--skip",
         "0"]
    sky = NOSKY
    if c.get("sky"):
        sky = {"obs": [nums([4010., 4055.]), nums([4290., 4305.])],
               "rf": [nums([1101., 1106.5]), nums([1150., 1151.])]}
        o += ["--sky-mask", forest.write_sky(
            f"{d}/sky.txt", [[float(y) for y in x] for x in sky["obs"]],
            [[float(y) for y in x] for x in sky["rf"]])]
    if c.get("bal"):
        o.append("--bal-mask")
    dl = []
    if c.get("dla"):
        for x in q:
            for _ in range(int(rng.choice([0, 0, 1, 2]))):
                zd = rng.uniform((1 + x["z"]) * 1050 / 1215.67,
                                 (1 + x["z"])) - 1
                dl.append((x["tid"], round(float(zd), 5),
                           round(float(rng.uniform(20, 21)), 3)))
        dl = [dl[j] for j in rng.permutation(len(dl))]
        o += ["--dla-mask", world.write_dla(
            f"{d}/dla.fits", [r[0] for r in dl], [r[1] for r in dl],
            [r[2] for r in dl])]
    r = world.run_fit(world.fit_argv(s, d + "/out", *o), c["size"])
    out = {"deltas": []}
    if r.all_ok:
        out = world.outputs(d + "/out")
    shutil.rmtree(d, ignore_errors=True)
    by = {str(x["tid"]): x for x in q}
    ev = [{"k": "run", "out": "ok" if r.all_ok else r.first_error()[-600:],
           "n": len(out["deltas"]), "case": c}]
    for en in out["deltas"]:
        t, arm = en["ext"].split("-")[:2]
        x = by.get(t)
        if x is None or arm not in s.wave:
            continue
        fl, iv, mk = x["data"][arm]
        ev.append({
            "k": "saved", "z": num(x["z"]), "sky": sky,
            "bal": bal_rec(x) if c.get("bal") else NOBAL,
            "dla": [{"z": num(y[1]), "n": num(y[2])} for y in dl
                    if y[0] == x["tid"]], "limit": "0.8",
            "raw": {"wave": nums(s.wave[arm]), "flux": nums(fl),
                    "ivar": nums(iv), "mask": nums(mk)},
            "ent": {a: en[a] for a in ("lam", "delta", "ivar", "cont")}})
    return ev
