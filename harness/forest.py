"""One spectrum driven through sequences of processing steps; every step is
recorded with the projected state after it."""
import copy
import os

import numpy as np

import simmpi
import world
from core import num, nums


# ---------------------------------------------------------------- inputs
def grids(rng, kind=None):
    """dict arm -> wavelength, and the pixel size; the arms in any order."""
    g, dw = _grids(rng, kind)
    arms = sorted(g)
    if rng.uniform() < .4:
        arms = [arms[k] for k in rng.permutation(len(arms))]
    return {a: g[a] for a in arms}, dw


def _grids(rng, kind):
    dw = float(rng.choice([0.8, 1.0, 0.5]))
    w0 = 4000.
    kind = kind if kind is not None else int(rng.integers(0, 6))
    n = [int(x) for x in rng.integers(6, 10, 3)]
    g = {"B": w0 + dw * np.arange(n[0])}
    if kind == 0:                       # one arm
        return g, dw
    off = n[0] - int(rng.integers(1, 5))            # overlap
    if kind == 2:
        off = n[0] + int(rng.integers(0, 4))        # touching or gap
    g["R"] = w0 + dw * (off + np.arange(n[1]))
    if kind in (1, 2):
        return g, dw
    off2 = off + n[1] - int(rng.integers(1, 4))
    if kind == 4:
        off2 += 5
    sh = 0.5 * dw if kind == 5 else 0.
    g["Z"] = w0 + sh + dw * (off2 + np.arange(n[2]))
    return g, dw


def raw(rng, g, reso=None, bad=0.3, ndia=(3, 3, 3)):
    """Raw pixel data: dict arm -> (flux, ivar, mask); some pixels bad."""
    out, rs = {}, {}
    for j, (a, w) in enumerate(g.items()):
        n = w.size
        fl = np.round(3 + rng.standard_normal(n), 3)
        iv = np.round(10**rng.uniform(-1, 2, n), 3)
        mk = np.zeros(n, dtype='i4')
        for k in range(n):
            if rng.uniform() < bad:
                t = rng.integers(0, 6)
                if t == 0:
                    mk[k] = rng.integers(1, 128)
                    bit = int(iv[k] * 1000) % 40     # or any bit
                    if bit < 32:                     # the sign included
                        mk[k] = np.int64(1 << (31 if bit % 4 == 0 else bit)
                                         ).astype('i4')
                elif t == 1:
                    fl[k] = np.nan
                elif t == 2:
                    iv[k] = np.nan
                elif t == 3:
                    iv[k] = -iv[k]
                elif t == 4:
                    iv[k] = 0.
                else:
                    fl[k], iv[k], mk[k] = np.nan, -1., 2
        # good pixels with no flux at all
        z = (iv > 0) & (mk == 0) & np.isfinite(fl) & (rng.uniform(size=n) < .08)
        fl[z] = 0.
        if rng.uniform() < 0.06:
            mk[:] = 1
        out[a] = (fl, iv, mk)
        rs[a] = np.round(rng.uniform(.1, 1., (ndia[j], n)), 3)
        rs[a][ndia[j] // 2] += 1.          # peaked, as resolutions are
    return out, rs if reso else {}


def tweak_bad(data, v):
    """Other values in the pixels that must not matter (same pixels, same
    kind of badness), depending on v."""
    r = np.random.default_rng([17, v])
    for fl, iv, mk in data.values():
        for k in range(fl.size):
            x, y = 10**r.uniform(-3, 8), 10**r.uniform(-6, 6)
            sg = r.choice([-1, 1])
            if mk[k]:
                fl[k], iv[k] = sg * x, y
                mk[k] = np.int64(1 << int(r.integers(0, 32))).astype('i4')
            elif np.isnan(fl[k]):
                iv[k] = y
            elif np.isnan(iv[k]):
                fl[k] = sg * x
            elif iv[k] < 0:
                fl[k], iv[k] = sg * x, -y
            elif iv[k] == 0:
                fl[k] = sg * x


def catrow(z, tid=39627700846986001, pix=12, ra=10., dec=5., extra=None):
    dt = [("TARGETID", "i8"), ("Z", "f8"), ("RA", "f8"), ("DEC", "f8"),
          ("HPXPIXEL", "i8")]
    for k, v in (extra or {}).items():
        v = np.asarray(v)
        dt.append((k, v.dtype.str, v.shape) if v.ndim else (k, v.dtype.str))
    c = np.zeros(1, dtype=dt)
    c["TARGETID"], c["Z"], c["RA"], c["DEC"], c["HPXPIXEL"] = \
        tid, z, ra, dec, pix
    for k, v in (extra or {}).items():
        c[k] = v
    return c[0]


def make_spectrum(cat, g, data, rs):
    from qsonic.spectrum import Spectrum
    wave = {a: w.copy() for a, w in g.items()}
    fl = {a: data[a][0][None].copy() for a in g}
    iv = {a: data[a][1][None].copy() for a in g}
    mk = {a: data[a][2][None].copy() for a in g}
    re = {a: r[None].copy() for a, r in rs.items()}
    return Spectrum(cat, wave, fl, iv, mk, re, 0)


def full(s):
    """The full (unselected) spectrum."""
    return [{"arm": a, "wave": nums(s.wave[a]), "flux": nums(s.flux[a]),
             "ivar": nums(s.ivar[a]),
             "reso": nums(np.asarray(s.reso[a]).T) if a in s.reso else []}
            for a in s.flux]


def line(rng, lo, hi, slope=1e-3):
    a = round(float(rng.uniform(lo, hi)), 4)
    b = round(float(rng.uniform(-slope, slope)), 6)
    return {"a": num(a), "b": num(b)}


def fn(ln):
    a, b = float(ln["a"]), float(ln["b"])
    return lambda x: a + b * (np.asarray(x) - 4000.)


ZERO, ONE = {"a": "0", "b": "0"}, {"a": "1", "b": "0"}


def write_sky(path, obs=(), rest=()):
    with open(path, "w") as f:
        for lo, hi in obs:
            f.write(f"sky {num(lo)} {num(hi)} OBS\n")
        for lo, hi in rest:
            f.write(f"rest {num(lo)} {num(hi)} RF\n")
    return path


def region_args(rng, g, z, kind):
    w = np.concatenate(list(g.values()))
    lo, hi = w.min(), w.max()
    span = hi - lo
    if kind == 1:
        w1, w2 = lo - 5 + 6 * rng.uniform(), hi + 5 - 6 * rng.uniform()
        a, b = lo - 20, hi + 20
    elif kind == 2:
        w1, w2 = lo - 30, hi + 30
        a = lo + .3 * span * rng.uniform() - 1
        b = hi - .3 * span * rng.uniform() + 1
    elif kind == 4 and z == 3. and w[1] - w[0] in (1., .5):
        # rest-frame limits exactly on pixels
        w1, w2 = lo - 30, hi + 30
        a = float(rng.choice(np.sort(w)[:5]))
        b = float(rng.choice(np.sort(w)[-5:]))
        return {"w1": num(w1), "w2": num(w2), "l1": num(a / 4.),
                "l2": num(b / 4.)}
    elif kind == 4:
        # limits just beside pixels
        u = rng.choice([1e-4, 1e-5, 1e-6, -1e-4, -1e-5, -1e-6], 4)
        w1, w2 = (float(rng.choice(np.sort(w)[c])) + x
                  for c, x in ((slice(5), u[0]), (slice(-5, None), u[1])))
        a, b = (float(rng.choice(np.sort(w)[c])) + x
                for c, x in ((slice(5), u[2]), (slice(-5, None), u[3])))
        return {"w1": num(w1), "w2": num(w2), "l1": num(a / (1 + z)),
                "l2": num(b / (1 + z))}
    else:
        # exactly on pixels
        w1 = float(rng.choice(np.sort(w)[:5]))
        w2 = float(rng.choice(np.sort(w)[-5:]))
        a, b = lo - 20, hi + 20
    l1, l2 = round(a / (1 + z), 3), round(b / (1 + z), 3)
    return {"w1": num(w1), "w2": num(w2), "l1": num(l1), "l2": num(l2)}


class Runner:
    def __init__(self, rng, tmp, reso=None, kind=None, bad=0.3, ndia=None,
                 wide=False, tweak=None, units=1.):
        self.rng, self.tmp = rng, tmp
        self.g, self.dw = grids(rng, kind)
        self.reso = bool(rng.integers(0, 2)) if reso is None else reso
        ndia = ndia or [(3, 3, 3), (5, 3, 5)][int(rng.integers(0, 2))]
        self.data, self.rs = raw(rng, self.g, self.reso, bad, ndia)
        for a, (fl, iv, mk) in self.data.items():   # in other units
            if units != 1.:
                self.data[a] = fl * units, iv / units**2, mk
        if tweak is not None:
            tweak_bad(self.data, tweak)
        self.z = float(rng.choice([2.25, 2.296875, 2.298828125, 2.5]))
        if wide:
            self.z = 3.
        self.cat = catrow(self.z)
        self.ev = []
        self.phase = 1
        self.scale = 0.
        self.forgot = False
        self.simple = False
        self.nocont = False
        self.s = None

    def rec(self, op, a, out="ok", **kw):
        e = {"k": op, "a": a, "out": out, "z": num(self.z),
             "dw": num(self.dw), "phase": self.phase,
             "post": world.project(self.s) if self.s is not None else {}}
        if not self.forgot and not self.simple:
            e["full"] = full(self.s)
        e.update(kw)
        self.ev.append(e)

    def do(self, op, a, call, **kw):
        try:
            r = call()
            out = "ok"
        except Exception as e:
            r, out = None, type(e).__name__
            kw["msg"] = str(e)[:200]
        if "ret" in kw:
            kw["ret"] = kw["ret"](r)
        self.rec(op, a, out, **kw)
        return out == "ok"

    def start(self):
        self.s = make_spectrum(self.cat, self.g, self.data, self.rs)
        self.rec("new", {"raw": [
            {"arm": a, "wave": nums(self.g[a]), "flux": nums(d[0]),
             "ivar": nums(d[1]), "mask": nums(d[2]),
             "reso": nums(self.rs[a].T) if self.rs else []}
            for a, d in self.data.items()]})
        self.full0 = self.ev[0]["full"]

    def resmooth(self):
        """Smoothing applied afresh to a copy of the coadded arm."""
        c = copy.deepcopy(self.s)
        try:
            c.set_smooth_forestivar(self.scale)
            return nums(c.forestivar_sm["brz"])
        except Exception:
            return []

    def save(self, o):
        import tempfile
        from types import SimpleNamespace
        from qsonic.io import save_deltas
        from qsonic.spectrum import Spectrum
        s = self.s
        Spectrum.set_blinding(20210101, SimpleNamespace(
            mock_analysis=True, forest_w1=1050., skip_resomat=not self.reso))
        with tempfile.TemporaryDirectory(dir=self.tmp) as d:
            ent = []

            def call():
                save_deltas([s], d, mpi_rank=0)
                ent.extend(world.read_delta_file(d + "/delta-0.fits"))
            return self.do("save", {}, call, ret=lambda r: ent)

    # -- one abstract step
    def step(self, o):
        """Returns False when the sequence ends."""
        s, rng, op = self.s, self.rng, o["op"]
        arms = sorted(s.forestwave)
        if not arms and op not in ("region", "simple"):
            return True
        if self.nocont and op in ("slice", "drop", "dropshort", "dropempty",
                                  "coadd", "addnoise"):
            return True
        if op == "region":
            if self.forgot or self.phase != 1:
                return True
            a = region_args(rng, self.g, self.z, o["r"])
            return self.do("region", a, lambda: s.set_forest_region(
                float(a["w1"]), float(a["w2"]), float(a["l1"]),
                float(a["l2"])), full0=self.full0,
                ret=lambda r: num(s.get_effective_meansnr())
                if s.mean_snr is not None else "nan")
        if op == "forget":
            self.forgot = True
            return self.do("forget", {}, s.remove_nonforest_pixels)
        if op == "sky":
            from qsonic.masks import SkyMask
            lo = 4000 + 10 * rng.uniform()
            f = write_sky(os.path.join(self.tmp, f"sky{os.getpid()}.txt"),
                          [(lo, lo + 2.3)], [(1230., 1230.9)])
            m = SkyMask(f)
            os.remove(f)
            return self.do("sky", {}, lambda: m.apply(s))
        if op in ("noisecal", "addnoise"):
            from qsonic.calibration import NoiseCalibrator
            f = world.write_noisecal(
                os.path.join(self.tmp, f"nc{os.getpid()}.fits"), 3990., 5., 9)
            add = op == "addnoise"
            c = NoiseCalibrator(f, add_varlss=add, no_eta=add)
            os.remove(f)
            return self.do(op, {}, lambda: c.apply([s]))
        if op == "fluxcal":
            from qsonic.calibration import FluxCalibrator
            f = world.write_fluxcal(
                os.path.join(self.tmp, f"fc{os.getpid()}.fits"), 3990., 2.,
                40)
            c = FluxCalibrator(f)
            os.remove(f)
            return self.do(op, {}, lambda: c.apply([s]))
        if op == "dropempty":
            return self.do("dropshort", {"l1": "0", "l2": "0", "skip": "0"},
                           s.drop_short_arms)
        if op == "dropshort":
            l1, l2 = 1200., 1200. + round(float(rng.uniform(1, 4)), 2)
            sk = [0., .5, 1.][o["f"]]
            return self.do("dropshort", {"l1": num(l1), "l2": num(l2),
                                         "skip": num(sk)},
                           lambda: s.drop_short_arms(l1, l2, sk))
        if op == "smooth":
            self.phase = 2
            sc = [0., 2 * self.dw, 5 * self.dw][o["s"]]
            if sc and rng.uniform() < .25:
                sc = round(self.dw * float(rng.choice([.3, .6, .9, 1.1])), 3)
            self.scale = sc
            return self.do("smooth", {"scale": num(sc)},
                           lambda: s.set_smooth_forestivar(sc))
        if op == "slice":
            arm = arms[o["a"] % len(arms)]
            n = s.forestwave[arm].size
            i1 = int(rng.integers(0, max(1, min(3, n))))
            i2 = int(rng.integers(i1 + 1, n + 1)) if n > i1 else n
            if rng.uniform() < .2:
                i1, i2 = 0, n
            return self.do("slice", {"arm": arm, "i1": i1, "i2": i2},
                           lambda: s.slice(arm, i1, i2))
        if op == "drop":
            if len(arms) == 1:
                return True
            arm = arms[o["a"] % len(arms)]
            return self.do("drop", {"arm": arm}, lambda: s.drop_arm(arm))
        if op == "cont":
            self.phase = 2
            v = o["v"]
            amp = float(rng.uniform(.5, 4))
            self.nocont = v == 3
            if v == 3:
                s.cont_params['valid'] = False
                s.cont_params['cont'] = None
            else:
                # v = 4: a continuum that was found invalid
                s.cont_params['valid'] = v != 4
                s.cont_params['cont'] = {
                    a: amp + .03 * (s.forestwave[a] - 4000.) for a in arms}
            self.rec("cont", {"v": v})
            return True
        if op == "weight":
            w = o["w"]
            if w == 1:
                vl, et = ZERO, ONE
                call = s.set_forest_weight
            elif w == 2:
                vl, et = line(rng, .01, .3), ONE
                call = lambda: s.set_forest_weight(fn(vl))
            else:
                vl, et = line(rng, .01, .3), line(rng, .8, 1.6)
                call = lambda: s.set_forest_weight(fn(vl), fn(et))
            return self.do("weight", {"vl": vl, "eta": et}, call)
        if op == "chi2":
            return self.do("chi2", {}, s.calc_continuum_chi2,
                           ret=lambda r: num(r))
        if op == "coadd":
            if self.phase == 1:
                vl, et = ZERO, ONE
                call = s.coadd_arms_forest
            else:
                vl, et = line(rng, .01, .3), line(rng, .8, 1.6)
                call = lambda: s.coadd_arms_forest(fn(vl), fn(et))
            return self.do("coadd", {"vl": vl, "eta": et}, call,
                           scale=num(self.scale),
                           ret=lambda r: self.resmooth())
        if op == "save":
            # the mean resolution needs five diagonals
            if not s.cont_params['valid'] or any(
                    x.shape[0] < 5 for x in s.forestreso.values()):
                return True
            return self.save(o)
        if op == "simple":
            if len(self.ev) > 1:
                return True
            pre = full(s)
            self.simple = True
            e = self.do("simple", {}, s.simple_coadd, pre=pre)
            self.ev[-1]["full"] = full(s) if e else []
            self.full0 = self.ev[-1]["full"]
            return e
        raise ValueError(op)

    def run(self, ops):
        self.start()
        for o in ops:
            if not self.step(o):
                break
        return self.ev


def _run(seed, i, tmp, ops, kw):
    rng = np.random.default_rng([seed, 77, i])
    return Runner(rng, tmp, **kw).run(ops)


def one(item):
    """(seed, i, tmp, ops, kw) -> events, in a fresh process."""
    kind, name, val = simmpi.isolated(_run, *item)
    if kind != "ok":
        return [{"k": "crash", "name": name, "msg": str(val)[-800:],
                 "out": name, "a": {}, "post": {}}]
    return val


def ops(*names):
    """Scripted sequence: "op" or ("op", {...})."""
    d = {"region": {"r": 1}, "smooth": {"s": 1}, "cont": {"v": 1},
         "weight": {"w": 3}, "slice": {"a": 0}, "drop": {"a": 1},
         "dropshort": {"f": 1}}
    out = []
    for n in names:
        n, kw = (n, {}) if isinstance(n, str) else n
        out.append({"op": n, **d.get(n, {}), **kw})
    return out


SCRIPTS = [
    ops("region", "noisecal", "fluxcal", "sky", "dropempty", "smooth",
        "cont", "weight", "chi2", "addnoise", "smooth", "weight", "coadd",
        "chi2", "dropshort"),
    ops("region", "forget", "coadd", "fluxcal", "sky", "dropempty", "smooth",
        "cont", "weight", "chi2", ("slice", {"a": 0}), "chi2"),
    ops(("region", {"r": 2}), ("region", {"r": 3}), "forget", "sky",
        ("smooth", {"s": 0}), "cont", "weight", ("slice", {"a": 1}),
        ("slice", {"a": 0}), "coadd", "chi2"),
    ops("region", "slice", ("slice", {"a": 1}), "smooth", "slice", "cont",
        "slice", "weight", ("slice", {"a": 1}), "drop", "chi2", "coadd"),
    ops("region", "smooth", "weight", ("cont", {"v": 3}), "weight", "chi2",
        ("cont", {"v": 2}), "weight", "chi2", "weight", "chi2",
        ("smooth", {"s": 0}), "chi2"),
    ops("region", "cont", "weight", "coadd", "chi2",
        ("smooth", {"s": 2}), "weight", "chi2"),
    ops("region", ("smooth", {"s": 2}), ("smooth", {"s": 0}), "cont",
        "weight", "chi2", "coadd", "chi2", "weight", "chi2", "save"),
    ops("region", "sky", ("region", {"r": 2}), "noisecal", "fluxcal",
        ("region", {"r": 1}), "smooth", ("smooth", {"s": 0}), "cont",
        "weight", "chi2"),
]


def scripted(chk, n, off=100000, **kw):
    return [(chk.seed, off + i, chk.tmp, SCRIPTS[i % len(SCRIPTS)], kw)
            for i in range(n)]
