"""Synthetic surveys on disk and projections of real objects to trace fields."""
import os

import fitsio
import numpy as np

from core import num, nums


def write_spectra_file(path, targetids, wave, flux, ivar, mask, reso=None,
                       extra=None, dt='f8'):
    """DESI-like spectra/coadd file.  flux etc.: dict arm -> (n, nwave)."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    n = len(targetids)
    fdt = dt
    dt = [('TARGETID', 'i8')]
    extra = extra or {}
    for k, v in extra.items():
        dt.append((k, np.asarray(v).dtype.str))
    fbr = np.zeros(n, dtype=dt)
    fbr['TARGETID'] = targetids
    for k, v in extra.items():
        fbr[k] = v
    with fitsio.FITS(path, 'rw', clobber=True) as f:
        f.write(fbr, extname='FIBERMAP')
        for arm in wave:
            f.write(np.asarray(wave[arm], dtype='f8'),
                    extname=f'{arm}_WAVELENGTH')
            f.write(np.asarray(flux[arm], dtype=fdt), extname=f'{arm}_FLUX')
            f.write(np.asarray(ivar[arm], dtype=fdt), extname=f'{arm}_IVAR')
            f.write(np.asarray(mask[arm], dtype='i4'), extname=f'{arm}_MASK')
            if reso is not None and arm in reso:
                f.write(np.asarray(reso[arm], dtype=fdt),
                        extname=f'{arm}_RESOLUTION')


def mock_paths(d, pix, nside=16):
    b = f"{d}/{pix // 100}/{pix}"
    return f"{b}/spectra-{nside}-{pix}.fits", f"{b}/truth-{nside}-{pix}.fits"


def data_path(d, survey, pix, kind="coadd", program="dark"):
    return (f"{d}/{survey}/{program}/{pix // 100}/{pix}/"
            f"{kind}-{survey}-{program}-{pix}.fits")


def tile_path(d, tile, petal, night):
    return f"{d}/{tile}/{night}/coadd-{petal}-{tile}-thru{night}.fits"


def write_truth(path, targetids, cont, wmin, wmax, dwave, reso=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    t = np.zeros(len(targetids), dtype=[
        ('TARGETID', 'i8'), ('TRUE_CONT', 'f8', (cont.shape[1],))])
    t['TARGETID'] = targetids
    t['TRUE_CONT'] = cont
    with fitsio.FITS(path, 'rw', clobber=True) as f:
        f.write(t, extname='TRUE_CONT',
                header={'WMIN': wmin, 'WMAX': wmax, 'DWAVE': dwave})
        if reso is not None:
            for arm in reso:
                f.write(np.asarray(reso[arm]), extname=f'{arm}_RESOLUTION')


def write_catalog(path, cols, extname='ZCATALOG'):
    """cols: dict name -> array"""
    n = len(next(iter(cols.values())))
    dt = []
    for k, v in cols.items():
        v = np.asarray(v)
        dt.append((k, v.dtype.str) if v.ndim == 1
                  else (k, v.dtype.str, v.shape[1:]))
    c = np.zeros(n, dtype=dt)
    for k, v in cols.items():
        c[k] = v
    with fitsio.FITS(path, 'rw', clobber=True) as f:
        f.write(c, extname=extname)
    return c


# ------------------------------------------------------------ projections
ARMS = ['B', 'R', 'Z', 'brz']


def proj_dict(d):
    """dict arm -> array, as a sorted list of {arm, v} records."""
    if not d:
        return []
    return [{"arm": str(a), "v": nums(d[a])} for a in sorted(d)]


def proj_forest(spec):
    cont = spec.cont_params['cont'] or {}
    reso = spec.forestreso or {}
    arms = sorted(set(spec.forestwave))
    out = []
    for a in arms:
        rec = {"arm": a, "wave": nums(spec.forestwave[a]),
               "flux": nums(spec.forestflux[a]) if a in spec.forestflux
               else [],
               "ivar": nums(spec.forestivar[a]) if a in spec.forestivar
               else [],
               "ivsm": nums(spec.forestivar_sm[a])
               if a in spec.forestivar_sm else [],
               "wt": nums(spec.forestweight[a])
               if a in spec.forestweight else [],
               "cont": nums(cont[a]) if a in cont else [],
               "reso": nums(np.asarray(reso[a]).T) if a in reso else []}
        out.append(rec)
    return out


def project(spec):
    """Observable state of a Spectrum (public attributes only)."""
    cont = spec.cont_params['cont'] or {}
    return {
        "forest": proj_forest(spec),
        "keys": {
            "flux": sorted(spec.forestflux), "ivar": sorted(spec.forestivar),
            "ivsm": sorted(spec.forestivar_sm),
            "wt": sorted(spec.forestweight),
            "cont": sorted(cont), "reso": sorted(spec.forestreso)},
        "valid": bool(spec.cont_params['valid']),
        "chi2": num(spec.cont_params['chi2']),
        "snr": [{"arm": a, "v": num(v)}
                for a, v in sorted((spec.mean_snr or {}).items())],
        "rsnr": num(spec.rsnr),
        "x0": num(spec.cont_params['x'][0]),
    }


# ------------------------------------------------------------ whole surveys
class Survey:
    """A small survey on disk with known ground truth.

    quasars: list of dicts with tid, pix, survey, z, fate and optionally ra,
    dec, night, nexp.  Fates:
      good     survives every cut and is fitted
      masked   every forest pixel is flagged
      short    all but three forest pixels are flagged
      onearm   forest pixels only in the first arm
      faint    negligible signal on the red side and in the forest
      invalid  negative flux: the fitted continuum is negative (survives the
               cuts only with a negative minimum forest signal-to-noise)
      absent   in the catalogue but not in any file
    """
    FOREST = (1050., 1180.)

    def __init__(self, d, rng, quasars, kind="data", dwave=8., reso=False,
                 arms=("B", "R"), w1=3600., w2=4800., shuffle=True,
                 ndiag=5, bal=False, cat_columns=None, tweak=None):
        self.d, self.rng, self.kind = d, rng, kind
        self.q = quasars
        self.dwave, self.w1, self.w2 = dwave, w1, w2
        # all arms on one grid
        def on(w):
            return 3600. + dwave * np.ceil((w - 3600.) / dwave)
        grids = {"B": np.arange(3600., 4401., dwave),
                 "R": np.arange(on(4200.), 5001., dwave),
                 "Z": np.arange(on(4800.), 5401., dwave)}
        self.wave = {a: grids[a] for a in arms}
        self.reso = reso
        self.ndiag = ndiag
        os.makedirs(d, exist_ok=True)
        self.catalog = f"{d}/cat.fits"
        self._data()
        if tweak:
            tweak(self)
        self._catalog(bal, cat_columns)
        self._files(shuffle)

    def _forest(self, q, w):
        l1 = max(self.w1, self.FOREST[0] * (1 + q["z"]))
        l2 = min(self.w2, self.FOREST[1] * (1 + q["z"]))
        return (w >= l1) & (w < l2)

    def _one(self, q):
        rng = self.rng
        out = {}
        amp = rng.uniform(1.5, 3.)
        for a, w in self.wave.items():
            n = w.size
            iv = 10**rng.uniform(-0.5, 2.5, n)
            cont = amp * (1 + 0.2 * np.sin(w / 300.) + 1e-4 * (w - 4000))
            fl = cont * np.exp(-0.15 * rng.standard_normal(n)**2) \
                + rng.standard_normal(n) / np.sqrt(iv)
            mk = (rng.uniform(size=n) < 0.03).astype('i4')
            f = self._forest(q, w)
            fate = q["fate"]
            if fate == "masked":
                mk[f] = 1
            elif fate == "short":
                keep = np.nonzero(f)[0][:3] if a == list(self.wave)[0] \
                    else []
                mk[f] = 4
                mk[keep] = 0
            elif fate == "onearm":
                if a != list(self.wave)[0]:
                    mk[f] = 1
            elif fate == "faint":
                fl = 1e-3 * rng.standard_normal(n)
                iv = np.full(n, 1e-2)
            elif fate == "invalid":
                lo, hi = (1 + q["z"]) * np.array(self.FOREST)
                fl = np.where((w >= lo) & (w < hi), -3., 3.) \
                    + 0.1 * rng.standard_normal(n)
                iv = np.full(n, 50.)
            out[a] = (fl, iv, mk)
        return out

    def _data(self):
        for q in self.q:
            q["data"] = self._one(q)
            ne = q.get("nexp", 0)
            q["exps"] = []
            for k in range(ne):
                e = {}
                for a, (fl, iv, mk) in q["data"].items():
                    ive = iv / ne
                    e[a] = (fl + self.rng.standard_normal(fl.size)
                            * (0.02 if q["fate"] != "faint" else 1e-4),
                            ive,
                            mk | (self.rng.uniform(size=fl.size) < .02))
                q["exps"].append({"expid": 1000 + 17 * k + q["tid"] % 5,
                                  "data": e})

    def _catalog(self, bal, extra):
        q = self.q
        n = len(q)
        order = self.rng.permutation(n)
        g = lambda k, dflt: np.array([q[i].get(k, dflt) for i in order])
        cols = dict(TARGETID=g("tid", 0), Z=g("z", 0.),
                    RA=np.array([q[i].get("ra", 10. + i) for i in order]),
                    DEC=np.array([q[i].get("dec", 0.5 * i) for i in order]),
                    HPXPIXEL=g("pix", 0))
        if self.kind != "mock":
            cols["SURVEY"] = g("survey", "main")
            cols["LASTNIGHT"] = g("night", 20210101)
        if self.kind == "tile":
            cols["TILEID"] = g("tile", 80)
            cols["PETAL_LOC"] = g("petal", 0)
        if bal:
            for c in ("VMIN_CIV_450", "VMAX_CIV_450", "VMIN_CIV_2000",
                      "VMAX_CIV_2000"):
                cols[c] = np.array([q[i].get(c, [0., 0.]) for i in order])
        for k, v in (extra or {}).items():
            cols[k] = np.array([v[q[i]["tid"]] for i in order])
        write_catalog(self.catalog, cols)

    def _resomat(self, n, w):
        x = np.arange(self.ndiag) - self.ndiag // 2
        r = np.exp(-x[:, None]**2 / 2. / (1 + 1e-4 * (w - 4000))**2)
        return np.repeat((r / r.sum(0))[None], n, 0) \
            * self.rng.uniform(.9, 1.1, (n, 1, 1))

    def _files(self, shuffle):
        groups = {}
        for q in self.q:
            k = (q["pix"],) if self.kind == "mock" else \
                (q["tile"], q["petal"], q.get("night", 20210101)) \
                if self.kind == "tile" else (q.get("survey", "main"),
                                             q["pix"])
            groups.setdefault(k, []).append(q)
        for k, qs in groups.items():
            here = [q for q in qs if q["fate"] != "absent"]
            if not here:
                # a file must exist; it holds an unrelated target
                other = dict(qs[0], tid=qs[0]["tid"] + 5_000_000,
                             fate="good")
                other["data"] = self._one(other)
                other["exps"] = [{"expid": 1, "data": other["data"]}]
                here = [other]
            if shuffle:
                here = [here[i] for i in self.rng.permutation(len(here))]
            rows = [(q, None) for q in here]
            if self.kind == "mock":
                path, tpath = mock_paths(self.d, k[0])
                self._write(path, rows, False)
                w = np.arange(3500., 5600., 2.)
                tq = [here[i] for i in self.rng.permutation(len(here))]
                for q in tq:
                    q["tcont"] = 2 + 0.3 * np.sin(w / 200. + q["tid"] % 7)
                reso = {a: self._resomat(1, ww)[0]
                        for a, ww in self.wave.items()} if self.reso else None
                write_truth(tpath, [q["tid"] for q in tq],
                            np.array([q["tcont"] for q in tq]),
                            w[0], w[-1], 2., reso)
            elif self.kind == "tile":
                self._write(tile_path(self.d, *k), rows, self.reso)
            else:
                self._write(data_path(self.d, *k), rows, self.reso)
                er = [(q, e) for q in here for e in q["exps"]]
                if er:
                    er = [er[i] for i in self.rng.permutation(len(er))]
                    self._write(data_path(self.d, *k, kind="spectra"), er,
                                self.reso)

    def _write(self, path, rows, reso):
        n = len(rows)
        D = [q["data"] if e is None else e["data"] for q, e in rows]
        fl = {a: np.array([x[a][0] for x in D]) for a in self.wave}
        iv = {a: np.array([x[a][1] for x in D]) for a in self.wave}
        mk = {a: np.array([x[a][2] for x in D]) for a in self.wave}
        rs = {a: self._resomat(n, w) for a, w in self.wave.items()} \
            if reso else None
        extra = None
        if rows[0][1] is not None:
            extra = dict(
                PETAL_LOC=np.array([e["expid"] % 10 for q, e in rows]),
                FIBER=np.array([q["tid"] % 5000 for q, e in rows]),
                NIGHT=np.array([20210100 + e["expid"] % 28
                                for q, e in rows]),
                EXPID=np.array([e["expid"] for q, e in rows]),
                TILEID=np.array([e["expid"] // 3 for q, e in rows]))
        write_spectra_file(path, [q["tid"] for q, e in rows], self.wave, fl,
                           iv, mk, rs, extra)


def shrink_varlss(nvarbins=10, easy=False):
    """Few variance bins and low thresholds, so small surveys can be fitted.
    Public knobs only (keyword default of the constructor, documented class
    thresholds)."""
    import inspect
    import qsonic.picca_continuum as pc
    f = pc.VarLSSFitter.__init__
    names = [k for k, v in inspect.signature(f).parameters.items()
             if v.default is not inspect._empty]
    dd = list(f.__defaults__)
    dd[names.index("nvarbins")] = nvarbins
    f.__defaults__ = tuple(dd)
    pc.VarLSSFitter.min_num_pix = 3 if easy else 6
    pc.VarLSSFitter.min_num_qso = 2 if easy else 3


def fit_argv(s, out, *extra):
    return ["qsonic-fit", "-i", s.d, "--catalog", s.catalog, "-o", out,
            "--rfdwave", "8", "--wave1", num(s.w1), "--wave2", num(s.w2),
            "--num-iterations", "2", *extra]


def run_fit(argv, size, timeout=120., easy=False):
    import sys

    import simmpi
    import qsonic.scripts.qsonic_fit as qf

    def job(comm, rank, sz):
        shrink_varlss(easy=easy)
        sys.argv = list(argv)
        return qf.mpi_run_all(comm, rank, sz)
    return simmpi.run(job, size, timeout)


def write_fiducial(path, w1=3500., w2=5000., dw=10., mf=None, vl=None):
    w = np.arange(w1, w2, dw)
    mf = 0.8 + 1e-4 * (w - 4000) if mf is None else mf(w)
    vl = 0.05 + 1e-5 * (w - 4000) if vl is None else vl(w)
    with fitsio.FITS(path, 'rw', clobber=True) as f:
        f.write([w, mf, vl], names=['LAMBDA', 'MEANFLUX', 'VAR_LSS'],
                extname='STATS')
    return path


def write_noisecal(path, w1=3600., dw=120., n=11, eta=None, vl=None):
    w = w1 + dw * np.arange(n)
    eta = 1.1 + 1e-4 * (w - 4000) if eta is None else eta
    vl = 0.02 + 1e-5 * (w - 4000) if vl is None else vl
    with fitsio.FITS(path, 'rw', clobber=True) as f:
        f.write([w, vl, eta], names=['lambda', 'var_lss', 'eta'],
                extname='VAR_FUNC')
    return path


def write_fluxcal(path, w1=3600., dw=8., n=160, sf=None):
    w = w1 + dw * np.arange(n)
    sf = 1. + 0.05 * np.sin(w / 100.) if sf is None else sf
    with fitsio.FITS(path, 'rw', clobber=True) as f:
        f.write([w, sf], names=['lambda', 'stacked_flux'],
                extname='STACKED_FLUX')
    return path


def write_dla(path, tids, zs, nhi, zname='Z_DLA'):
    names = ['Z', 'Z_DLA'] if zname == 'both' else [zname]
    t = np.zeros(len(tids), dtype=[('TARGETID', 'i8')]
                 + [(z, 'f8') for z in names] + [('NHI', 'f8')])
    t['TARGETID'], t[names[-1]], t['NHI'] = tids, zs, nhi
    if zname == 'both':           # Z is then the quasar's
        t['Z'] = np.asarray(zs) + .13
    with fitsio.FITS(path, 'rw', clobber=True) as f:
        f.write(t, extname='DLACAT')
    return path


def write_input_continua(d, quasars, skip=(), wave1=1000., dwave=2., n=120,
                         rng=None):
    """input-continuum-8-PIX.fits for quasars (ra/dec required); returns
    tid -> continuum."""
    from healpy import ang2pix
    os.makedirs(d, exist_ok=True)
    w = wave1 + dwave * np.arange(n)
    out, files = {}, {}
    for q in quasars:
        if q["tid"] in skip or q["fate"] == "absent":
            continue
        c = 2. + 0.5 * np.sin(w / 60. + q["tid"] % 11)
        if q["fate"] == "invalid":
            c = c - 2.
        out[q["tid"]] = c
        p = int(ang2pix(8, q["ra"], q["dec"], lonlat=True, nest=True))
        files.setdefault(p, []).append(q["tid"])
    for p, t in files.items():
        if rng is not None:
            t = [t[i] for i in rng.permutation(len(t))]
        b = np.zeros(len(t), dtype=[('TARGETID', 'i8')])
        b['TARGETID'] = t
        with fitsio.FITS(f"{d}/input-continuum-8-{p}.fits", 'rw',
                         clobber=True) as f:
            f.write(b, extname='FIBERMAP')
            f.write(np.array([out[x] for x in t]), extname='CONTINUA',
                    header={'WAVE1': wave1, 'DWAVE': dwave})
    return out


# ------------------------------------------------------------ outputs
def _hdr(h, keys):
    out = {}
    for k in keys:
        if k in h:
            v = h[k]
            out[k] = v.strip() if isinstance(v, str) else num(v)
    return out


HKEYS = ["TARGETID", "LOS_ID", "RA", "DEC", "Z", "BLINDING", "MEANSNR",
         "RSNR", "DELTA_LAMBDA", "SMSCALE", "MEANRESO", "EXPID", "TILEID",
         "FIBER", "PETAL_LOC", "NIGHT"]


def read_delta_file(path):
    """Everything in a delta file, as written."""
    out = []
    with fitsio.FITS(path) as f:
        for h in f[1:]:
            hd = h.read_header()
            c = h.get_colnames()
            d = h.read()
            # int(h[k]) of large ids would be lossy as numbers
            e = {"file": os.path.basename(path),
                 "ext": hd.get("EXTNAME", "").strip(),
                 "cols": list(c), "hdr": _hdr(hd, HKEYS)}
            for n, k in (("lam", "LAMBDA"), ("delta", "DELTA"),
                         ("blind", "DELTA_BLIND"), ("ivar", "IVAR"),
                         ("weight", "WEIGHT"), ("cont", "CONT")):
                e[n] = nums(d[k]) if k in c else []
            e["reso"] = nums(d["RESOMAT"]) if "RESOMAT" in c else []
            out.append(e)
    return out


def outputs(out):
    """All products of a run: deltas, continuum catalogue, attributes."""
    import glob
    r = {"deltas": [], "chi2": [], "attr": [], "files": []}
    for p in sorted(glob.glob(f"{out}/delta-*.fits")):
        r["files"].append(os.path.basename(p))
        r["deltas"] += read_delta_file(p)
    p = f"{out}/continuum_chi2_catalog.fits"
    if os.path.exists(p):
        with fitsio.FITS(p) as f:
            d = f["CHI2_CAT"].read()
        for row in d:
            e = {}
            for k in d.dtype.names:
                v = row[k]
                if isinstance(v, (bytes, str)):
                    e[k] = v.decode().strip() if isinstance(v, bytes) \
                        else v.strip()
                elif np.ndim(v):
                    e[k] = nums(v)
                elif k in ("CONT_x", "CONT_xcov"):   # a single coefficient
                    e[k] = [num(v)]
                else:
                    e[k] = num(v)
            r["chi2"].append(e)
    p = f"{out}/attributes.fits"
    if os.path.exists(p):
        with fitsio.FITS(p) as f:
            for h in f[1:]:
                d = h.read()
                r["attr"].append({
                    "ext": h.get_extname(),
                    "cols": [{"name": c, "v": nums(d[c])}
                             for c in d.dtype.names]})
    return r
