"""C03: delegated work has one outcome on all processes (Bcast.tla)."""
import argparse
import functools
import os

import numpy as np

import simmpi
import world
from props import c01


def value(o):
    return {"none": None, "zero": 0, "false": False, "emptystr": "",
            "emptylist": [], "dict": {"a": [1, 2]},
            "array": np.arange(6.).reshape(2, 3), "array0": np.zeros(0),
            "nanarray": np.array([np.nan, 1., np.inf]),
            "tuple": (1, None, "x"),
            "exception_object": ValueError("this is a value"),
            "string": "text"}[o]


def show(v):
    return type(v).__name__ + ":" + repr(v)


def error(o):
    from qsonic import QsonicException
    return {"ValueError": ValueError("v"),
            "QsonicException": QsonicException("q"),
            "KeyError": KeyError("k"), "OSError": OSError("no file"),
            "RuntimeError": RuntimeError("r"),
            "StopIteration": StopIteration(), "Exception": Exception(),
            "AssertionError": AssertionError("a"),
            "UnicodeError": UnicodeError("u")}[o]


class Worker:
    """The delegated work; counts how often this process performed it."""

    def __init__(self, c):
        self.c, self.n = c, 0

    def __call__(self, *a, **k):
        self.n += 1
        if self.c["kind"] == "error":
            raise error(self.c["o"])
        if a != (3,) or (self.c["how"] == "kwargs" and k != {"key": 4}):
            raise AssertionError("arguments lost")
        return value(self.c["o"])


def fnc_case(c):
    from qsonic.mpi_utils import mpi_fnc_bcast
    w = Worker(c)
    f = {"function": lambda: w.__call__, "partial":
         lambda: functools.partial(w, 3), "object": lambda: w,
         "lambda": lambda: (lambda *a, **k: w(*a, **k)),
         "kwargs": lambda: w}[c["how"]]()
    args = () if c["how"] == "partial" else (3,)
    kw = {"key": 4} if c["how"] == "kwargs" else {}
    msg = "" if c["how"] in ("object", "kwargs") else "the message"

    def job(comm, rank, size):
        if comm is None:
            return lambda: mpi_fnc_bcast(
                f, None, 0, msg, *args, **kw), w
        return lambda: mpi_fnc_bcast(
            f, comm, rank, msg, *args, **kw), w
    work = {"kind": "error", "v": ""} if c["kind"] == "error" else \
        {"kind": "value", "v": show(value(c["o"]))}
    return job, show, work, "error"


class Opens:
    """Counts the input files this process opens."""

    def __init__(self):
        import fitsio
        self.n = 0
        real = fitsio.FITS
        outer = self

        class FITS(real):
            def __init__(self, *a, **k):
                outer.n += 1
                real.__init__(self, *a, **k)
        fitsio.FITS = FITS


def write_inputs(d):
    """good / garbage / content (well-formed but unacceptable) files."""
    import fitsio
    os.makedirs(d, exist_ok=True)
    P = {}
    n = 8
    cols = dict(TARGETID=np.arange(1, n + 1), Z=np.linspace(2, 3, n),
                RA=np.linspace(0, 9, n), DEC=np.linspace(0, 9, n),
                HPXPIXEL=np.repeat([4, 7, 9, 11], 2),
                SURVEY=np.array(["main"] * n),
                LASTNIGHT=np.full(n, 20210101))
    world.write_catalog(f"{d}/catalog-good.fits", cols)
    bad = dict(cols)
    bad["TARGETID"] = np.full(n, 5)
    world.write_catalog(f"{d}/catalog-content.fits", bad)
    for q in ("good", "content"):
        P["queue", q] = P["catalog", q] = f"{d}/catalog-{q}.fits"
    t = np.zeros(5, dtype=[("TARGETID", "i8"), ("Z_DLA", "f8"),
                           ("NHI", "f8")])
    t["TARGETID"] = [3, 1, 3, 9, 2]
    t["Z_DLA"], t["NHI"] = 2.1, 20.5
    with fitsio.FITS(f"{d}/dla-good.fits", "rw", clobber=True) as f:
        f.write(t, extname="DLACAT")
    with fitsio.FITS(f"{d}/dla-content.fits", "rw", clobber=True) as f:
        f.write(t[["TARGETID", "NHI"]].copy(), extname="DLACAT")
    wv = np.arange(3600., 4800., 100.)
    uneq = wv.copy()
    uneq[3:] += 35.
    for nm, ext, c in (
            ("noisecal", "VAR_FUNC", ["lambda", "var_lss", "eta"]),
            ("fluxcal", "STACKED_FLUX", ["lambda", "stacked_flux"]),
            ("meanflux", "STATS", ["LAMBDA", "MEANFLUX", "VAR_LSS"]),
            ("varlss", "STATS", ["LAMBDA", "MEANFLUX", "VAR_LSS"])):
        for q, x in (("good", wv), ("content", uneq)):
            with fitsio.FITS(f"{d}/{nm}-{q}.fits", "rw", clobber=True) as f:
                f.write([x] + [1. + 0.01 * i * np.arange(x.size)
                               for i in range(1, len(c))], names=c,
                        extname=ext)
            P[nm, q] = f"{d}/{nm}-{q}.fits"
    with open(f"{d}/list-good.txt", "w") as f:
        f.write("5\n6\n39627700846986\n")
    with open(f"{d}/list-content.txt", "w") as f:
        f.write("5\nabc\n")
    P["dla", "good"], P["dla", "content"] = (f"{d}/dla-good.fits",
                                             f"{d}/dla-content.fits")
    P["removelist", "good"] = f"{d}/list-good.txt"
    P["removelist", "content"] = f"{d}/list-content.txt"
    with open(f"{d}/sky-good.txt", "w") as f:
        f.write("a 3700.0 3710.0 OBS\nb 1100.0 1110.0 RF\n"
                "c 3900.0 3905.0 OBS\n")
    with open(f"{d}/sky-content.txt", "w") as f:
        f.write("a 3700.0 3710.0\nb 1100.0 1110.0\n")
    for q in ("good", "content"):
        P["sky", q] = P["runsky", q] = f"{d}/sky-{q}.txt"
        P["runmasks", q] = P["dla", q]
    for (call, q) in list(P):
        if q == "good":
            P[call, "onlymain"] = P[call, q]
    with open(f"{d}/garbage", "w") as f:
        f.write("this is, not [a] file\n" * 30)
    return P


def file_case(c, P, d):
    import qsonic.calibration
    import qsonic.catalog
    import qsonic.masks
    from qsonic.scripts import qsonic_calib, qsonic_fit
    at_main = {"missing": f"{d}/nowhere.fits", "garbage": f"{d}/garbage"}.get(
        c["o"], P.get((c["call"], c["o"])))
    what = c["call"]
    probe = np.arange(3650., 4500., 90.)

    def show_sky(m):
        cat = np.zeros(1, dtype=[("TARGETID", "i8"), ("Z", "f8"),
                                 ("RA", "f8"), ("DEC", "f8"),
                                 ("HPXPIXEL", "i8")])
        cat["Z"] = 2.4
        from qsonic.spectrum import Spectrum
        w = {"B": np.arange(3600., 4000.)}
        o = {"B": np.ones((1, 400))}
        s = Spectrum(cat[0], w, o, o, {"B": np.zeros((1, 400), dtype=int)},
                     {}, 0)
        s.set_forest_region(3600., 4000., 1000., 1200.)
        m.apply(s)
        return show(list(np.nonzero(s.forestivar["B"] == 0)[0]))

    def enc_cat(cats):
        return show([c01.proj(x)[1] for x in cats])

    def job(comm, rank, size):
        count = Opens()
        path = at_main
        if c["o"] == "onlymain" and rank > 0:
            path = f"{d}/nowhere.fits"
        if what == "sky":
            return lambda: show_sky(qsonic.masks.SkyMask(
                path, comm, rank)), count
        if what in ("runmasks", "runsky"):
            queue = [np.array([(3,), (9,)], dtype=[("TARGETID", "i8")])]
            a = argparse.Namespace(sky_mask=None, bal_mask=False,
                                   dla_mask=None)
            setattr(a, "sky_mask" if what == "runsky" else "dla_mask", path)
            return lambda: show([type(m).__name__ for m in
                                 qsonic_fit.mpi_read_masks(
                                     queue, a, comm, rank)]), count
        if what == "catalog":
            return lambda: enc_cat([qsonic.catalog.mpi_read_quasar_catalog(
                path, comm, rank)]), count
        if what == "queue":
            # what each process receives is C02's; here: the same outcome
            return lambda: type(qsonic.catalog.mpi_get_local_queue(
                path, comm, rank, size)).__name__, count
        if what == "dla":
            return lambda: type(qsonic.masks.DLAMask(
                path, None, comm, rank)).__name__, count
        if what == "noisecal":
            return lambda: show(list(qsonic.calibration.NoiseCalibrator(
                path, comm, rank).eta_interp(probe))), count
        if what == "fluxcal":
            return lambda: type(qsonic.calibration.FluxCalibrator(
                path, comm, rank)).__name__, count
        if what in ("meanflux", "varlss"):
            from qsonic.picca_continuum import PiccaContinuumFitter
            from qsonic.scripts.qsonic_fit import get_parser
            args = get_parser().parse_args(
                ["-i", "x", "--catalog", "y", f"--fiducial-{what}", path,
                 "--wave1", "3600", "--wave2", "4800"])

            def go():
                q = PiccaContinuumFitter(args)
                return show(list(q.meanflux_interp(probe))
                            + list(q.varlss_interp(probe)))
            return go, count
        if what == "removelist":
            a = argparse.Namespace(
                remove_targetid_list=path, catalog=None, exclude_bal=False,
                max_bal_ai=None, keep_surveys=None)

            def go():
                ids = qsonic_calib.mpi_set_targetid_list_to_remove(
                    a, comm, rank)
                return show(sorted(int(i) for i in ids))
            return go, count
        raise AssertionError(what)
    errs = c["o"] not in ("good", "onlymain")
    # the value itself: taken from the serial call on the good file
    work = {"kind": "error", "v": ""} if errs else {"kind": "value",
                                                    "v": None}
    return job, lambda v: v, work, "error"


def parse_case(c):
    from qsonic.mpi_utils import mpi_parse
    opts = {"good": ["--x", "2.5", "name"], "defaults": ["name"],
            "badvalue": ["--x", "abc", "name"], "unknown": ["--y", "n"],
            "missing": [], "logicfalse": ["--x", "7", "name"],
            "logicedit": ["--x", "3", "name"], "help": ["--help"]}[c["o"]]
    ok = c["o"] in ("good", "defaults", "logicedit")

    def job(comm, rank, size):
        p = argparse.ArgumentParser()
        p.add_argument("--x", type=float, default=1.)
        p.add_argument("nm")
        w = Worker(c)

        def logic(a):
            w.n += 1
            if c["o"] == "logicedit":
                a.x *= 2
            return a.x != 7
        return lambda: mpi_parse(p, comm, rank, opts, logic), w
    want = {"good": 2.5, "defaults": 1., "logicedit": 6.}.get(c["o"])
    work = {"kind": "value", "v": f"{want}/name"} if ok else \
        {"kind": "error", "v": ""}
    return job, lambda a: f"{a.x}/{a.nm}", work, "exit"


def execute(case, job, enc, solo=False):
    from qsonic import QsonicException

    def one(comm, rank, size):
        go, w = job(comm, rank, size)
        try:
            out = {"kind": "value", "v": enc(go())}
        except QsonicException as e:
            out = {"kind": "error", "v": str(e)}
        except SystemExit as e:
            out = {"kind": "exit", "v": str(e.code)}
        except Exception as e:
            out = {"kind": "raise", "v": type(e).__name__}
        out["worked"] = w.n > 0
        return out
    if solo:
        r = simmpi.run(lambda comm, rank, size: one(None, 0, 1), 1)
    else:
        r = simmpi.run(one, case["size"], timeout=60)
    return [r.value[i] if r.kind[i] == "ok" else
            {"kind": "stuck" if r.kind[i] == "stuck" else "died", "v": "",
             "worked": False} for i in range(r.size)]


def run(chk):
    chk.model("Bcast")
    chk.model("Bcast", "BcastBroken.cfg", expect_violation="Terminat")
    cases = chk.generate("Gen_Bcast")
    d = os.path.join(chk.tmp, "in")
    P = write_inputs(d)
    import qsonic.catalog, qsonic.masks, qsonic.calibration   # noqa: before
    import qsonic.picca_continuum, qsonic.scripts.qsonic_fit   # noqa: forking
    import qsonic.scripts.qsonic_calib   # noqa
    scen, ref = [], {}
    cases.sort(key=lambda c: (c["size"], str(sorted(c.items()))))
    rng = chk.rng
    for c in cases:
        if c["call"] == "fnc":
            if not chk.thorough and c["size"] in (1, 5) \
                    and rng.random() < .8:
                continue
            job, enc, work, errkind = fnc_case(c)
        elif c["call"] == "parse":
            job, enc, work, errkind = parse_case(c)
        else:
            job, enc, work, errkind = file_case(c, P, d)
        res = execute(c, job, enc, solo=c["size"] == 0)
        if work["v"] is None:
            if c["size"] == 0:
                ref[c["call"]] = res[0]["v"]
            work["v"] = ref[c["call"]]
        scen.append([{"k": "call", "what": c["call"] + ":" + c["how"] + ":"
                      + c["o"], "size": c["size"], "work": work,
                      "errkind": errkind, "res": res}])
    chk.sample(scen[3][0])
    chk.sample(scen[-1][0])
    chk.validate("Trace_Bcast", scen)
