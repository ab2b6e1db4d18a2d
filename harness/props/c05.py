"""C05: reading spectra files against Reader.tla."""
import os
import shutil
import warnings

import numpy as np

import simmpi
import world
from core import num, nums, pmap

UNITS = {"coadd": ["main", "sv1"], "exposures": ["main", "sv3"],
         "tile": ["2", "10"], "mock": [""]}
GRID = {"B": 3600. + 0.8 * np.arange(7), "R": 3604. + 0.8 * np.arange(6),
        "Z": 3608. + 0.8 * np.arange(8)}
TILE, NIGHT = 80613, 20210324
EXPCOLS = ['PETAL_LOC', 'FIBER', 'NIGHT', 'EXPID', 'TILEID']


def make(case, rng, d):
    """Write the files; return the specification's view of them."""
    o = case["o"]
    mode = o["mode"]
    mkdt = 'f4' if o["f4"] else 'f8'
    allarms = ["B", "R", "Z"]
    files = []
    for u, rows in enumerate(case["files"]):
        unit = UNITS[mode][u]
        tids = [int(case["tids"][t - 1]) for t in rows]
        n = len(rows)
        fl, iv, mk, rs = {}, {}, {}, {}
        for a in allarms:
            m = GRID[a].size
            fl[a] = rng.integers(-2000, 20000, (n, m)) / 8.
            iv[a] = rng.integers(0, 4000, (n, m)) / 16.
            mk[a] = (rng.uniform(size=(n, m)) < .2) \
                * rng.integers(1, 64, (n, m))
            rs[a] = rng.integers(1, 4000, (n, 5, m)) / 32.
        extra, xs = None, [[] for _ in rows]
        if mode == "exposures":
            extra = {"PETAL_LOC": rng.integers(0, 10, n),
                     "FIBER": rng.integers(0, 5000, n),
                     "NIGHT": 20210000 + rng.integers(101, 1231, n),
                     "EXPID": rng.permutation(90000)[:n],
                     "TILEID": rng.integers(1, 9999, n)}
            xs = [[num(extra[c][i]) for c in EXPCOLS] for i in range(n)]
        if mode == "tile":
            path = world.tile_path(d, TILE, int(unit), NIGHT)
        elif mode == "mock":
            path = world.mock_paths(d, case["pix"])[0]
        else:
            path = world.data_path(
                d, unit, case["pix"], "spectra" if mode == "exposures" else "coadd")
        hasreso = o["reso"] and mode != "mock"
        world.write_spectra_file(path, tids, GRID, fl, iv, mk,
                                 rs if hasreso else None, extra, dt=mkdt)
        files.append({"unit": unit, "rows": [
            {"tid": str(tids[i]), "x": xs[i],
             "arms": [{"arm": a, "flux": nums(fl[a][i]),
                       "ivar": nums(iv[a][i]), "mask": nums(mk[a][i]),
                       "reso": nums(rs[a][i]) if hasreso else []}
                      for a in o["arms"]]} for i in range(n)]})
    ev = {"k": "spectra", "files": files, "arms": o["arms"],
          "reso": bool(o["reso"] and not o["skip"]),
          "sharedreso": [], "truth": [], "usetruth": False,
          "tw1": "0", "tdw": "0",
          "waves": [{"arm": a, "v": nums(GRID[a])} for a in allarms]}
    if mode == "mock":
        t = [int(case["tids"][t - 1]) for t in case["files"][0]]
        t = [t[i] for i in rng.permutation(len(t))]
        if rng.uniform() < .15:
            t = t[1:]
        if rng.uniform() < .5:
            t = t + [555555]
        rng.shuffle(t)
        cont = rng.integers(1, 4000, (len(t), 9)) / 32.
        shared = {a: rng.integers(1, 4000, (5, GRID[a].size)) / 32.
                  for a in allarms}
        world.write_truth(world.mock_paths(d, case["pix"])[1], t, cont, 3500., 3580.,
                          10., shared)
        ev.update(usetruth=bool(o["cont"]), tw1="3500", tdw="10",
                  truth=[{"tid": str(t[i]), "v": nums(cont[i])}
                         for i in range(len(t))],
                  sharedreso=[{"arm": a, "v": nums(shared[a])}
                              for a in allarms])
    # catalogue
    cat = case["cat"]
    n = len(cat)
    if not n:
        return None
    cols = {"TARGETID": np.array([int(case["tids"][c["t"] - 1])
                                  for c in cat]),
            "Z": 2. + rng.integers(0, 1000, n) / 1024.,
            "RA": rng.uniform(0, 90, n), "DEC": rng.uniform(0, 45, n),
            "HPXPIXEL": np.full(n, case["pix"])}
    un = [UNITS[mode][c["u"] - 1] for c in cat]
    if mode == "tile":
        cols["TILEID"] = np.full(n, TILE)
        cols["PETAL_LOC"] = np.array([int(x) for x in un])
        cols["LASTNIGHT"] = np.full(n, NIGHT)
    elif mode != "mock":
        cols["SURVEY"] = np.array(un)
        cols["LASTNIGHT"] = np.full(n, NIGHT)
    c = np.zeros(n, dtype=[(k, v.dtype.str) for k, v in cols.items()])
    for k, v in cols.items():
        c[k] = v
    ev["cat"] = [{"tid": str(c["TARGETID"][i]), "unit": un[i],
                  "z": num(c["Z"][i])} for i in range(n)]
    return c, ev


def read(case, c, ev, d):
    import qsonic.io as qio
    o = case["o"]
    mode = o["mode"]
    fn = qio.get_spectra_reader_function(
        d, list(o["arms"]), mode == "mock", bool(o["skip"]),
        bool(o["cont"]), mode == "tile", mode == "exposures")
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        specs = fn(c)
        ev["warned"] = len(w) > 0
    res = []
    for s in specs:
        x = [num(s.catrow[k]) for k in EXPCOLS] if mode == "exposures" else []
        cp = s.cont_params
        res.append({
            "tid": str(s.targetid), "x": x, "z": num(s.z_qso),
            "arms": [{"arm": a, "wave": nums(s.wave[a]),
                      "flux": nums(s.flux[a]),
                      "ivar": nums(s.ivar[a]),
                      "reso": nums(s.reso[a]) if a in s.reso else []}
                     for a in s.flux],
            "tw1": num(cp.get("true_data_w1", 0)),
            "tdw": num(cp.get("true_data_dwave", 0)),
            "tcont": nums(cp.get("true_data"))})
    ev.update(out="ok", res=res)
    evs = [ev]
    # resolution of the forest read afterwards (present, sorted targets)
    found = {r["tid"] for f in ev["files"] for r in f["rows"]}
    if mode == "coadd" and o["reso"] and o["skip"] and specs \
            and {str(t) for t in c["TARGETID"]} == {r["tid"] for r in res} \
            and found and o["later"]:
        order = np.argsort(c, order=["SURVEY", "TARGETID"])
        byid = {str(s.targetid): s for s in specs}
        sl = [byid[str(t)] for t in c["TARGETID"][order]]
        for i, s in enumerate(sl):
            s.set_forest_region(3601. + .8 * (i % 3), 3609., 0., 9999.)
        e2 = {"k": "reso", "files": ev["files"], "cat": ev["cat"]}
        try:
            qio.read_resolution_matrices_onehealpix_data(c[order], d, sl)
            e2["out"] = "ok"
        except Exception as e:
            e2.update(out=type(e).__name__, msg=str(e)[:200])
        r2 = []
        for s in sl:
            arms = []
            for a in s.forestwave:
                w = s.forestwave[a]
                i1 = int(round((w[0] - GRID[a][0]) / .8)) + 1
                arms.append({"arm": a, "i1": i1, "n": int(w.size),
                             "reso": nums(s.forestreso[a])
                             if a in s.forestreso else []})
            r2.append({"tid": str(s.targetid), "arms": arms})
        e2["res"] = r2
        evs.append(e2)
    return evs


def big(case, rng):
    """Many more rows than the generated cases have."""
    n = 40
    case["tids"] = [str(39627700846986000 + k) for k in rng.permutation(n)]
    nu = len(case["files"])
    un = rng.integers(1, nu + 1, n)
    for u in range(nu):
        t = np.nonzero(un == u + 1)[0] + 1
        if case["o"]["mode"] == "exposures":
            t = np.repeat(t, rng.integers(1, 4, t.size))
        t = t[rng.uniform(size=t.size) > .1]
        case["files"][u] = [int(x) for x in rng.permutation(t)]
    case["cat"] = sorted(({"t": int(k) + 1, "u": int(un[k])}
                          for k in range(n) if rng.uniform() > .2),
                         key=lambda c: c["u"])


def one(item):
    i, case, seed, tmp = item
    rng = np.random.default_rng([seed, 5, i])
    d = os.path.join(tmp, f"s{i}")
    mode = case["o"]["mode"]
    case["o"]["later"] = True
    case["pix"] = [4217, 7, 99, 100, 31234][i % 5]
    if i % 2:
        # ids that only differ beyond double precision
        case["tids"] = ["39627700846986001", "39627700846986002",
                        "39627700846986000", "39627700846986004",
                        "39627700846986003"]
    if i % 40 == 7:
        big(case, rng)
    if mode in ("coadd", "tile") and i % 3 == 0:
        # every target present; resolution possibly read later
        case["o"].update(reso=True, skip=i % 2 == 0)
        for cr in case["cat"]:
            f = case["files"][cr["u"] - 1]
            if cr["t"] not in f:
                f.insert(int(rng.integers(0, len(f) + 1)), cr["t"])
    if mode == "mock":
        for cr in case["cat"]:
            cr["u"] = 1
    made = make(case, rng, d)
    c, ev = made
    kind, name, val = simmpi.isolated(read, case, c, ev, d)
    shutil.rmtree(d, ignore_errors=True)
    if kind != "ok":
        ev.update(out=name or kind, warned=False, res=[],
                  msg=str(val)[-600:])
        return [ev]
    return val


def run(chk):
    chk.model("MC_Reader")
    chk.model("MC_Reader", "MC_ReaderBroken.cfg",
              expect_violation="OwnData")
    cases = chk.generate("Gen_Reader", num=3000 if chk.thorough else 420,
                         depth=25)
    scen = pmap(one, [(i, c, chk.seed, chk.tmp)
                      for i, c in enumerate(cases)])
    chk.sample({k: v for k, v in scen[0][0].items() if k != "files"})
    chk.notes.append(f"{sum(len(s) > 1 for s in scen)} late resolution reads")
    chk.validate("Trace_Reader", scen)
