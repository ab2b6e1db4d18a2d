"""C02: handing groups to processes against Distribute.tla."""
import os

import numpy as np

import simmpi
import world
from core import num
from props import c01


def balance_events(chk):
    from qsonic.mpi_utils import balance_load
    cases = chk.generate("GenDistribute")
    rng = chk.nprng(2)
    for _ in range(400 if chk.thorough else 60):
        n = int(rng.integers(1, 60))
        cases.append({"sizes": [int(x) for x in
                                rng.choice([1, 2, 5, 50, 300], n)],
                      "p": int(rng.integers(1, 12))})
    scen = []
    for c in cases:
        groups, k = [], 0
        for i, s in enumerate(c["sizes"]):
            a = np.zeros(s, dtype=[("TARGETID", "i8")])
            a["TARGETID"] = np.arange(k, k + s)
            k += s
            groups.append(a)

        def ids(g):
            return [str(t) for t in g["TARGETID"]]
        ev = {"k": "balance", "groups": [ids(g) for g in groups],
              "size": c["p"], "queues": [], "out": "ok"}
        try:
            q = balance_load(list(groups), c["p"])
            ev["queues"] = [[ids(g) for g in qq] for qq in q]
        except Exception as e:
            ev["out"] = "error:" + type(e).__name__
        scen.append([ev])
    return scen


def rec(cat, key):
    names, rows = c01.proj(cat)
    return [{"t": r["TARGETID"], "g": r[key],
             "rest": [str(r[c]) for c in sorted(r)]} for r in rows]


def queue_events(chk):
    from qsonic import catalog as qc
    rng = chk.nprng(3)
    scen = []
    nrep = 40 if chk.thorough else 14
    for k in range(nrep):
        tile = k % 3 == 2
        mock = k % 5 == 0 and not tile
        n = int(rng.integers(1, 40))
        ngr = int(rng.integers(1, 9))
        if k % 7 in (3, 5):                # crowded pixels / tiles
            n, ngr = int(rng.integers(700, 1500)), 2 + k % 2
        case = {"f": {"ra": "RA", "night": "LASTNIGHT", "survey": not mock,
                      "hpx": bool(k % 2), "tilecols": True, "bal": False,
                      "miss": "", "ext": "ZCATALOG"}}
        case["rows"] = [
            {"TARGETID": str(t), "Z": num(rng.choice([2.0, 2.5, 3.0, 4.])),
             "SURVEY": str(rng.choice(["main", "sv1"])),
             "sky": int(rng.integers(1, 5)),
             "PETAL_LOC": str(rng.integers(0, 10))}
            for t in rng.permutation(np.arange(100, 100 + n))]
        cols, _ = c01.build(case, uniq=False)
        if "HPXPIXEL" in cols:
            cols["HPXPIXEL"] = rng.integers(1, 1 + ngr, n)
        cols["TILEID"] = rng.integers(80, 80 + ngr, n)
        fname = os.path.join(chk.tmp, "q.fits")
        world.write_catalog(fname, cols)
        kw = dict(is_mock=mock, is_tile=tile,
                  keep_surveys=[None, ["main"], ["main", "sv1"]][k % 3],
                  zmin=2.0, zmax=[100., 3.0][k % 2])
        key = "TILEID" if tile else "HPXPIXEL"
        try:
            full = qc.read_quasar_catalog(fname, **kw)
        except Exception:
            continue        # nothing selected: C01's business
        for size in (1, 2, 3, 5)[:4 if chk.thorough or k < 6 else 2]:
            if size == 1 and k % 2:
                # serial use: no communicator
                try:
                    q = qc.mpi_get_local_queue(fname, **kw)
                    out, queues = "ok", [[rec(c, key) for c in q]]
                except Exception as e:
                    out, queues = "error:" + type(e).__name__, []
            else:
                r = simmpi.run(
                    lambda comm, rank, sz: [rec(c, key) for c in
                                            qc.mpi_get_local_queue(
                        fname, comm, rank, sz, **kw)], size)
                out = "ok" if r.all_ok else "error:" + r.first_error()[:200]
                queues = r.value if r.all_ok else []
            scen.append([{"k": "queue", "cat": rec(full, key), "size": size,
                          "queues": queues, "out": out}])
    return scen


def run(chk):
    chk.model("Distribute", "DistributeBig.cfg" if chk.thorough else None)
    s1 = balance_events(chk)
    chk.sample(s1[7][0])
    chk.validate("Trace_Distribute", s1)
    s2 = queue_events(chk)
    chk.sample({"size": s2[0][0]["size"], "queues": s2[0][0]["queues"]})
    chk.validate("Trace_Distribute", s2)
