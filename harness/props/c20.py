"""C20: the continuum catalogue."""
import os
import shutil

import numpy as np

import iterdrv
import pipedrv
import simmpi
import world
from core import pmap

FATES = ["good", "good", "good", "negative", "onearm", "dip", "sparse"]


def catalogue(item):
    k, tmp, seed = item
    rng = np.random.default_rng([seed, 20, k])
    d = os.path.join(tmp, f"cc{k}")
    os.makedirs(d)
    size = 1 + k % 5
    model = ["picca", "picca", "picca", "input", "true"][int(
        rng.integers(0, 5))]
    order = int(rng.integers(0, 4))
    coadd = bool(rng.integers(0, 2))
    arms = ["B", "BR", "BR", "BRZ"][int(rng.integers(0, 4))]
    arms = "".join(rng.permutation(list(arms)))     # in any order
    edges = {"B": (3600., 4161.), "R": (4096., 4481.), "Z": (4400., 5001.)} \
        if len(arms) == 3 else None
    n = int(rng.integers(size, 3 * size + 2))
    lists = [[] for _ in range(size)]
    for i in range(n):
        # now and then the same target twice (exposures)
        t = 39627700846986001 + 37 * (i if rng.uniform() < .9 else i // 2)
        q = iterdrv.cell(rng, t, "good" if i == 0 else
                         str(rng.choice(FATES)), arms=arms, edges=edges)
        lists[int(rng.integers(0, size))].append(q)
    allq = [q for x in lists for q in x]
    argv = ["-o", d, "--cont-order", str(order)]
    f = world.write_fiducial(f"{d}/fid.fits")
    if model != "picca" or rng.uniform() < .5:
        argv += ["--fiducial-meanflux", f, "--fiducial-varlss", f]
    if model == "input":
        for q in allq:
            if q["fate"] == "negative":
                q["fate"] = "invalid"
        safe = 39627700846986001
        skip = {q["tid"] for q in allq
                if rng.uniform() < .2 and q["tid"] != safe}
        one = {q["tid"]: dict(q, fate="good") if q["tid"] == safe else q
               for q in allq}
        pos = {t: (q["ra"], q["dec"]) for t, q in one.items()}
        for q in allq:
            q["ra"], q["dec"] = pos[q["tid"]]
        world.write_input_continua(f"{d}/ic", list(one.values()), skip,
                                   rng=rng)
        argv += ["--input-continuum-dir", f"{d}/ic", "--continuum-model",
                 "input"]
    if model == "true":
        argv += ["--continuum-model", "true"]

    def job(comm, rank, sz):
        from qsonic.picca_continuum import PiccaContinuumFitter
        L = [iterdrv.spectrum(q, coadd) for q in lists[rank]]
        L = [s for s in L if s is not None]
        if model == "true":
            for s in L:
                s.cont_params.update(
                    true_data_w1=3500., true_data_dwave=4.,
                    true_data=2. + .3 * np.sin(np.arange(600) / 40.
                                               + s.targetid % 7))
        fit = PiccaContinuumFitter(iterdrv.fitter_args(*argv))
        fit.model.init_spectra(L)
        fit.fit_continua(L)
        fit.save_contchi2_catalog(L)
        return [iterdrv.proj(s) for s in L]
    r = simmpi.run(job, size, timeout=60)
    e = {"k": "cat", "model": model, "order": order, "out": "ok",
         "ranks": [], "rows": []}
    if not r.all_ok:
        e["out"] = r.first_error()[-700:]
    else:
        e["ranks"] = [[{a: b for a, b in s.items()} for s in x]
                      for x in r.value]
        for x in e["ranks"]:
            for s in x:
                s["forest"] = [{"arm": a["arm"], "ivar": a["ivar"]}
                               for a in s["forest"]]
        e["rows"] = iterdrv.rows(world.outputs(d))
    shutil.rmtree(d, ignore_errors=True)
    return [e]


def run(chk):
    chk.model("MC_ChiCat")
    for v in ("valid", "reuse", "root"):
        chk.model("MC_ChiCat", f"MC_ChiCat_{v}.cfg", expect_violation="Once")
    import qsonic.scripts.qsonic_fit   # noqa: before forking
    n = 600 if chk.thorough else 120
    scen = pmap(catalogue, [(k, chk.tmp, chk.seed) for k in range(n)])
    cs = pipedrv.cases(chk, 60 if chk.thorough else 8)
    for c in cs:
        c.pop("expo", None)
        c["cuts"] = ""
        c["order"] = chk.rng.choice([0, 1, 1, 2])
    scen += pmap(pipedrv.scenario, [(k, chk.tmp, chk.seed, c, "rows")
                                    for k, c in enumerate(cs)])
    chk.sample(str(scen[0])[:3000])
    chk.validate("Trace_C20", scen)
