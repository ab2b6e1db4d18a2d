"""C24: stacked flux."""
import os
import shutil

import numpy as np

import runs
import simmpi
import world
from core import num, nums, pmap


def grid(lo, hi, n):
    return {"lo": num(lo), "dw": num((hi - lo) / n), "n": n}


def lives(item):
    seed, i = item
    rng = np.random.default_rng([seed, 24, i])
    nb, nr = int(rng.integers(2, 12)), int(rng.integers(2, 9))
    dw = float(rng.choice([8., 4., 10.]))
    w1 = float(rng.choice([3600., 3612.5]))
    w2 = w1 + nb * dw + float(rng.choice([0., .3 * dw, -.2 * dw]))
    l1 = 1050.
    dr = float(rng.choice([.8, 1., 2.5]))
    rf = l1 + dr * (np.arange(nr) + .5)
    size = 1 + int(rng.integers(0, 4))
    L = []
    for _ in range(int(rng.integers(1, 4))):
        adds = []
        for _ in range(int(rng.integers(0, 7))):
            n = int(rng.integers(1, 12))
            a, b = np.sort(rng.uniform(w1 + 1e-3, w2 - 1e-3, 2))
            w = np.linspace(a, b, n)
            r = np.linspace(*np.sort(rng.uniform(l1 + 1e-4,
                                                 l1 + nr * dr - 1e-4, 2)), n)
            x = rng.uniform(.1, 5., n)
            x[rng.uniform(size=n) < .2] = 0
            if rng.uniform() < .1:
                x[:] = 0
            adds.append((int(rng.integers(0, size)), w, r, x,
                         rng.normal(1, .5, n), rng.uniform(1, 3, n)))
        L.append(adds)
    at = np.sort(rng.uniform(w1, w2, 6))

    def rank(comm, r, _):
        from qsonic.picca_continuum import FluxStacker
        s = FluxStacker(w1, w2, dw, rf, dr,
                        comm=comm if size > 1 or i % 2 else None)
        out = [nums(s(at))]
        for adds in L:
            s.reset()
            for q, w, wr, x, f, c in adds:
                if q == r:
                    s.add(w, wr, x * f, x * c, x)
            s.calculate()
            out.append({"flux": nums(s.stacked_flux),
                        "weights": nums(s.weights),
                        "rf": nums(s.stacked_flux_rf),
                        "std": nums(s.std_flux_rf), "call": nums(s(at))})
        return out
    r = simmpi.run(rank, size, timeout=60)
    if not r.all_ok:
        return [{"k": "crash", "msg": r.first_error()[-900:]}]
    n = int(round((w2 - w1) / dw))
    ev = [{"k": "fresh", "call": r.value[0][0]}]
    for t, adds in enumerate(L):
        ev.append({"k": "life", "out": "ok", "obs": grid(w1, w2, n),
                   "rest": grid(l1, l1 + nr * dr, nr), "at": nums(at),
                   "adds": [{"wave": nums(a[1]), "rf": nums(a[2]),
                             "w": nums(a[3]), "f": nums(a[4]),
                             "c": nums(a[5])} for a in adds],
                   "res": [v[t + 1] for v in r.value]})
    return ev


def full(item):
    k, tmp, seed, c = item
    d = os.path.join(tmp, f"st{k}")
    rng = np.random.default_rng([seed, 241, k])
    c = dict(runs.BASE, **c)
    z = {}
    s, o = prepare(c, d, rng)
    for q in s.q:
        z[str(q["tid"])] = num(q["z"])
    res = [world.run_fit(world.fit_argv(s, f"{d}/o{j}", *o, *x), c["size"],
                         easy=True)
           for j, x in enumerate([[], ["--normalize-stacked-flux"]])]
    e = {"k": "run", "case": c, "out": "ok", "obs": grid(s.w1, s.w2, int(s.w2 - s.w1) // 8),
         "rest": grid(1050., 1180., 39), "residual": c["model"] == "picca",
         "ents": [], "norm": []}
    bad = [r for r in res if not r.all_ok]
    if bad:
        e["out"] = bad[0].first_error()[-700:]
    else:
        for j, n in ((0, "ents"), (1, "norm")):
            out = world.outputs(f"{d}/o{j}")
            for y in out["deltas"]:
                e[n].append({"ext": y["ext"], "z": z[y["ext"].split("-")[0]],
                             "lam": y["lam"], "cont": y["cont"],
                             "weight": y["weight"],
                             "delta": y["delta"] or y["blind"]})
            A = {a["ext"]: {x["name"]: x["v"] for x in a["cols"]}
                 for a in out["attr"]}
            p, sf = ("", "") if j == 0 else ("f", "-fit")
            if j and not c["fid"]:
                e.update(fflux=[], frf=[], fstd=[])
                continue
            e[p + "flux"] = A["STACKED_FLUX" + sf]["stacked_flux"]
            e[p + "rf"] = A["STACKED_FLUX_RF" + sf]["stacked_flux_rf"]
            e[p + "std"] = A["STACKED_FLUX_RF" + sf]["e_stacked_flux_rf"]
    shutil.rmtree(d, ignore_errors=True)
    return [e]


def prepare(c, d, rng):
    c["reso"] = False
    q = runs.quasars(c, rng)
    kw = dict(w2=4797.)
    if c.get("three"):         # forests over three arms
        kw = dict(w2=5397., arms=("B", "R", "Z"))
        for x in q[::3]:
            x["z"] = round(float(rng.uniform(3.08, 3.18)), 5)
    s = world.Survey(d, rng, q, kind=c["kind"], w1=3597., dwave=8., **kw)
    o = runs.options(c, d, s, rng)
    if c.get("three"):
        o += ["--arms", "B", "R", "Z"]
    return s, o + ["--skip", "0", "--forest-w1", "1050", "--forest-w2",
                   "1180", "--rfdwave", str(130. / 39)]


def run(chk):
    chk.model("MC_Stack")
    for v in ("noreset", "invalid", "local"):
        chk.model("MC_Stack", f"MC_Stack_{v}.cfg", expect_violation="Right")
    import qsonic.scripts.qsonic_fit   # noqa: before forking
    n = 1500 if chk.thorough else 150
    scen = pmap(lives, [(chk.seed, i) for i in range(n)])
    R = chk.rng
    it = lambda: ["--num-iterations", str(R.randrange(1, 5))]
    G = ["mixed", "good", "good", "good"]
    cases = [dict(fid=True, size=3, groups=G),
             dict(fid=True, size=2, groups=G, coadd="disable"),
             dict(fid=True, size=2, groups=G, coadd="disable", three=1),
             dict(size=2, groups=G, eta=R.choice([True, False])),
             dict(model="input", fid=True, size=2, groups=G),
             dict(model="input", fid=True, size=1, groups=G,
                  coadd="disable"),
             dict(model="true", kind="mock", fid=True, size=3,
                  groups=["good"] * 3)]
    cases += [dict(fid=True, size=1 + j % 4, groups=G,
                   coadd=R.choice(["before", "disable"]),
                   model=R.choice(["picca", "input"])) for j in range(4)]
    cases = cases * (8 if chk.thorough else 1)
    for c in cases:
        c["extra"] = it()
    scen += pmap(full, [(k, chk.tmp, chk.seed, dict(c))
                        for k, c in enumerate(cases)])
    chk.sample(scen[0])
    chk.validate("Trace_C24", scen)
