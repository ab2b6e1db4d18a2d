"""C22: subsample statistics."""
import numpy as np

import simmpi
from core import num, nums, pmap


def scenario(item):
    seed, i, size, ops = item
    rng = np.random.default_rng([seed, 22, i])
    nset = int(rng.choice([0, 1, 2, 3]))
    bd = int(rng.choice([1, 2, 3]))
    m = bd * int(rng.integers(1, 4))
    n = int(rng.choice([2, 3, 4, 5, 7, 11]))
    starts = [int(s) for s in rng.integers(0, 2 * n, size)]
    if rng.uniform() < .5:
        starts = [(r * n) // size for r in range(size)]
    off = rng.uniform() < .2                   # a component nobody measures
    sc = float(rng.choice([1., 1., .01, 30.]))
    data = {}
    for t, o in enumerate(ops):
        if o["op"] == "add":
            w = np.round(rng.uniform(.2, 3., m), 3)
            w[rng.uniform(size=m) < .15] = 0
            if off:
                w[0] = 0
            x = np.round(sc * rng.normal(1., 1., (max(nset, 1), m)), 4)
            x = x * w
            data[t] = (x, w)
    want = sorted({int(v) for v in rng.integers(0, max(nset, 1), 2)})

    def rank(comm, r, _):
        from mpi4py import MPI
        from qsonic.mathtools import SubsampleCov
        s = SubsampleCov((nset, m) if nset else m, n, istart=starts[r])
        out = []
        for t, o in enumerate(ops):
            e = {"out": "ok"}
            try:
                if o["op"] == "add":
                    if o["p"] == r + 1:
                        x, w = data[t]
                        s.add_measurement((x if nset else x[0]).copy(),
                                          w.copy())
                elif o["op"] == "reduce":
                    s.allreduce(comm, MPI.IN_PLACE)
                elif o["op"] == "reset":
                    s.reset()
                elif o["op"] == "mean":
                    e["res"] = {"mean": nums(s.get_mean())}
                elif o["op"] == "var":
                    a, v = s.get_mean_n_var(bias_correct=o["bias"])
                    e["res"] = {"mean": nums(a), "var": nums(v)}
                else:
                    a, c = s.get_mean_n_cov(
                        indices=want if o["some"] else None,
                        blockdim=bd if o["block"] else None,
                        bias_correct=o["bias"])
                    e["res"] = {"mean": nums(a), "cov": [
                        {"j": j + 1, "blocks": nums(y) if o["block"]
                         else [nums(y)]} for j, y in enumerate(c)
                        if y is not None]}
            except Exception as x:
                e["out"] = type(x).__name__ + str(x)[:100]
            out.append(e)
        return out
    r = simmpi.run(rank, size, timeout=60)
    if not r.all_ok:
        return [{"k": "crash", "msg": r.first_error()[-800:]}]
    ev = [{"k": "new", "n": n, "nset": max(nset, 1), "m": m,
           "starts": starts, "out": "ok"}]
    for t, o in enumerate(ops):
        es = [v[t] for v in r.value]
        bad = [e["out"] for e in es if e["out"] != "ok"]
        e = {"k": o["op"], "out": bad[0] if bad else "ok"}
        if o["op"] == "add":
            e.update(p=o["p"], x=nums(data[t][0]), w=nums(data[t][1]))
        elif o["op"] in ("mean", "var", "cov"):
            e.update(k="take", what=o["op"], bias=bool(o.get("bias")),
                     res=[x.get("res", {}) for x in es])
            if o["op"] == "cov":
                e.update(want=[j + 1 for j in want] if o["some"] else
                         list(range(1, max(nset, 1) + 1)),
                         bd=bd if o["block"] else m)
        ev.append(e)
    return ev


def densify(h, rng):
    """Several measurements where the specification adds one."""
    out = []
    for o in h:
        out += [o] * (rng.randrange(1, 7) if o["op"] == "add" else 1)
    return out


def run(chk):
    chk.model("MC_Jackknife", workers=4)
    chk.model("MC_Jackknife", "MC_JackknifeStart.cfg",
              expect_violation="DealtInTurn")
    chk.model("MC_Jackknife", "MC_JackknifeLate.cfg",
              expect_violation="MeanOfEverything")
    import qsonic.mathtools   # noqa: before forking
    n = 1500 if chk.thorough else 160
    hs = [(1, h) for h in chk.generate("Gen_Jackknife", "Gen_Jackknife1.cfg",
                                       num=n, depth=16)]
    hs += [(3, h) for h in chk.generate("Gen_Jackknife", "Gen_Jackknife3.cfg",
                                        num=n // 2, depth=16)]
    # whole lives: everybody adds, results in every order, reset, again
    for t in range(n // 4):
        size = 1 + t % 4
        h = []
        for life in range(1 + t % 3):
            h += [{"op": "add", "p": 1 + chk.rng.randrange(size)}
                  for _ in range(chk.rng.randrange(4, 12))]
            if size > 1:
                h.append({"op": "reduce"})
            for _ in range(chk.rng.randrange(1, 5)):
                h.append(chk.rng.choice([
                    {"op": "mean"}, {"op": "var", "bias": False},
                    {"op": "cov", "bias": False, "some": False,
                     "block": False},
                    {"op": "cov", "bias": False, "some": True,
                     "block": True}]))
            h.append({"op": "reset"})
        hs.append((size, h))
    items = []
    for i, (size, h) in enumerate(hs):
        h = h if i % 3 else densify(h, chk.rng)
        items.append((chk.seed, i, size, h))
    scen = pmap(scenario, items)
    chk.sample(scen[0][:6])
    chk.validate("Trace_C22", scen)
