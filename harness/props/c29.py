"""C29: saved deltas are the input data, calibrated and masked."""
import pipedrv
from core import pmap


def run(chk):
    import qsonic.scripts.qsonic_fit   # noqa: before forking
    chk.model("MC_Order")
    chk.model("MC_Order", "MC_OrderLate.cfg", expect_violation="NoLeak")
    R = chk.rng
    cs = []
    fixed = [dict(noise="eta", flux=1, sky=1), dict(noise="add", dla=1),
             dict(dla=1, bal=1, flux=1), dict(expo=1, noise="add", sky=1),
             dict(flux=1, noise="eta", dla=1), dict(bal=1, sky=1, dla=1)]
    n = 120 if chk.thorough else 14
    for j in range(n):
        c = dict(coadd=["before", "disable"][j % 2],
                 kind=R.choice(["data", "mock", "tile"]),
                 skip=R.choice([.25, 0, .1]), cuts="", probes=False,
                 size=1 + j % 4)
        if j < len(fixed):
            c.update(fixed[j])
        else:
            for o, v in (("sky", [1]), ("noise", ["eta", "add"]),
                         ("flux", [1]), ("bal", [1]), ("dla", [1])):
                if R.random() < .5:
                    c[o] = R.choice(v)
            if R.random() < .25:
                c["expo"] = 1
            if R.random() < .3:
                c["smooth"] = 0
        if c.get("expo"):
            c["kind"] = "data"
        cs.append(c)
    scen = pmap(pipedrv.scenario, [(500 + k, chk.tmp, chk.seed, c, "data")
                                   for k, c in enumerate(cs)])
    chk.sample(str(scen[0])[:3000])
    chk.validate("Trace_C15", scen)
