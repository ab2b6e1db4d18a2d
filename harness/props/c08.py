"""C08: sky and BAL masks."""
import maskdrv
from core import pmap


def run(chk):
    chk.model("MC_Interval")
    import qsonic.masks   # noqa: before forking
    import qsonic.scripts.qsonic_fit   # noqa
    n = 1500 if chk.thorough else 200
    scen = pmap(maskdrv.skybal, [(chk.seed, i, chk.tmp) for i in range(n)])
    cases = [{"sky": True, "size": 2}, {"bal": True, "size": 1},
             {"sky": True, "bal": True, "size": 3}]
    scen += pmap(maskdrv.full, [(k, chk.tmp, chk.seed, c) for k, c in
                                enumerate(cases * (5 if chk.thorough
                                                   else 1))])
    chk.sample(scen[0][-1])
    chk.validate("Trace_Masks", scen)
