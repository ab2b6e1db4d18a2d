"""C09: absorber masks."""
import maskdrv
from core import pmap


def run(chk):
    chk.model("MC_Masks")
    chk.model("MC_Masks", "MC_MasksNoSort.cfg",
              expect_violation="OwnAbsorbers")
    import qsonic.masks   # noqa: before forking
    import qsonic.scripts.qsonic_fit   # noqa
    n = 1200 if chk.thorough else 160
    scen = pmap(maskdrv.dla, [(chk.seed, i, chk.tmp) for i in range(n)])
    cases = [{"dla": True, "size": 2},
             {"sky": True, "bal": True, "dla": True, "size": 3}]
    scen += pmap(maskdrv.full, [(k, chk.tmp, chk.seed, c) for k, c in
                                enumerate(cases * (5 if chk.thorough
                                                   else 1))])
    chk.sample(scen[0][-1])
    chk.notes.append({"absorbers_per_sightline": sorted(
        len(e["dla"]) for s in scen for e in s if e["k"] == "dla")})
    chk.validate("Trace_Masks", scen)
