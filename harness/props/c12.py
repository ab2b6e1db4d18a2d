"""C12: coadding delta files."""
import deltadrv
from core import pmap


def one(item):
    return deltadrv.scenario(*item)


def run(chk):
    chk.model("MC_DeltaCoadd")
    chk.model("MC_DeltaCoadd", "MC_DeltaCoaddLong.cfg")
    import qsonic.scripts.qsonic_coadd_deltas   # noqa: before forking
    n = 1200 if chk.thorough else 120
    scen = pmap(one, [(chk.seed, i, chk.tmp) for i in range(n)])
    chk.sample(scen[0])
    chk.notes.append({"entries_per_target": sorted(
        len(e["ins"]) for s in scen for e in s if e["k"] == "target")[-20:]})
    chk.validate("Trace_C12", scen)
