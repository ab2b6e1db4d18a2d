"""C15: which spectra enter the fit, and which arms are saved."""
import pipedrv
from core import pmap


def run(chk):
    chk.model("MC_Select")
    chk.model("MC_Select", "MC_SelectEarly.cfg", expect_violation="Exactly")
    import qsonic.scripts.qsonic_fit   # noqa: before forking
    cs = pipedrv.cases(chk, 120 if chk.thorough else 18)
    scen = pmap(pipedrv.scenario, [(k, chk.tmp, chk.seed, c, "select")
                                   for k, c in enumerate(cs)])
    chk.sample(str(scen[0])[:3000])
    chk.validate("Trace_C15", scen)
