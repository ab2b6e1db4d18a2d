"""C10: alignment of the arrays over all sequences of steps."""
import forest
from core import pmap


def run(chk):
    chk.model("MC_Forest")
    for v in ("SliceOnce", "Replace"):
        chk.model("MC_Forest", f"MC_Forest{v}.cfg",
                  expect_violation="Aligned")
    seqs = chk.generate("Gen_Forest", num=1500 if chk.thorough else 220,
                        depth=30)
    if chk.thorough:
        seqs += chk.generate("Gen_Forest", "Gen_ForestLong.cfg", num=600,
                             depth=30)
    scen = pmap(forest.one, [(chk.seed, i, chk.tmp, q, {})
                             for i, q in enumerate(seqs)]
                + forest.scripted(chk, 300 if chk.thorough else 48))
    chk.sample([{"k": e["k"], "a": e["a"]} for e in scen[1][1:]])
    kinds = {}
    for s in scen:
        for e in s:
            kinds[e["k"]] = kinds.get(e["k"], 0) + 1
    chk.notes.append({"steps": kinds})
    chk.validate("Trace_C10", scen)
