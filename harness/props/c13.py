"""C13: weights and chi-square over all sequences of steps."""
import forest
from props import c14
from core import pmap

O = forest.ops
EXTRA = [
    O("region", "smooth", "cont", "weight", "chi2", ("weight", {"w": 2}),
      "chi2", ("weight", {"w": 1}), "chi2"),
    O("region", ("smooth", {"s": 0}), "cont", "weight", "chi2",
      ("cont", {"v": 2}), "chi2", "weight", "chi2", "coadd", "chi2",
      "weight", "chi2"),
    O("region", "coadd", "smooth", "cont", "weight", "chi2", "drop", "chi2"),
    O("region", "smooth", "cont", "weight", "drop", "chi2", "slice",
      "weight", "chi2", ("cont", {"v": 3}), "weight", "chi2"),
    O("region", "smooth", "weight", "chi2", ("cont", {"v": 3}), "chi2",
      "cont", "chi2", "weight", "chi2"),
    O("region", "smooth", ("cont", {"v": 4}), "weight", "chi2", "coadd",
      "weight", "chi2", ("cont", {"v": 1}), "weight", "chi2"),
    O("region", "smooth", "cont", "weight", "chi2", ("cont", {"v": 4}),
      "weight", "chi2"),
]


def run(chk):
    chk.model("MC_Weight")
    t = chk.thorough
    seqs = chk.generate("Gen_Forest", num=1500 if t else 200, depth=30)
    if t:
        seqs += chk.generate("Gen_Forest", "Gen_ForestLong.cfg", num=600,
                             depth=30)
    for q in seqs:
        # every behaviour ends by looking at both quantities
        q += O("weight", "chi2")
    seqs += [EXTRA[i % len(EXTRA)] for i in range(600 if t else 100)]
    scen = pmap(forest.one, [(chk.seed, i, chk.tmp, q,
                              {"units": 1e4 if i % 7 == 3 else 1.})
                             for i, q in enumerate(seqs)]
                + forest.scripted(chk, 300 if t else 36))
    chk.sample(scen[-1][-1])
    kinds = {}
    for s in scen:
        for e in s:
            k = e["k"] + ("/valid" if e["post"].get("valid") else "")
            kinds[k] = kinds.get(k, 0) + 1
    chk.notes.append({"steps": kinds})
    # the weights whole runs save, with the noise of their calibrations
    import qsonic.scripts.qsonic_fit   # noqa: before forking
    cases = [{"noise": 1, "add": 1, "flux": 1, "smooth": 1, "size": 1},
             {"noise": 1, "add": 1, "smooth": 1, "size": 2},
             {"noise": 1, "add": 1, "plain": 1, "size": 1},
             {"flux": 1, "noise": 1, "smooth": 1, "size": 2}]
    full = pmap(c14.full, [(900 + k, chk.tmp, chk.seed, c) for k, c in
                           enumerate(cases * (4 if t else 1))])
    for f in full:
        scen.append([
            {"k": "run", "out": e["out"], "n": e["n"]} if e["k"] == "run" else
            {"k": "saved", "out": "ok", "smooth": e["smooth"], **e["ent"]}
            for e in f if e["k"] == "run" or t or chk.rng.random() < .4])
    chk.validate("Trace_C13", scen)
