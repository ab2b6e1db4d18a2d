"""C11: coadding arms."""
import forest
from core import pmap

O = forest.ops
SEQ = [
    O("simple", "region", "smooth", "cont", "weight", "chi2"),
    O("region", "coadd"),
    O("region", "smooth", "coadd"),
    O("region", "sky", "smooth", "cont", "weight", "coadd"),
    O("region", ("smooth", {"s": 0}), "cont", "weight", "coadd"),
    O("region", "noisecal", ("smooth", {"s": 2}), "cont", ("weight", {"w": 2}),
      "slice", "coadd"),
    O("region", "sky", "cont", ("smooth", {"s": 2}), "weight", "drop",
      "coadd"),
    O("region", "smooth", ("cont", {"v": 4}), "weight", "coadd"),
    O(("region", {"r": 3}), "slice", ("slice", {"a": 1}), "smooth", "cont",
      "weight", ("slice", {"a": 2}), "coadd", "weight"),
    O("region", ("smooth", {"s": 2}), ("smooth", {"s": 0}), "cont", "weight",
      "coadd"),
]


def run(chk):
    chk.model("MC_Coadd",
              "MC_CoaddBig.cfg" if chk.thorough else "MC_Coadd.cfg")
    t = chk.thorough
    n = 3000 if t else 330
    items = []
    for i in range(n):
        kw = {"kind": [0, 1, 2, 3, 4, 5][(i // len(SEQ)) % 6],
              "reso": i % 3 != 0, "bad": [.3, .6, .1][i % 3],
              "units": 1e4 if i % 7 == 3 else 1.}
        items.append((chk.seed, i, chk.tmp, SEQ[i % len(SEQ)], kw))
    gen = chk.generate("Gen_Forest", num=1000 if t else 60, depth=30)
    items += [(chk.seed, 50000 + i, chk.tmp,
               [o for o in q if o["op"] != "coadd"] + O("coadd"), {})
              for i, q in enumerate(gen)]
    scen = pmap(forest.one, items)
    chk.sample(scen[3][-1])
    chk.notes.append({"coadds": sum(e["k"] == "coadd" for s in scen
                                    for e in s),
                      "simple_coadds": sum(e["k"] == "simple" for s in scen
                                           for e in s)})
    chk.validate("Trace_C11", scen)
