"""C07: region selection and the averages over it."""
import forest
from core import pmap


def run(chk):
    chk.model("MC_Region")
    n = 3000 if chk.thorough else 400
    r = lambda k: ("region", {"r": k})
    seqs = []
    for i in range(n):
        q = [r(chk.rng.randint(1, 4))
             for _ in range(chk.rng.choice([1, 2, 2, 3]))]
        if i % 3 == 1:      # work on the forest in between
            q.insert(1, chk.rng.choice(["sky", "noisecal", "fluxcal"]))
            q.append(r(chk.rng.randint(1, 4)))
        seqs.append(forest.ops(*q))
    scen = pmap(forest.one, [
        (chk.seed, i, chk.tmp, q,
         {"bad": [.3, .8, .05][i % 3], "wide": i % 4 == 0})
        for i, q in enumerate(seqs)])
    chk.sample(scen[0])
    chk.validate("Trace_C07", scen)
