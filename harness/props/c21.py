"""C21: the number of processes does not matter."""
import os
import shutil

import numpy as np

import caldrv
import runs
import world
from core import pmap

ERR = [{"ext": "VAR_STATS", "col": c} for c in
       ("e_var_pipe", "e_var_delta", "cov_var_delta")]


def load(r, out):
    if not r.all_ok:
        return {"ok": False, "msg": r.first_error()[-600:], "deltas": [],
                "chi2": [], "attr": [], "files": []}
    o = world.outputs(out)
    n = {}
    for x in o["chi2"]:
        n[x["TARGETID"]] = n.get(x["TARGETID"], 0) + 1
        x["key"] = x["TARGETID"] if n[x["TARGETID"]] == 1 else \
            x["TARGETID"] + ":" + x["RSNR"] + ":" + x["MEANSNR"][0]
        x["CONT_valid"] = "1" if x["CONT_valid"] in ("1", "True", "true") \
            else "0"
    # exposures of one target are told apart by their own signal to noise
    for x in o["chi2"]:
        if n[x["TARGETID"]] > 1:
            x["key"] = x["TARGETID"] + ":" + x["RSNR"] + ":" \
                + x["MEANSNR"][0]
    o["ok"], o["msg"] = True, ""
    return o


def full(item):
    k, tmp, seed, c, sizes = item
    d = os.path.join(tmp, f"np{k}")
    rng = np.random.default_rng([seed, 21, k])
    c = dict(runs.BASE, **c)
    q = runs.quasars(c, rng)
    for x in q:                       # one pixel observed later
        if c["kind"] != "tile" and x["pix"] == 107 and rng.uniform() < .3:
            x["night"] = c["late"]
    s = world.Survey(d, rng, q, kind=c["kind"], reso=c["reso"])
    o = runs.options(c, d, s, rng)
    res = []
    for j, n in enumerate(sizes):
        r = world.run_fit(world.fit_argv(s, f"{d}/o{j}", *o), n, easy=True)
        res.append(load(r, f"{d}/o{j}"))
    shutil.rmtree(d, ignore_errors=True)
    # functions fitted with errors from random subsamples
    skip = ERR + [{"ext": x, "col": "*"} for x in
                  (["VAR_FUNC-fit"] if c["fid"] else ["VAR_FUNC"])]
    return [{"k": "procs", "script": "fit", "case": c, "sizes": sizes,
             "skip": skip, "byhpx": c["hpx"], "runs": res}]


def calib(item):
    k, tmp, seed = item
    d = os.path.join(tmp, f"nc{k}")
    rng = np.random.default_rng([seed, 211, k])
    nf = int(rng.integers(1, 7))
    t = 100
    files = {}
    for f in range(nf):
        n = int(rng.choice([0, 4, 9, 14])) if f else 40
        files[f"delta-{f * 3}.fits"] = [
            caldrv.sightline(rng, t + i, 2. if n == 40 else
                             float(rng.choice([.5, 2., 3., 200.])))
            for i in range(n)]
        t += n
    caldrv.write(d, files)
    sizes = [1] + sorted(int(x) for x in rng.permutation(np.arange(2, 8))[:2])
    res = []
    for j, n in enumerate(sizes):
        r = caldrv.run(d, f"{d}/o{j}", n, "--nvarbins", "8", "--nwbins", "4",
                       "--wave1", "3600", "--wave2", "4800", "--min-snr", "1",
                       *(["--var-use-cov"] if k % 2 else []))
        name, ext, _ = caldrv.product(f"{d}/o{j}")
        res.append({"ok": r.all_ok, "msg": "" if r.all_ok else
                    r.first_error()[-600:], "deltas": [], "chi2": [],
                    "attr": ext, "files": name})
    shutil.rmtree(d, ignore_errors=True)
    return [{"k": "procs", "script": "calib", "case": {"files": nf},
             "sizes": sizes, "byhpx": True, "runs": res,
             "skip": ERR + [{"ext": "VAR_FUNC", "col": "*"}]}]


def run(chk):
    chk.model("MC_Procs")
    for v in ("local", "root", "means", "count"):
        chk.model("MC_Procs", f"MC_Procs_{v}.cfg", expect_violation="Same")
    import qsonic.scripts.qsonic_fit   # noqa: before forking
    import qsonic.scripts.qsonic_calib   # noqa
    R = chk.rng
    G = ["mixed", "good", "good", "onearm"]
    one = ["--num-iterations", "1"]
    cases = [dict(fid=True, coadd="before", extra=["--num-iterations", "3"]),
             dict(fid=True, coadd="disable", hpx=True, norm=True),
             dict(fid=True, coadd="after", cal="flux", dla=True),
             dict(fid=True, coadd="before", expo="before"),
             dict(fid=True, coadd="before", expo="after", hpx=True),
             dict(fid=True, coadd="before", model="input", cal="eta"),
             dict(fid=True, coadd="before", model="true", kind="mock",
                  reso=True),
             dict(fid=True, coadd="disable", kind="tile"),
             # processes whose spectra all turn out invalid
             dict(fid=True, coadd=R.choice(["before", "disable"]),
                  groups=["good", "invalid", "good", "invalid"], all4=True),
             dict(eta=True, extra=one), dict(cov=True, extra=one,
                                             coadd="disable")]
    for _ in range(60 if chk.thorough else 8):
        cases.append(dict(
            fid=True, coadd=R.choice(["before", "after", "disable"]),
            hpx=R.random() < .5, norm=R.random() < .5,
            cal=R.choice(["none", "eta", "flux", "add"]),
            dla=R.random() < .5, expo=R.choice(["disable", "before",
                                                "after"]),
            model=R.choice(["picca", "picca", "input"]),
            reso=R.random() < .3))
    items = []
    for k, c in enumerate(cases):
        c.setdefault("groups", G)
        c["late"] = R.choice([20210601, 20220101, 20221001, 20240101])
        items.append((k, chk.tmp, chk.seed, c,
                      [1] + ([4, 3] if c.pop("all4", False) else
                             R.sample([2, 3, 4], 3 if chk.thorough else 1))))
    scen = pmap(full, items)
    scen += pmap(calib, [(k, chk.tmp, chk.seed)
                         for k in range(120 if chk.thorough else 30)])
    chk.sample(str(scen[0])[:3000])
    chk.validate("Trace_C21", scen)
