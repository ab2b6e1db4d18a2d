"""Whole qsonic-fit runs on small surveys with known ground truth.

A case is a record: size (processes), groups (the fate of each pixel's
quasars), kind data/mock/tile, coadd, expo, model picca/input/true, fid, eta,
hpx, dla, cal none/eta/add/flux, cov, out, norm, reso, and optionally skip,
minsnr, minrsnr, n (sightlines per group), extra (further arguments)."""
import numpy as np

import world

MIX = ["good", "good", "invalid", "masked", "short", "absent", "onearm",
       "good"]
BASE = dict(kind="data", expo="disable", model="picca", fid=False, eta=False,
            hpx=False, dla=False, cal="none", cov=False, out=True, norm=False,
            reso=False, coadd="before", size=2, groups=["mixed", "good"])


def quasars(c, rng):
    """Enough fittable sightlines in total for the variance fit, where there
    are any at all (a fit to a handful of pixels may go anywhere)."""
    q = []
    share = {"good": 1., "onearm": 1., "mixed": .5}
    v = sum(share.get(f, 0) for f in c["groups"])
    n = max(7, int(np.ceil(30 / v))) if v else 7
    n = c.get("n", n)
    for g, fate in enumerate(c["groups"]):
        for i in range(n if fate in share else min(n, 7)):
            f = MIX[i % len(MIX)] if fate == "mixed" else fate
            k = len(q)
            q.append(dict(
                tid=39627700846986001 + 1000 * g + 37 * i,
                pix=100 + 7 * g, tile=80 + g, petal=i % 3,
                survey="main" if i % 3 or c["kind"] == "tile" else "sv3",
                night=20210101 + (g if c["kind"] == "tile" else k),
                z=float(rng.uniform(2.2, 3.1)), fate=f, ra=5. + 3 * g,
                dec=2. + 0.1 * i, nexp=2 if c["expo"] != "disable" else 0))
    return q


def options(c, d, s, rng):
    o = ["--keep-surveys", "main", "sv3", "--min-forestsnr",
         str(c.get("minsnr", "-1000")),
         "--coadd-arms", c["coadd"], "--exposures", c["expo"]]
    if c["kind"] == "mock":
        o.append("--mock-analysis")
    if c["kind"] == "tile":
        o.append("--tile-format")
    if c["model"] == "input":
        world.write_input_continua(f"{d}/ic", s.q, rng=rng)
        o += ["--input-continuum-dir", f"{d}/ic"]
    if c["model"] == "true":
        o.append("--true-continuum")
    if c["fid"]:
        f = world.write_fiducial(f"{d}/fid.fits")
        o += ["--fiducial-meanflux", f, "--fiducial-varlss", f]
    if c["eta"]:
        o.append("--var-fit-eta")
    if c["hpx"]:
        o.append("--save-by-hpx")
    if c["dla"]:
        t = [q["tid"] for q in s.q][::3]
        o += ["--dla-mask", world.write_dla(
            f"{d}/dla.fits", t, np.full(len(t), 2.3), np.full(len(t), 20.3))]
    if c["cal"] in ("eta", "add"):
        o += ["--noise-calibration",
              world.write_noisecal(f"{d}/ncal.fits")]
        if c["cal"] == "add":
            o.append("--varlss-as-additive-noise")
    if c["cal"] == "flux":
        o += ["--flux-calibration", world.write_fluxcal(f"{d}/fcal.fits")]
    if c["cov"]:
        o.append("--var-use-cov")
    if c["norm"]:
        o.append("--normalize-stacked-flux")
    if not c["reso"]:
        o.append("--skip-resomat")
    if "skip" in c:
        o += ["--skip", str(c["skip"])]
    if "minrsnr" in c:
        o += ["--min-rsnr", str(c["minrsnr"])]
    return o + list(c.get("extra", []))


def fit(c, d, rng, sizes=None, **kw):
    """Writes the survey in d and runs it (once per entry of sizes, into
    out0, out1, ...; default: c["size"] into out).  Returns survey, argv and
    run result(s)."""
    # Variance functions fitted to this few sightlines can extrapolate to
    # negative values, and with them the weights; then no mean resolution
    # exists to be written.
    c["fid"] = c["fid"] or c["reso"]
    s = world.Survey(d, rng, quasars(c, rng), kind=c["kind"],
                     reso=c["reso"], **kw)
    o = options(c, d, s, rng)
    if sizes:
        return s, o, [world.run_fit(world.fit_argv(s, f"{d}/out{k}", *o), n)
                      for k, n in enumerate(sizes)]
    argv = world.fit_argv(s, d + "/out", *o)
    if not c["out"]:
        i = argv.index("-o")
        del argv[i:i + 2]
    return s, argv, world.run_fit(argv, c["size"])
