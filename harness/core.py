"""Shared machinery of the checks: running TLC, collecting verdicts, evidence.

Verdicts are made by TLC, from the specification, on traces recorded from the
real code.  Python drives, records and projects; it does not judge.
"""
import concurrent.futures as cf
import json
import math
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("QSONIC_REPO", "/repo")
TLA = "/opt/veriftools/tla"
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


class MachineryError(Exception):
    pass


# --------------------------------------------------------------- encoding
def num(x):
    """A number as the specification's Num string."""
    if isinstance(x, bool):
        return "1" if x else "0"
    try:
        import numpy as np
        if isinstance(x, (np.bool_,)):
            return "1" if x else "0"
        if isinstance(x, np.integer):
            return str(int(x))
    except ImportError:
        pass
    if isinstance(x, int):
        return str(x)
    try:
        f = float(x)
    except Exception:
        return "nan"
    if math.isnan(f) or math.isinf(f):
        return "nan"
    return repr(f)


def nums(a):
    if a is None:
        return []
    import numpy as np
    a = np.asarray(a)
    if a.ndim == 0:
        return [num(a[()])]
    if a.ndim > 1:
        return [nums(r) for r in a]
    return [num(v) for v in a]


# --------------------------------------------------------------- TLC
def _num_class_dir(tmp):
    d = os.path.join(SPEC, "java")
    cls, src = os.path.join(d, "Num.class"), os.path.join(d, "Num.java")
    if os.path.exists(cls):
        return d
    out = os.path.join(tmp, "java")
    os.makedirs(out, exist_ok=True)
    subprocess.run(["javac", "-d", out, "-cp", f"{TLA}/tla2tools.jar", src],
                   check=True)
    return out


def tlc(module, cfg, tmp, env=None, workers=1, args=(), timeout=600,
        heap="2g"):
    """Run TLC on spec/<module>.tla; returns the process output."""
    md = tempfile.mkdtemp(prefix="md", dir=tmp)
    cp = ":".join([f"{TLA}/tla2tools.jar", f"{TLA}/CommunityModules-deps.jar",
                   _num_class_dir(tmp)])
    if os.path.sep not in cfg:
        cfg = os.path.join(SPEC, cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-XX:TieredStopAtLevel=4", "-Xss32m", f"-Xmx{heap}",
           f"-Djava.io.tmpdir={md}",
           "-cp", cp, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE",
           "-metadir", md, "-workers", str(workers), "-config", cfg,
           *args, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    end = time.time() + timeout
    try:
        for _ in range(4):
            p = subprocess.Popen(cmd, env=e, stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT, text=True,
                                 cwd=SPEC)
            out = _wait(p, end)
            if out is not None:
                return p.returncode, out
            if time.time() > end:
                break
            shutil.rmtree(md, ignore_errors=True)
            os.makedirs(md, exist_ok=True)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    raise MachineryError(f"TLC timeout on {module}")


def _wait(p, end, idle=40.):
    """The output of p; None when its time is over or it has stalled (used
    hardly any processor time for long), which a virtual machine may do."""
    tick = os.sysconf("SC_CLK_TCK")
    used, since = 0., time.time()
    while True:
        try:
            return p.communicate(timeout=5)[0]
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        try:
            with open(f"/proc/{p.pid}/stat") as f:
                x = f.read().rsplit(")", 1)[1].split()
            cpu = (int(x[11]) + int(x[12])) / tick
        except (OSError, IndexError, ValueError):
            cpu = used + 1.
        if cpu > used + .2:
            used, since = cpu, now
        if now > end or now - since > idle:
            p.kill()
            p.communicate()
            return None


_ST = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def _counts(out):
    m = _ST.findall(out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def _tagged(out):
    """Values printed by the spec as  PrintT("@@" \\o ToJson(v))."""
    res = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            s = line[3:-1]
            s = s.replace('\\"', '"').replace("\\\\", "\\")
            res.append(json.loads(s))
    return res


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(seed * 1000003 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"qv-{prop}-")
        self.states = self.transitions = 0
        self.design = []
        self.events = 0
        self.scenarios = 0
        self.samples = []
        self.failures = []      # dicts: module, clauses, event, scenario
        self.notes = []
        self.clause_counts = {}
        self.assumptions = []
        self.generated = 0
        self._pool = cf.ThreadPoolExecutor(8)
        self._pend = []

    # -- randomness
    def nprng(self, salt=0):
        import numpy as np
        return np.random.default_rng([self.seed, salt,
                                      sum(map(ord, self.prop))])

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # -- design-level model checking
    def model(self, module, cfg=None, workers=2, timeout=800, heap="3g",
              args=(), deadlock_ok=True, expect_violation=None):
        """Exhaustive TLC run of a design model (asynchronously)."""
        cfg = cfg or module + ".cfg"

        def job():
            a = list(args)
            if deadlock_ok:
                a.append("-deadlock")
            # one worker: which counterexample comes first must not vary
            rc, out = tlc(module, cfg, self.tmp,
                          workers=1 if expect_violation else workers,
                          timeout=timeout, heap=heap, args=a)
            if expect_violation:
                # sanity: the deliberately broken variant must be rejected
                if expect_violation not in out or "is violated" not in out \
                        and "violated" not in out:
                    raise MachineryError(
                        f"{module}/{cfg}: expected {expect_violation} to be "
                        f"violated\n{out[-2000:]}")
                return
            if rc != 0 or "No error has been found" not in out:
                raise MachineryError(f"design model {module}/{cfg} failed "
                                     f"(rc={rc})\n{out[-3000:]}")
            g, d = _counts(out)
            self.states += d
            self.transitions += g
            self.design.append({"model": module, "cfg": cfg,
                                "distinct_states": d,
                                "states_generated": g})
        self._pend.append(self._pool.submit(job))

    # -- behaviours out of the specification
    def generate(self, module, cfg=None, num=None, depth=None, timeout=600,
                 heap="3g", env=None):
        """Values the spec prints ("@@...").  With ``num``: random simulation
        with the check's seed; otherwise exhaustive enumeration."""
        cfg = cfg or module + ".cfg"
        args = ["-deadlock"]
        if num:
            args += ["-simulate", f"num={num}", "-seed", str(self.seed),
                     "-depth", str(depth or 100)]
        rc, out = tlc(module, cfg, self.tmp, env=env, timeout=timeout,
                      heap=heap, args=args)
        if rc != 0:
            raise MachineryError(f"generator {module} failed\n{out[-3000:]}")
        g, d = _counts(out)
        self.states += d
        self.transitions += g
        vals = _tagged(out)
        if not vals:
            raise MachineryError(f"generator {module} produced nothing\n"
                                 f"{out[-2000:]}")
        self.generated += len(vals)
        return vals

    # -- trace validation
    def validate(self, module, scenarios, cfg="Trace.cfg", timeout=800,
                 heap="2g", nchunks=None, env=None):
        """scenarios: list of lists of events (each list is one trace).
        TLC decides each event; failing clauses are collected."""
        scenarios = [s for s in scenarios if s]
        if not scenarios:
            raise MachineryError(f"{module}: empty trace")
        self.scenarios += len(scenarios)
        # The code under test may produce text with newlines etc.; json copes.
        weights = [len(json.dumps(s)) for s in scenarios]
        tot = sum(weights)
        if nchunks is None:
            nchunks = max(1, min(7, tot // 200000 + 1, len(scenarios)))
        order = sorted(range(len(scenarios)), key=lambda i: -weights[i])
        bins = [[] for _ in range(nchunks)]
        load = [0] * nchunks
        for i in order:
            k = load.index(min(load))
            bins[k].append(i)
            load[k] += weights[i]
        for b in bins:
            if b:
                b.sort()
                self._pend.append(self._pool.submit(
                    self._validate_chunk, module, cfg,
                    [(i, scenarios[i]) for i in b], timeout, heap, env))

    def _validate_chunk(self, module, cfg, scen, timeout, heap, env):
        fd, path = tempfile.mkstemp(suffix=".ndjson", dir=self.tmp)
        index = []
        with os.fdopen(fd, "w") as f:
            for i, s in scen:
                for j, ev in enumerate(s):
                    f.write(json.dumps(ev) + "\n")
                    index.append((i, j))
        e = {"TRACE": path}
        e.update(env or {})
        rc, out = tlc(module, cfg, self.tmp, env=e, timeout=timeout,
                      heap=heap, args=["-deadlock"])
        vals = _tagged(out)
        if rc != 0 or not vals:
            keep = os.path.join(EVID, f"failed-{module}.ndjson")
            os.makedirs(EVID, exist_ok=True)
            shutil.copy(path, keep)
            if any(x in out for x in ("Attempted to", "evaluating the")) \
                    and "OutOfMemory" not in out:
                # the code produced something no clause is even defined for
                # (say a product without its columns)
                at = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
                i, j = index[min(len(index), int(at[-1]) if at else 1) - 1]
                ev = dict(scen)[i]
                self.failures.append({
                    "module": module, "clauses": ["outside_specification"],
                    "event": ev[j], "scenario": ev[:j + 1], "index": j,
                    "detail": out[-1500:]})
                return
            raise MachineryError(
                f"trace check {module} failed (rc={rc}), trace kept in "
                f"{keep}\n{out[-3500:]}")
        v = vals[-1]
        if v["n"] != len(index):
            raise MachineryError(f"{module}: consumed {v['n']} of "
                                 f"{len(index)} events")
        self.events += v["n"]
        byid = dict(scen)
        for b in v["bad"]:
            i, j = index[b["i"] - 1]
            self.failures.append({
                "module": module, "clauses": sorted(b["c"]),
                "event": byid[i][j], "scenario": byid[i][:j + 1],
                "index": j})
        g, d = _counts(out)
        self.states += d
        self.transitions += g

    def fail(self, module, clause, event):
        """A verdict that needs no oracle (e.g. the code crashed outright
        while the specification enables the step) - recorded through the
        trace spec elsewhere; only used for impossible-to-encode outcomes."""
        self.failures.append({"module": module, "clauses": [clause],
                              "event": event, "scenario": [event],
                              "index": 0})

    def sample(self, obj):
        if len(self.samples) < 3:
            s = json.dumps(obj)
            self.samples.append(json.loads(s) if len(s) < 6000
                                else {"truncated": s[:6000]})

    # -- finish
    def finish(self):
        for p in self._pend:
            p.result()
        self._pool.shutdown()
        known = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                known = [k for k in json.load(f)["findings"]
                         if k["property"] == self.prop
                         and k["status"] == "known"]
        hits, new = {}, []
        for f in self.failures:
            k = next((k for k in known
                      if k["module"] == f["module"]
                      and set(f["clauses"]) <= set(k["clauses"])
                      and all(f["event"].get(a) == b
                              for a, b in k["match"].items())), None)
            if k is None:
                new.append(f)
            else:
                hits[k["what"]] = hits.get(k["what"], 0) + 1
        for w in hits:
            print(f"KNOWN-FINDING: property={self.prop} {w}")
        replay = ""
        if new:
            rd = os.path.join(EVID, "replay")
            os.makedirs(rd, exist_ok=True)
            replay = os.path.join(rd, f"{self.prop}.json")
            with open(replay, "w") as fh:
                json.dump({"property": self.prop, "seed": self.seed,
                           "tier": self.tier, "count": len(new),
                           "failures": new[:20]}, fh, indent=1)
            cl = {}
            for f in new:
                for c in f["clauses"]:
                    cl[c] = cl.get(c, 0) + 1
            print(f"[{self.prop}] failing clauses: {cl}")
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.scenarios,
                "trace_events_validated": self.events,
                "behaviours_generated_by_tlc": self.generated,
                "design_models": self.design,
                "samples": self.samples or ["none"],
                "notes": self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        self.log(f"states={self.states} events={self.events} "
                 f"traces={self.scenarios} violations={len(new)}")
        if new:
            print(f"VIOLATION property={self.prop} replay={replay}",
                  flush=True)
            return 1
        return 0


def pmap(fn, items, nproc=6):
    """fn over items in forked workers (each item may itself fork ranks).
    Exceptions in fn are re-raised here."""
    import pickle
    items = list(items)
    nproc = max(1, min(nproc, len(items)))
    procs = []
    sys.stdout.flush()
    for k in range(nproc):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = []
            try:
                for i in range(k, len(items), nproc):
                    out.append((i, True, fn(items[i])))
            except BaseException as e:   # noqa
                import traceback
                out.append((i, False,
                            (e if isinstance(e, Exception) else
                             RuntimeError(repr(e)),
                             traceback.format_exc())))
            try:
                b = pickle.dumps(out, protocol=4)
            except Exception:
                b = pickle.dumps([(0, False, (RuntimeError("unpicklable"),
                                              str(out)[-3000:]))])
            with os.fdopen(w, "wb") as f:
                f.write(b)
            os._exit(0)
        os.close(w)
        procs.append((pid, r))
    res = [None] * len(items)
    err = None
    for pid, r in procs:
        with os.fdopen(r, "rb") as f:
            b = f.read()
        os.waitpid(pid, 0)
        if not b:
            raise MachineryError("worker died")
        for i, ok, v in pickle.loads(b):
            if ok:
                res[i] = v
            else:
                err = v
    if err is not None:
        raise WorkerError(err[1])
    return res


class WorkerError(Exception):
    """Exception in a worker; carries the worker's traceback text."""


def setup_paths():
    for p in (os.path.join(REPO, "py"),
              os.path.join(VERIF, "harness", "stubs"),
              os.path.join(VERIF, "harness")):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
