"""Simulated MPI: every rank is a forked process, a coordinator in the parent
matches the collectives.

All collectives synchronise.  The coordinator never guesses: a collective
completes only when every rank has posted the same operation with the same
root and compatible buffers; when no rank can make progress any more the run
ends as "deadlock" and the pending operations are reported.
"""
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

import numpy as np

_current = None


def current():
    global _current
    if _current is None:
        _current = SoloComm()
    return _current


def set_current(comm):
    global _current
    _current = comm


def _opname(op):
    n = getattr(op, "name", None)
    if n:
        return n
    n = getattr(op, "__name__", str(op))
    return {"max": "MAX", "min": "MIN", "add": "SUM"}.get(n, n)


def _fold(op, vals):
    name = _opname(op) if op is not None else "SUM"
    out = vals[0]
    if isinstance(out, np.ndarray):
        out = out.copy()
    for v in vals[1:]:
        if name == "SUM":
            out = out + v
        else:
            out = op(out, v)
    return out


def _is_inplace(x):
    return type(x).__name__ == "_InPlace"


def _buf(x):
    if isinstance(x, (list, tuple)):
        x = x[0]
    return x


class BaseComm:
    rank = 0
    size = 1

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    # ---- object collectives
    def bcast(self, obj=None, root=0):
        return self._coll("bcast", root, obj)

    def scatter(self, sendobj=None, root=0):
        return self._coll("scatter", root, sendobj)

    def gather(self, sendobj=None, root=0):
        return self._coll("gather", root, sendobj)

    def allgather(self, sendobj=None):
        return self._coll("allgather", -1, sendobj)

    def alltoall(self, sendobj=None):
        return self._coll("alltoall", -1, sendobj)

    def reduce(self, sendobj=None, op=None, root=0):
        return self._coll("reduce", root, sendobj, op)

    def allreduce(self, sendobj=None, op=None):
        return self._coll("allreduce", -1, sendobj, op)

    def barrier(self):
        self._coll("barrier", -1, None)

    Barrier = barrier

    # ---- buffer collectives
    def Allreduce(self, sendbuf, recvbuf, op=None):
        recvbuf = _buf(recvbuf)
        src = recvbuf if _is_inplace(sendbuf) else _buf(sendbuf)
        res = self._coll("Allreduce", -1, np.ascontiguousarray(src), op)
        recvbuf[...] = np.asarray(res).reshape(recvbuf.shape)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        recvbuf = _buf(recvbuf)
        src = recvbuf if _is_inplace(sendbuf) else _buf(sendbuf)
        res = self._coll("Reduce", root, np.ascontiguousarray(src), op)
        if self.rank == root:
            recvbuf[...] = np.asarray(res).reshape(recvbuf.shape)

    def Bcast(self, buf, root=0):
        buf = _buf(buf)
        res = self._coll("Bcast", root, np.ascontiguousarray(buf))
        buf[...] = np.asarray(res).reshape(buf.shape)

    def Allgather(self, sendbuf, recvbuf):
        recvbuf = _buf(recvbuf)
        res = self._coll("Allgather", -1, np.ascontiguousarray(_buf(sendbuf)))
        recvbuf.reshape(-1)[...] = np.concatenate([r.ravel() for r in res])

    def Gather(self, sendbuf, recvbuf, root=0):
        res = self._coll("Gather", root, np.ascontiguousarray(_buf(sendbuf)))
        if self.rank == root:
            _buf(recvbuf).reshape(-1)[...] = np.concatenate(
                [r.ravel() for r in res])


def complete(name, root, payloads, op):
    """Results per rank of one matched collective."""
    size = len(payloads)
    if name in ("bcast", "Bcast"):
        return [payloads[root]] * size
    if name == "scatter":
        vals = payloads[root]
        if len(vals) != size:
            raise ValueError("scatter: wrong number of items")
        return list(vals)
    if name in ("gather", "Gather"):
        return [payloads if r == root else None for r in range(size)]
    if name in ("allgather", "Allgather"):
        return [list(payloads) for _ in range(size)]
    if name == "alltoall":
        return [[payloads[s][r] for s in range(size)] for r in range(size)]
    if name in ("reduce", "Reduce"):
        v = _fold(op, payloads)
        return [v if r == root else None for r in range(size)]
    if name in ("allreduce", "Allreduce"):
        return [_fold(op, payloads)] * size
    if name == "barrier":
        return [None] * size
    raise ValueError("unsupported collective " + name)


class SoloComm(BaseComm):
    """Single-rank communicator; also logs its collectives."""

    def __init__(self):
        self.log = []

    def _coll(self, name, root, payload, op=None):
        self.log.append((name, root))
        payload = pickle.loads(pickle.dumps(payload)) \
            if name not in ("scatter",) else payload
        return complete(name, max(root, 0), [payload], op)[0]

    def Abort(self, errorcode=1):
        raise SystemExit(99)


class _Chan:
    def __init__(self, rfd, wfd):
        self.rfd, self.wfd = rfd, wfd

    def send(self, obj):
        b = pickle.dumps(obj, protocol=4)
        b = struct.pack("<Q", len(b)) + b
        mv = memoryview(b)
        while mv:
            n = os.write(self.wfd, mv)
            mv = mv[n:]

    def _read(self, n):
        out = bytearray()
        while len(out) < n:
            b = os.read(self.rfd, n - len(out))
            if not b:
                raise EOFError
            out += b
        return bytes(out)

    def recv(self):
        n = struct.unpack("<Q", self._read(8))[0]
        return pickle.loads(self._read(n))


class RankComm(BaseComm):
    def __init__(self, rank, size, chan):
        self.rank, self.size, self.chan = rank, size, chan

    def _coll(self, name, root, payload, op=None):
        # The reduction operator itself stays in this process when it cannot
        # be pickled; SUM/MAX/MIN are matched by name.
        self.chan.send(("coll", name, root,
                        None if op is None else _opname(op),
                        pickle.dumps(payload, protocol=4)))
        kind, val = self.chan.recv()
        if kind == "die":
            os._exit(0)
        if kind == "err":
            raise RuntimeError(val)
        return pickle.loads(val)

    def Abort(self, errorcode=1):
        self.chan.send(("abort", errorcode))
        try:
            self.chan.recv()
        except EOFError:
            pass
        os._exit(0)


_OPS = {None: None, "SUM": None,
        "MAX": lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray)
        else max(a, b),
        "MIN": lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray)
        else min(a, b),
        "PROD": lambda a, b: a * b,
        "LAND": lambda a, b: np.logical_and(a, b)
        if isinstance(a, np.ndarray) else (a and b),
        "LOR": lambda a, b: np.logical_or(a, b)
        if isinstance(a, np.ndarray) else (a or b)}


def _child(rank, size, chan, fn, quiet):
    if quiet:
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    os.environ["OMP_NUM_THREADS"] = "1"
    comm = RankComm(rank, size, chan)
    set_current(comm)
    try:
        val = fn(comm, rank, size)
        out = ("ok", "", val)
    except SystemExit as e:
        out = ("exit", str(e.code), None)
    except BaseException as e:   # noqa
        out = ("raise", type(e).__name__,
               str(e)[:300] + "\n" + traceback.format_exc()[-1500:])
    try:
        chan.send(("done",) + out)
    except Exception:
        try:
            chan.send(("done", "raise", "Unpicklable", str(out)[:300]))
        except Exception:
            pass
    sys.stdout.flush()
    os._exit(0)


class RunResult:
    def __init__(self, size):
        self.size = size
        self.kind = [None] * size      # ok | exit | raise | abort | stuck | died
        self.name = [""] * size        # exception class / exit code
        self.value = [None] * size
        self.log = [[] for _ in range(size)]   # collectives as posted
        self.deadlock = False
        self.mismatch = ""
        self.timeout = False

    @property
    def all_ok(self):
        return all(k == "ok" for k in self.kind)

    def first_error(self):
        for k, n, v in zip(self.kind, self.name, self.value):
            if k != "ok":
                return f"{k}:{n}: {v}"
        return ""


def run(fn, size, timeout=120., quiet=True):
    """fn(comm, rank, size) on ``size`` simulated ranks."""
    res = RunResult(size)
    chans, pids = [], []
    sys.stdout.flush()
    sys.stderr.flush()
    for r in range(size):
        c2p_r, c2p_w = os.pipe()
        p2c_r, p2c_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(c2p_r)
            os.close(p2c_w)
            for ch in chans:
                os.close(ch.rfd)
                os.close(ch.wfd)
            _child(r, size, _Chan(p2c_r, c2p_w), fn, quiet)
        os.close(c2p_w)
        os.close(p2c_r)
        chans.append(_Chan(c2p_r, p2c_w))
        pids.append(pid)

    pending = [None] * size
    done = [False] * size
    aborted = False
    t0 = time.time()
    try:
        while not all(done):
            running = [r for r in range(size)
                       if not done[r] and pending[r] is None]
            if not running:
                # everyone alive is blocked
                alive = [r for r in range(size) if not done[r]]
                posts = [pending[r] for r in alive]
                sig = set((p[0], p[1], p[2]) for p in posts)
                ok = len(alive) == size and len(sig) == 1
                why = "" if ok else (
                    "ranks wait on different operations: "
                    + "; ".join(f"rank{r}:{pending[r][0]}" if pending[r]
                                else f"rank{r}:finished({res.kind[r]})"
                                for r in range(size)))
                if ok:
                    name, root, op = posts[0][0], posts[0][1], posts[0][2]
                    payloads = [pickle.loads(p[3]) for p in posts]
                    if name[0].isupper():
                        shp = set((np.asarray(p).size,
                                   np.asarray(p).dtype.str)
                                  for p in payloads)
                        if len(shp) != 1:
                            ok, why = False, f"{name}: buffers differ {shp}"
                    if name == "bcast" or name == "Bcast":
                        payloads = [p if i == root else None
                                    for i, p in enumerate(payloads)]
                if ok:
                    try:
                        outs = complete(name, root, payloads, _OPS.get(op))
                        enc = {}
                        for r in range(size):
                            k = id(outs[r])
                            if k not in enc:
                                enc[k] = pickle.dumps(outs[r], protocol=4)
                            pending[r] = None
                            chans[r].send(("res", enc[k]))
                    except Exception as e:
                        for r in range(size):
                            if pending[r] is not None:
                                pending[r] = None
                                chans[r].send(("err", f"{name}: {e!r}"))
                    continue
                res.deadlock = True
                res.mismatch = why
                for r in alive:
                    res.kind[r] = "stuck"
                    res.name[r] = pending[r][0]
                break

            left = timeout - (time.time() - t0)
            if left <= 0:
                res.timeout = True
                break
            rfds = {chans[r].rfd: r for r in running}
            ready, _, _ = select.select(list(rfds), [], [], left)
            for fd in ready:
                r = rfds[fd]
                try:
                    msg = chans[r].recv()
                except EOFError:
                    done[r] = True
                    res.kind[r] = "died"
                    continue
                if msg[0] == "coll":
                    _, name, root, op, pl = msg
                    pending[r] = (name, root, op, pl)
                    res.log[r].append(name if root < 0 else f"{name}@{root}")
                elif msg[0] == "abort":
                    aborted = True
                    done[r] = True
                    res.kind[r] = "abort"
                elif msg[0] == "done":
                    done[r] = True
                    res.kind[r], res.name[r], res.value[r] = msg[1:]
            if aborted:
                for r in range(size):
                    if not done[r]:
                        res.kind[r] = "abort"
                break
    finally:
        for r in range(size):
            if res.kind[r] is None:
                res.kind[r] = "stuck"
            try:
                os.kill(pids[r], signal.SIGKILL)
            except ProcessLookupError:
                pass
        for r in range(size):
            try:
                os.waitpid(pids[r], 0)
            except ChildProcessError:
                pass
            os.close(chans[r].rfd)
            os.close(chans[r].wfd)
    return res


def isolated(fn, *args, timeout=300., quiet=True):
    """Run fn(*args) in a forked child (fresh class-level state).  Returns
    (kind, name, value)."""
    res = run(lambda comm, rank, size: fn(*args), 1, timeout, quiet)
    return res.kind[0], res.name[0], res.value[0]
