"""Stand-in for mpi4py.MPI used by the checks.

``COMM_WORLD`` forwards to the communicator of the simulated rank this process
plays (see /verif/harness/simmpi.py); outside a simulated run it is a
single-rank communicator.
"""
import sys


class _Op:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __call__(self, a, b):
        return self.fn(a, b)


def _np():
    import numpy
    return numpy


SUM = _Op("SUM", lambda a, b: a + b)
PROD = _Op("PROD", lambda a, b: a * b)
MAX = _Op("MAX", lambda a, b: _np().maximum(a, b)
          if isinstance(a, _np().ndarray) else (a if a >= b else b))
MIN = _Op("MIN", lambda a, b: _np().minimum(a, b)
          if isinstance(a, _np().ndarray) else (a if a <= b else b))
LAND = _Op("LAND", lambda a, b: _np().logical_and(a, b)
           if isinstance(a, _np().ndarray) else (a and b))
LOR = _Op("LOR", lambda a, b: _np().logical_or(a, b)
          if isinstance(a, _np().ndarray) else (a or b))


class _InPlace:
    def __repr__(self):
        return "IN_PLACE"


IN_PLACE = _InPlace()


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)

    class _Tok(str):
        pass
    return _Tok(name)          # datatypes: DOUBLE, INT, ...


class Exception(Exception):
    pass


class _World:
    def __getattr__(self, name):
        import simmpi
        return getattr(simmpi.current(), name)


class Comm:
    pass


Intracomm = Comm
COMM_WORLD = COMM_SELF = _World()
sys.modules[__name__].ERRORS_RETURN = 0


def Wtime():
    import time
    return time.time()
