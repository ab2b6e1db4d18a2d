"""Stand-in for numba (not installable in this sandbox).

``njit`` only compiles; it does not change what the decorated function
computes, so the undecorated Python function is the function under test.
"""


def njit(*args, **kwargs):
    if len(args) == 1 and callable(args[0]) and not kwargs:
        return args[0]
    return lambda fn: fn


jit = njit
vectorize = guvectorize = njit
prange = range


def __getattr__(name):            # float64, int64, ... used as signatures
    class _Sig:
        def __call__(self, *a, **k):
            return self

        def __getitem__(self, k):
            return self
    return _Sig()
