"""Fixed-point encoding of floating point results for TLC (32-bit ints)."""
import numpy as np

NAN, PINF, NINF, OVER = 1999999001, 1999999002, -1999999002, 1999999003


def fx1(x, s):
    x = float(x)
    if x != x:
        return NAN
    if x in (float("inf"), float("-inf")):
        return PINF if x > 0 else NINF
    r = x * s
    if abs(r) > 1.9e9:
        return OVER if r > 0 else -OVER
    return int(np.rint(r))


kept = None      # arrays encoded and what they held, when asked for


def keep(*arrays):
    """Results that later calls must not change."""
    if kept is not None:
        kept.extend((a, a.copy()) for a in arrays
                    if isinstance(a, np.ndarray) and a.ndim)


def fx(a, s=1):
    """Nested lists of round(a*s)."""
    global kept
    keep(a)
    outer, kept = kept, None
    try:
        return _fx(a, s)
    finally:
        kept = outer


def _fx(a, s):
    a = np.asarray(a)
    if a.dtype.kind == "c":
        if a.ndim == 0:
            return [fx1(a.real, s), fx1(a.imag, s)]
        return [_fx(x, s) for x in a]
    if a.ndim == 0:
        return fx1(a, s)
    return [_fx(x, s) for x in a]


def npdt(name):
    return np.dtype(name)


def snapshot(arrays):
    return [None if a is None else np.array(a, copy=True) for a in arrays]


def same(snap, arrays):
    for s, a in zip(snap, arrays):
        if s is None:
            continue
        if s.dtype != a.dtype or s.shape != a.shape or \
                not np.array_equal(s.view(np.uint8) if s.flags.c_contiguous
                                   and s.ndim else s,
                                   a.copy(order="C").view(np.uint8)
                                   if s.flags.c_contiguous and s.ndim else a):
            return False
    return True


def layout(a, how):
    """Same values in a different memory layout."""
    if a is None or how == "C" or a.ndim == 0:
        return a
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.empty(tuple(2*n for n in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    raise ValueError(how)
