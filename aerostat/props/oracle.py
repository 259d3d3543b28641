"""Inverses of the textbook relations, as numbers (for the specification side)."""
import mpmath
from mpmath import mpf

from ..identity import zero_in

_cache = {}


def _solve(f, lo, hi):
    return zero_in(f, lo, hi)


def _memo(name, f):
    def h(*a):
        k = (name,) + a
        if k not in _cache:
            if len(_cache) > 20000:
                _cache.clear()
            _cache[k] = f(*a)
        return _cache[k]
    return h


def _sigma(m, g):
    return (2 / (g + 1) * (1 + (g - 1) / 2 * m * m)) ** ((g + 1) / (2 * (g - 1))) / m


def _msub(s, g):
    if abs(s - 1) < mpf(10) ** -20:
        return mpf(1)
    return None if s < 1 else _solve(lambda m: mpmath.log(_sigma(m, g) / s), mpf("1e-7"), mpf(1))


def _msup(s, g):
    if abs(s - 1) < mpf(10) ** -20:
        return mpf(1)
    return None if s < 1 else _solve(lambda m: mpmath.log(_sigma(m, g) / s), mpf(1), mpf(400))


def _ptr(m, g):
    p = 1 + 2 * g / (g + 1) * (m * m - 1)
    r = (g + 1) * m * m / (2 + (g - 1) * m * m)
    return r ** (g / (g - 1)) * p ** (-1 / (g - 1))


def _mnpt(x, g):
    return None if x >= 1 else _solve(lambda m: mpmath.log(_ptr(m, g) / x), mpf("1.0000000001"), mpf(200))


FUNCS = {"msub": _memo("msub", _msub), "msup": _memo("msup", _msup), "mnpt": _memo("mnpt", _mnpt)}
