"""C31 secant solver."""
import mpmath

from .common import *
from .c29 import cut

y, x, tol, p, q, w = (sym(k) for k in ("y", "x", "tol", "p", "q", "w"))
NAME = SOLVER


def python(c, f):
    return lambda i, args, kw, node: f(scal(c, args[0]))


def affine(c):
    """an affine function is solved exactly, wherever the search starts"""
    where = c.where_of(c.get(NAME))
    for sx in (1, -1):
        for sp in (1, -1):
            c.i.peel = 5
            d = dom(xx=("0.0001", 50, "log", "1e-9", "1e6"), y=(-20, 20, "lin", "-1e5", "1e5"), pp=("0.02", 50, "log", "1e-5", "1e5"), q=(-5, 5), tol=("1e-9", "1e-2", "log"))
            d.direct = False
            d.define("x", num(sx) * sym("xx"))
            d.define("p", num(sp) * sym("pp"))
            for lab, args, extra in (("", (tol,), None), (", default tolerance", (), None)):
                n0 = len(c.i.events)
                v = scal(c, c.call(NAME, python(c, lambda t: p * t + q), y, x, *args))
                dd = d.copy()
                cut(c, dd, n0)
                c.pending = []
                c.identity("affine function, slope %+d, start %+d%s" % (sp, sx, lab), v, (y - q) / p, dd, where=where, n=24,
                           rule="the secant of an affine function is the function", scale=tm.fnum(1e-6) * (absv(y / p) + absv(q / p)))


def from_zero(c):
    where = c.where_of(c.get(NAME))
    c.i.peel = 5
    d = dom(y=(-20, 20, "lin", "-1e5", "1e5"), p=("0.02", 50, "log", "1e-5", "1e5"), q=(-5, 5), tol=("1e-6", "1e-2", "log"))
    d.direct = False
    n0 = len(c.i.events)
    v = scal(c, c.call(NAME, python(c, lambda t: p * t + q), y, num(0), tol))
    cut(c, d, n0)
    c.pending = []
    c.identity("affine function, start at zero", v, (y - q) / p, d, where=where, n=24, scale=tm.fnum(1e-6) * (absv(y / p) + absv(q / p)))


def smooth(c):
    """the result is within the tolerance of the solution"""
    where = c.where_of(c.get(NAME))
    for lab, f, fn_, rng in (("increasing", "F", lambda t, w: t + mpmath.sin(w * t) / (3 * w), ("0.3", 6)),
                             ("decreasing", "G", lambda t, w: -t * (3 + mpmath.cos(w)) + mpmath.exp(-t * w), ("0.3", 6)),
                             ("odd", "K", lambda t, w: t + mpmath.sin(w * t) / (3 * w), ("-6", "-0.3")),
                             ("power", "H", lambda t, w: mpmath.mpf(t) ** 3 / (10 * w) + t, ("0.3", 6))):
        c.i.peel = 8 if c.thorough else 6
        d = dom(xr=rng, k=("0.4", "2.2"), w=("0.3", 3), tol=("1e-6", "1e-2", "log"))
        d.define("x", sym("k") * sym("xr"))
        d.define("y", tm.app(f, sym("xr"), w))
        d.funcs[f] = fn_
        for how, args in (("", (tol,)), (", default tolerance", ())):
            n0 = len(c.i.events)
            v = scal(c, c.call(NAME, python(c, lambda t: tm.app(f, t, w)), y, x, *args))
            dd = d.copy()
            dd.direct = False
            cut(c, dd, n0)
            c.pending = []
            t = tol if args else num(Fraction(1, 100000))
            c.condition("%s function%s: distance to the solution" % (lab, how), le(absv(v - sym("xr")), tm.maximum(t, t * absv(v))), dd, where=where, n=60,
                        rule="|x - root| <= max(tol, tol |x|) when the iteration ends")


def arrays(c):
    """each entry is solved on its own"""
    import numpy as np
    i = c.i
    i.peel = 4
    where = c.where_of(c.get(NAME))
    d = dom(y0=(-3, 3), y1=(-3, 3), x0=(1, 3), x1=(1, 3), p=("0.5", 2), q=(-1, 1))
    vec = lambda *a: i.np.new_nd(i, np.array(a, dtype=object))
    f = python(c, lambda t: p * t + q)
    for lab, args, want in (("targets", (vec(sym("y0"), sym("y1")), sym("x0")), ("y0", "y1")), ("starts", (sym("y0"), vec(sym("x0"), sym("x1"))), ("y0", "y0")),
                            ("targets and starts", (vec(sym("y0"), sym("y1")), vec(sym("x0"), sym("x1"))), ("y0", "y1"))):
        n0 = len(i.events)
        v = c.call(NAME, f, *args)
        items = i.np.iterate(i, v, None)[1]
        dd = d.copy()
        cut(c, dd, n0)
        c.pending = []
        for k, s in enumerate(want):
            c.identity("array of %s: entry %d" % (lab, k), scal(c, items[k]), (sym(s) - q) / p, dd, where=where, n=12, scale=tm.fnum(1e-6))


def run(c):
    for s in (affine, from_zero, smooth, arrays):
        c.section(s)
    c.assumptions.append("Iterations that end after at most %d steps" % (8 if c.thorough else 6))
