"""C26 Chebyshev collocation operators."""
import ast

import numpy as np

from .common import *

CC = "aerokit.common.numspectral.ChebCollocation"
a, b = sym("xmin"), sym("xmax")
ONE = num(1)


def D(**kw):
    return dom(xmin=(-3, 1, "lin", -60, 1), xmax=("1.2", 5, "lin", "1.2", 80), **kw)


def nd(c, v):
    """array of terms of a concrete array value"""
    if isinstance(v, Gate):
        p, q = nd(c, v.a), nd(c, v.b)
        out = np.empty(p.shape, dtype=object)
        for k in np.ndindex(*p.shape):
            out[k] = ite(v.c, p[k], q[k])
        return out
    if isinstance(v, Ref) and v.kind == "nd":
        return c.i.np.val_of(c.i, v)
    l = c.i.np.lifted(c.i, v)
    if l is None or l.k != "n":
        raise RuntimeError("not an array of known shape: %r" % (v,))
    return l.v


def new(c, *args, **kw):
    return c.call(CC, *args, **kw)


def mat(c, o, order):
    return nd(c, c.call(c.i.getattr(o, "matder", None), order))


def nodes(c, o):
    return list(nd(c, c.i.getattr(o, "x", None)))


def node_ref(n):
    return [a + (b - a) * (ONE - tm.cos(num(k) * tm.PI / num(n - 1))) / 2 for k in range(n)]


def grid(c):
    for n in range(2, 8 if c.thorough else 6):
        o = new(c, n, a, b)
        where = c.where_of(c.get(CC))
        x = nodes(c, o)
        c.fact("%d points" % n, len(x) == n, "grid has npts points", where=where)
        c.identity("%d points: first is xmin" % n, x[0], a, D(), where=where)
        c.identity("%d points: last is xmax" % n, x[-1], b, D(), where=where)
        for k, (p, q) in enumerate(zip(x, node_ref(n))):
            c.identity("%d points: node %d" % (n, k), p, q, D(), where=where, rule="Chebyshev-Gauss-Lobatto point mapped increasingly on [xmin, xmax]")
        c.fact("%d points: npts" % n, c.i.getattr(o, "npts", None) == n, "npts reported", where=where)
    o = new(c, 4)
    x = nodes(c, o)
    c.identity("default interval starts at -1", x[0], num(-1), D())
    c.identity("default interval ends at 1", x[-1], ONE, D())
    o = new(c, 4, xmin=a)
    c.identity("default upper bound is 1", nodes(c, o)[-1], ONE, D())
    o = new(c, 4, xmax=b)
    c.identity("default lower bound is -1", nodes(c, o)[0], num(-1), D())
    o = new(c, 3, num(0), b)
    c.identity("a zero lower bound is kept", nodes(c, o)[0], num(0), D())
    o = new(c, 3, a, num(0))
    c.identity("a zero upper bound is kept", nodes(c, o)[-1], num(0), dom(xmin=(-3, -1, "lin", -80, "-0.01")))


def dpow(x, p, k):
    """k-th derivative of x**p"""
    f = 1
    for j in range(k):
        f *= p - j
    return num(0) if f == 0 else num(f) * (x ** num(p - k) if p > k else ONE)


def derivatives(c):
    for n in range(2, 8 if c.thorough else 6):
        o = new(c, n, a, b)
        x = nodes(c, o)
        top = min(n - 1, 5 if c.thorough else 4)
        where = c.where_of(c.i.getattr(o, "matder", None))
        for order in range(1, max(top, 1) + 1):
            m = mat(c, o, order)
            c.fact("%d points, order %d: square" % (n, order), m.shape == (n, n), "matrix shape", where=where)
            for row in sorted({0, n // 2, n - 1}) if not c.thorough else range(n):
                for p in range(n):
                    got = sum((m[row, j] * (x[j] ** num(p) if p else ONE) for j in range(n)), num(0))
                    c.identity("%d points, order %d, row %d: derivative of x^%d" % (n, order, row, p), got, dpow(x[row], p, order),
                               D(), where=where, rule="exact on polynomials of degree < n", scale=num(1), n=8)


def full(c):
    """every entry: compositions of the first derivative, and of itself"""
    for n in (3, 4, 5):
        o = new(c, n, a, b)
        where = c.where_of(c.i.getattr(o, "matder", None))
        ms = [mat(c, o, k) for k in (1, 2, 3, 4)]
        for k in range(3):
            prod = np.dot(ms[0], ms[k])
            for r in range(n):
                for s in range(n):
                    c.identity("%d points: D%d = D1.D%d (%d,%d)" % (n, k + 2, k + 1, r, s), ms[k + 1][r, s], prod[r, s], D(), where=where,
                               rule="orders compose", scale=num(1), n=8)


def histories(c):
    """the matrix of an order does not depend on what was asked before"""
    n = 5
    ref = {k: mat(c, new(c, n, a, b), k) for k in (1, 2, 3, 4)}
    where = c.where_of(c.get(CC + ".matder"))
    for seq in ((3, 1), (1, 3), (4, 2, 1), (2, 4, 3), (1, 2, 3, 4), (2, 2), (3, 4, 3)):
        o = new(c, n, a, b)
        held = []
        for k in seq:
            held.append((k, c.call(c.i.getattr(o, "matder", None), k)))
        for j, (k, v) in enumerate(held):
            m = nd(c, v)
            for r in range(n):
                for s in (0, n - 2):
                    c.identity("orders %s: order %d asked at %d is unchanged (%d,%d)" % (seq, k, j, r, s), m[r, s], ref[k][r, s], D(), where=where,
                               rule="independent of earlier and later requests", scale=num(1), n=6)
    # another instance keeps its own operators
    a2, b2 = sym("a2"), sym("b2")
    o, p = new(c, n, a, b), new(c, 4, a2, b2)
    mp = mat(c, p, 2)
    m = mat(c, o, 2)
    d = D(a2=(-2, 0), b2=("1.5", 3))
    for r in range(n):
        c.identity("instances are independent (%d)" % r, m[r, 1], ref[2][r, 1], d, where=where, scale=num(1), n=6)
        if r < 4:
            c.identity("instances are independent, second (%d)" % r, mat(c, p, 2)[r, 1], mp[r, 1], d, where=where, scale=num(1), n=6)
    xs = nodes(c, p)
    c.identity("instances have their own grid", xs[-1], b2, d)


def poly(x, cs):
    return sum((k * (x ** num(p) if p else ONE) for p, k in enumerate(cs)), num(0))


def interpolation(c):
    i = c.i
    for n in (3, 4, 5):
        cs = [sym("c%d" % k) for k in range(n)]
        d = D(s=("-0.1", "1.1"), **{"c%d" % k: (-2, 2) for k in range(n)})
        d.define("xq", a + sym("s") * (b - a))
        xq = sym("xq")
        o = new(c, n, a, b)
        x = nodes(c, o)
        vals = i.np.new_nd(i, np.array([poly(p, cs) for p in x], dtype=object))
        f = i.getattr(o, "extrapol", None)
        c.identity("%d points: interpolant of a polynomial" % n, scal(c, c.call(f, vals, xq)), poly(xq, cs), d, scale=num(1),
                   rule="interpolation is exact on polynomials of degree < n")
        pts = (a, (a + b) / 2, b + (b - a) / 8, b + 3 * (b - a), a - 2 * (b - a), a - 20 * (b - a))
        qs = i.np.new_nd(i, np.array(pts, dtype=object))
        for k, (v, q) in enumerate(zip(nd(c, c.call(f, vals, qs)), pts)):
            c.identity("%d points: interpolant at several points (%d)" % (n, k), v, poly(q, cs), d, scale=num(1))
        fs = [sym("f%d" % k) for k in range(n)]
        d2 = D(**{"f%d" % k: (-2, 2) for k in range(n)})
        vals = i.np.new_nd(i, np.array(fs, dtype=object))
        got = nd(c, c.call(f, vals, i.np.new_nd(i, np.array(x, dtype=object))))
        for k in range(n):
            c.identity("%d points: interpolant passes through the data (%d)" % (n, k), got[k], fs[k], d2, scale=num(1))


def fit(c):
    i = c.i
    for n in (3, 4):
        cs = [sym("c%d" % k) for k in range(n)]
        d = D(**{"c%d" % k: (-2, 2) for k in range(n)})
        o = new(c, n, a, b)
        x = nodes(c, o)
        f = i.getattr(o, "fit_to_gauss", None)
        for m in (n, n + 2, -n - 1):
            w, m = (1, m) if m > 0 else (5, -m)        # samples inside, or around the interval
            pts = [a + (b - a) * num(Fraction(w * (2 * k + 1), 2 * m + 1) - (w - 1) // 2) for k in range(m)]
            got = nd(c, c.call(f, i.np.new_nd(i, np.array(pts, dtype=object)), i.np.new_nd(i, np.array([poly(p, cs) for p in pts], dtype=object))))
            for k in range(n):
                c.identity("%d points: fit of %d samples of a polynomial (%d)" % (n, m, k), got[k], poly(x[k], cs), d, scale=num(1),
                           rule="least squares recovers the polynomial at the collocation points")


def cheb(p, v, order=0):
    """derivative of the Chebyshev polynomial of degree p, by recurrence"""
    rows = [[ONE, v]] + [[num(0), ONE if k == 1 else num(0)] for k in range(1, order + 1)]
    for m in range(1, p):
        new = [2 * v * rows[k][1] - rows[k][0] + (2 * k * rows[k - 1][1] if k else num(0)) for k in range(order + 1)]
        rows = [[r_[1], q] for r_, q in zip(rows, new)]
    return rows[order][1 if p else 0]


def sizes(c, module, usual, top):
    """usual sizes, and those around the whole numbers that the source of the module compares with"""
    out = set(usual)
    for x in ast.walk(c.i.trees[module][1]):
        if isinstance(x, ast.Constant) and type(x.value) is int and 8 <= x.value < top:
            out |= {x.value, x.value + 1, x.value + 2}
    return sorted(out)[:14]


def many(c):
    """larger grids, on the polynomials of highest degree"""
    i = c.i
    s, lo, hi = sym("s"), a, b
    for n in sizes(c, CC.rsplit(".", 1)[0], (9, 16, 33, 65) if c.thorough else (9, 16, 33), 80):
        d = D(s=("-0.01", "1.01"))
        d.define("xq", a + s * (b - a))
        ref = lambda v, p: cheb(p, (2 * v - a - b) / (b - a))
        o = new(c, n, a, b)
        x = nodes(c, o)
        where = c.where_of(c.get(CC))
        c.fact("%d points" % n, len(x) == n, "grid has npts points", where=where)
        for k in sorted({0, 1, n // 3, n // 2, n - 2, n - 1}):
            c.identity("%d points: node %d" % (n, k), x[k], node_ref(n)[k], D(), where=where, rule="Chebyshev-Gauss-Lobatto point", scale=num(1))
        for order in (1, 2, 3) if n > 9 else range(1, n):
            m = mat(c, o, order)
            for p in (order, n // 2, n - 1):
                for row in sorted({0, n // 3, n - 1}):
                    got = sum((m[row, j] * ref(x[j], p) for j in range(n)), num(0))
                    want = cheb(p, (2 * x[row] - lo - hi) / (hi - lo), order) * (2 / (hi - lo)) ** num(order)
                    c.identity("%d points, order %d, row %d: derivative of T%d" % (n, order, row, p), got, want, D(), where=where, rule="exact on polynomials of degree < n", rtol="1e-18", scale=num(1), n=4)
        f = i.getattr(o, "extrapol", None)
        for p in (n // 2, n - 1):
            vals = i.np.new_nd(i, np.array([ref(v, p) for v in x], dtype=object))
            c.identity("%d points: interpolant of T%d" % (n, p), scal(c, c.call(f, vals, sym("xq"))), ref(sym("xq"), p), d, scale=num(1), n=3,
                       rule="interpolation is exact on polynomials of degree < n")


def widths(c):
    """intervals of any width, anywhere"""
    i = c.i
    for n in (4, 7):
        d = dom(xmin=(-100, 100, "lin", -1000, 1000), width=("1e-4", "1e4", "log", "1e-6", "1e6"), s=("-0.01", "1.01"))
        d.define("xmax", a + sym("width"))
        d.define("xq", a + sym("s") * sym("width"))
        ref = lambda v, p, o_=0: cheb(p, (2 * v - a - b) / (b - a), o_)
        o = new(c, n, a, b)
        x = nodes(c, o)
        where = c.where_of(c.get(CC))
        for k, (p, q) in enumerate(zip(x, node_ref(n))):
            c.identity("any width, %d points: node %d" % (n, k), (p - a) / (b - a), (q - a) / (b - a), d, where=where, rule="Chebyshev-Gauss-Lobatto point", scale=num(1), n=24)
        for order in (1, 2, 3):
            m = mat(c, o, order)
            for p in (1, order, n - 1):
                for row in (0, n // 2, n - 1):
                    got = sum((m[row, j] * ref(x[j], p) for j in range(n)), num(0)) * ((b - a) / 2) ** num(order)
                    c.identity("any width, %d points, order %d, row %d: derivative of T%d" % (n, order, row, p), got, ref(x[row], p, order), d, where=where,
                               rule="exact on polynomials of degree < n", scale=num(1), n=32)
        vals = i.np.new_nd(i, np.array([ref(v, n - 1) for v in x], dtype=object))
        c.identity("any width, %d points: interpolant" % n, scal(c, c.call(i.getattr(o, "extrapol", None), vals, sym("xq"))), ref(sym("xq"), n - 1), d, scale=num(1), n=24,
                   rule="interpolation is exact on polynomials of degree < n")


def run(c):
    for s in (grid, derivatives, full, histories, interpolation, fit, many, widths):
        c.section(s)
    c.assumptions.append("All rows for 2 to 5 points (7 in the thorough tier); 9, 16, 33 points and the sizes around the constants of the source on their highest modes; any interval")
