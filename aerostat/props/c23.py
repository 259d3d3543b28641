"""C23 angles are in degrees."""
import numpy as _np

from .common import *
from .c25 import elem

D = "aerokit.aero.degree."


def run(c):
    c.section(direct)
    c.section(inverse)
    c.section(quadrant)
    c.section(ends)
    c.section(arrays)


X = sym("x")


def direct(c):
    f = fn(c, D[:-1])
    d = dom(x=(-720, 720))
    for k, t in (("cos", cos), ("sin", sin), ("tan", tan)):
        c.identity("%s of degrees" % k, f(k, X), t(X * DEG), d)
        for v in (0, 30, 45, 60, 180, -30, 270):
            if k == "tan" and v == 270:
                continue
            c.identity("%s of %d degrees" % (k, v), f(k, num(v)), t(num(v) * DEG), d)
    c.identity("cos, sin: unit circle", f("cos", X) ** 2 + f("sin", X) ** 2, num(1), d)


def inverse(c):
    f = fn(c, D[:-1])
    c.identity("acos in degrees", f("acos", X), tm.acos(X) * RAD, dom(x=("-0.999", "0.999")))
    c.identity("asin in degrees", f("asin", X), asin(X) * RAD, dom(x=("-0.999", "0.999")))
    c.identity("atan in degrees", f("atan", X), atan(X) * RAD, dom(x=(-30, 30)))
    c.identity("acos(cos) is the angle", f("acos", f("cos", X)), X, dom(x=(1, 179)))
    c.identity("asin(sin) is the angle", f("asin", f("sin", X)), X, dom(x=(-89, 89)))
    c.identity("atan(tan) is the angle", f("atan", f("tan", X)), X, dom(x=(-89, 89)))


def ends(c):
    """next to the ends of the ranges, and to zero"""
    f = fn(c, D[:-1])
    e, s = sym("e"), sym("s")
    d = dom(e=("1e-9", "1e-3", "log"), s=[-1, 1])
    for k, t in (("acos", tm.acos), ("asin", asin)):
        c.identity("%s next to -1 and 1" % k, f(k, s * (1 - e)), t(s * (1 - e)) * RAD, d)
    for k, t in (("asin", asin), ("atan", atan)):
        c.identity("%s of a small number" % k, f(k, s * e), t(s * e) * RAD, d)
    c.identity("atan of a large number", f("atan", s / e), atan(s / e) * RAD, d)
    c.identity("acos of a small number", f("acos", s * e), tm.acos(s * e) * RAD, d)
    for k, t in (("cos", cos), ("sin", sin), ("tan", tan)):
        for v in (0, 90, 180):
            if k == "tan" and v == 90:
                d2 = dom(e=("1e-4", "1e-1", "log"), s=[-1, 1])
                c.identity("tan next to 90 degrees", f(k, 90 + s * e), t((90 + s * e) * DEG), d2)
            else:
                c.identity("%s next to %d degrees" % (k, v), f(k, v + s * e), t((v + s * e) * DEG), d)
    c.identity("atan2 next to the axes", f("atan2", s * e, num(-1)), tm.atan2(s * e, num(-1)) * RAD if hasattr(tm, "atan2") else s * 180 - atan(s * e) * RAD, d)


def quadrant(c):
    f = fn(c, D[:-1])
    R = sym("R")
    d = dom(x=(-179, 179), R=("0.1", "10"))
    c.identity("atan2 of the sine and the cosine, any quadrant", f("atan2", R * f("sin", X), R * f("cos", X)), X, d)
    for y, x, w in ((0, 1, 0), (1, 0, 90), (-1, 0, -90), (0, -1, 180), (1, -1, 135), (-1, -1, -135)):
        c.identity("atan2(%d, %d)" % (y, x), f("atan2", num(y), num(x)), num(w), d)


def arrays(c):
    i = c.i
    n_ = sym("n")
    for k, *rg in (("cos", (-300, 300)), ("sin", (-300, 300)), ("tan", (-80, 80)), ("acos", ("-0.99", "0.99")), ("asin", ("-0.99", "0.99")), ("atan", (-9, 9)),
                   ("atan2", (-9, 9), (-9, 9))):
        names = ["x", "y"][:len(rg)]
        d = dom(n=(1, 6, "int"), **{"@i": (0, 5, "int")})
        d.require(lt(tm.IDX, n_))
        for q, v in zip(names, rg):
            d.appranges[q] = v
            d.add(q, v)
        for dt, word in (("float", "array"), ("int?", "integer array")):
            for arr in ([names] if len(names) == 1 else [names, names[:1], names[1:]]):
                one = [tm.app(q, tm.IDX) if q in arr else sym(q) for q in names]
                v = c.call(D + k, *[i.np.new_arr(i, o, n_, dtype=dt) if q in arr else o for q, o in zip(names, one)])
                if not isinstance(v, (Ref, Gate)):
                    c.fact("%s of an %s" % (k, word), None, "not represented")
                    continue
                c.pending = []
                w = scal(c, c.call(D + k, *one))
                c.identity("%s of an %s%s, entry by entry" % (k, word, "" if len(arr) == len(names) else " (%s)" % arr[0]), elem(c, v), w, d)
        # two dimensions
        d = Domain()
        cells = []
        for q, v in zip(names, rg):
            a = _np.empty((2, 2), dtype=object)
            for ix in _np.ndindex(2, 2):
                a[ix] = sym("%s_%d_%d" % (q, *ix))
                d.add("%s_%d_%d" % (q, *ix), v)
            cells.append(a)
        v = c.call(D + k, *[i.np.new_nd(i, a) for a in cells])
        c.pending = []
        l = i.np.lifted(i, v)
        if l is None or l.k != "n":
            c.fact("%s of a 2x2 array" % k, None, "not represented")
            continue
        c.fact("%s of a 2x2 array: shape" % k, l.v.shape == (2, 2), "entry by entry")
        for ix in _np.ndindex(2, 2):
            if l.v.shape == (2, 2):
                c.identity("%s of a 2x2 array, entry %s" % (k, list(ix)), l.v[ix], scal(c, c.call(D + k, *[a[ix] for a in cells])), d)
