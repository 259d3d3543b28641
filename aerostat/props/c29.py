"""C29 Runge-Kutta integrators."""
import mpmath
import numpy as np

from .common import *
from ..interp import CondItem

OD = "aerokit.common._ode."
x, y, h, e, tol = (sym(k) for k in ("x", "y", "h", "xstop", "tol"))
FR = lambda a, b: num(Fraction(a, b))
# smooth right-hand sides; a high frequency w makes error estimates vary from step to step
w = sym("w")
SMOOTH = {"F": lambda a, b, w: mpmath.sin(w * a + mpmath.mpf("1.7")) * mpmath.cos(2 * b) + b / 2,
          "G": lambda a, b, z, w: mpmath.cos(w * a) * z - b / 3,
          "H": lambda a, b, z, w: mpmath.sin(w * a + b) - z * b}


def F1(a, b):
    return (tm.app("F", a, b[0], w),)


def F2(a, b):
    return (tm.app("G", a, b[0], b[1], w), tm.app("H", a, b[0], b[1], w))


def comps(i, v):
    """components of a state vector"""
    if isinstance(v, Ref) and v.kind == "nd":
        return [t for t in i.payload(v)["val"].reshape(-1)]
    if isinstance(v, Gate):
        return [ite(v.c, a, b) for a, b in zip(comps(i, v.a), comps(i, v.b))]
    return [tm.lift(v)]


def slope(c, f, vector):
    def call(i, args, kw, node):
        a, b = args
        out = f(scal(c, a), comps(i, b))
        if not vector:
            return out[0]
        v = np.empty(len(out), dtype=object)
        v[:] = out
        return i.np.new_nd(i, v)
    return call


def rk4(f, x, y, h):
    k0 = [h * v for v in f(x, y)]
    k1 = [h * v for v in f(x + h / 2, [a + b / 2 for a, b in zip(y, k0)])]
    k2 = [h * v for v in f(x + h / 2, [a + b / 2 for a, b in zip(y, k1)])]
    k3 = [h * v for v in f(x + h, [a + b for a, b in zip(y, k2)])]
    return [(a + 2 * b + 2 * p + q) / 6 for a, b, p, q in zip(k0, k1, k2, k3)]


CK_C = [FR(0, 1), FR(1, 5), FR(3, 10), FR(3, 5), FR(1, 1), FR(7, 8)]
CK_A = [[], [FR(1, 5)], [FR(3, 40), FR(9, 40)], [FR(3, 10), FR(-9, 10), FR(6, 5)],
        [FR(-11, 54), FR(5, 2), FR(-70, 27), FR(35, 27)],
        [FR(1631, 55296), FR(175, 512), FR(575, 13824), FR(44275, 110592), FR(253, 4096)]]
CK_B = [FR(37, 378), FR(0, 1), FR(250, 621), FR(125, 594), FR(0, 1), FR(512, 1771)]
CK_D = [FR(2825, 27648), FR(0, 1), FR(18575, 48384), FR(13525, 55296), FR(277, 14336), FR(1, 4)]


def ck45(f, x, y, h):
    ks = []
    for s in range(6):
        yy = list(y)
        for a, k in zip(CK_A[s], ks):
            yy = [p + a * q for p, q in zip(yy, k)]
        ks.append([h * v for v in f(x + CK_C[s] * h, yy)])
    n_ = len(y)
    dy = [sum((b * k[j] for b, k in zip(CK_B, ks)), num(0)) for j in range(n_)]
    er = [sum(((b - d) * k[j] for b, d, k in zip(CK_B, CK_D, ks)), num(0)) for j in range(n_)]
    return dy, sqrt(sum((q * q for q in er), num(0)) / n_)


def records(c, v):
    """[(present, components)] of a returned history"""
    i = c.i
    if isinstance(v, Gate):
        a, b = records(c, v.a), records(c, v.b)
        out = []
        for k in range(max(len(a), len(b))):
            if k >= len(a):
                out.append((tm.andv(tm.notv(v.c), b[k][0]), b[k][1]))
            elif k >= len(b):
                out.append((tm.andv(v.c, a[k][0]), a[k][1]))
            else:
                out.append((ite(v.c, a[k][0], b[k][0]), [ite(v.c, p, q) for p, q in zip(a[k][1], b[k][1])]))
        return out
    if isinstance(v, Ref) and v.kind == "nd":
        val = i.payload(v)["val"]
        return [(tm.TRUE, list(np.array(row, dtype=object).reshape(-1))) for row in val]
    if isinstance(v, Ref) and v.kind == "obj":
        v = i.payload(v)["attrs"]["fromlist"]
    out = []
    for it in known_items(i, v):
        cond = tm.TRUE
        while isinstance(it, CondItem):
            cond, it = tm.andv(cond, it.c), it.v
        out.append((cond, comps(i, it)))
    return out


def last(recs):
    v = recs[0][1]
    for p, w in recs[1:]:
        v = [ite(p, a, b) for a, b in zip(w, v)]
    return v


def longer(c, n0):
    """condition for more turns than were followed"""
    out = tm.FALSE
    for ev in c.i.events[n0:]:
        if ev.kind == "cutoff":
            out = tm.orv(out, tm.andv(*(list(ev.pc) if isinstance(ev.pc, (list, tuple)) else [ev.pc]), ev.data["cond"]))
    return out


def cut(c, d, n0):
    d.require(tm.notv(longer(c, n0)))


def kept(c, v):
    """made from a list that outlives the call, with what earlier calls left in it"""
    if isinstance(v, Ref) and v.kind == "obj":
        v = c.i.payload(v)["attrs"].get("fromlist")
    return isinstance(v, Ref) and v.kind == "list" and c.i.payload(v).get("opaque") == "history"


def history(c, name, f, y0, vector, step, d, args, where, label=""):
    i = c.i
    n0 = len(i.events)
    X, Y = i.np.iterate(i, c.call(OD + name, slope(c, f, vector), x, y0, e, h, *args), None)[1]
    if any(kept(c, v) for v in (X, Y)):
        c.fact("%s%s: own record" % (name, label), False, "the records of one integration only", where=where, detail="the records of earlier calls come first")
        return
    xs, ys = records(c, X), records(c, Y)
    more = longer(c, n0)
    if more is not tm.FALSE:
        tag = name + label + (" (system)" if len(ys[0][1]) > 1 else "")
        if step.__name__ == "ck45":
            c.condition("%s: stops once at the end" % tag, tm.notv(tm.andv(more, eq(last(xs[:-1])[0], e))), d, where=where, rule="no turn of the loop after the end is reached")
        else:
            short = d.copy()
            short.require(lt(e - x, h * num(Fraction(19, 10))))
            c.condition("%s: two steps are enough for less than two steps" % tag, tm.notv(more), short, where=where, rule="no turn of the loop after the end is reached")
        d.require(tm.notv(more))
    tag = name + label + (" (system)" if len(ys[0][1]) > 1 else "")
    for ev in i.events[n0:]:
        if ev.kind == "cutoff" and ev.data.get("turns") is not None:
            c.fact("%s: number of steps" % tag, ev.data["turns"] >= 10000, "at least 10000 attempted steps before an integration is given up", where=where, detail="%d turns" % ev.data["turns"])
    c.identity("%s: starts at the initial point" % tag, xs[0][1][0], x, d, where=where)
    y0c = comps(i, y0)
    for k, (a, b) in enumerate(zip(ys[0][1], y0c)):
        c.identity("%s: starts from the initial value (%d)" % (tag, k), a, b, d, where=where)
    c.fact("%s: one value per abscissa" % tag, len(xs) == len(ys) and all(p[0] is q[0] for p, q in zip(xs, ys)) or None, "same presence guards", where=where)
    c.identity("%s: ends at the end" % tag, last(xs)[0], e, d, where=where, rule="last abscissa is xStop")
    for k in range(len(xs) - 1):
        here, (xa, ya), (xb, yb) = xs[k + 1][0], (last(xs[:k + 1])[0], last(ys[:k + 1])), (xs[k + 1][1][0], ys[k + 1][1])
        dd = d.copy()
        dd.require(here)
        dx = xb - xa
        dy, er = step(f, xa, ya, dx)
        for j in range(len(ya)):
            c.identity("%s: step %d is a step of the method (%d)" % (tag, k + 1, j), yb[j] - ya[j], dy[j], dd, where=where,
                       rule="increment of the tableau from the previous record", n=24)
        if er is not None:
            c.condition("%s: step %d is within the tolerance" % (tag, k + 1), le(er, tol * (1 + num(Fraction(1, 10 ** 9)))), dd, where=where,
                        rule="embedded error estimate at most tol", n=24)
        c.condition("%s: step %d goes towards the end" % (tag, k + 1), tm.andv(gt(dx * (e - x), num(0)), le(absv(xb - x), absv(e - x) * (1 + num(Fraction(1, 10 ** 12))))),
                    dd, where=where, rule="abscissae monotone inside the range")


def fixed(c):
    for f, y0, vec in ((F1, None, False), (F2, 2, True)):
        c.i.peel = 3
        # any length, or one close to a whole number of steps
        d = dom(x=(-1, 1), y=("0.2", "1"), h=("0.1", "0.8"), w=(1, 4), s=("0.05", "2.9"), m=(1, 2, "int"), r=("1e-9", "0.4", "log"), q=(0, 3, "int"))
        m_, r_, q_ = sym("m"), sym("r"), sym("q")
        d.define("xstop", x + h * ite(eq(q_, num(0)), m_ + r_, ite(eq(q_, num(1)), m_ - r_, sym("s"))))
        d.funcs.update(SMOOTH)
        where = c.where_of(c.get(OD + "RK4"))
        history(c, "RK4", f, y if y0 is None else vec_(c, y0), vec, lambda *a: (rk4(*a), None), d, (), where)


def again(c):
    """an integration is not altered by those made before it"""
    c.i.peel = 2
    where = c.where_of(c.get(OD + "RK4"))
    for f, y0, vec in ((F1, None, False), (F2, 2, True)):
        start = (lambda: y) if y0 is None else (lambda: vec_(c, y0))
        for name, extra in (("RK4", ()), ("RKF45", (tol,))):
            if name == "RKF45" and y0 is None:
                continue
            d = dom(x=(-1, 1), y=("0.2", "1"), h=("0.4", "0.8"), w=(1, 4), s=("1.1", "1.8"), tol=("1e-2", 1, "log"))
            d.define("xstop", x + sym("s") * h)
            d.funcs.update(SMOOTH)
            d.direct = False
            for k in range(3):
                n0 = len(c.i.events)
                X, Y = c.i.np.iterate(c.i, c.call(OD + name, slope(c, f, vec), x, start(), e, h, *extra), None)[1]
                c.pending = []
                if any(kept(c, v) for v in (X, Y)):
                    break
                now = (records(c, X), records(c, Y))
                tag = "%s%s called %d times" % (name, " (system)" if vec else "", k + 1)
                if k == 0:
                    first = now
                    cut(c, d, n0)
                    continue
                ok = all(len(p) == len(q) for p, q in zip(first, now))
                c.fact("%s: records" % tag, ok, "same history as the first time", where=where, detail="%d records, then %d" % (len(first[0]), len(now[0])))
                for p, q in zip(first, now) if ok else ():
                    for j, (a_, b_) in enumerate(zip(p, q)):
                        dd = d.copy()
                        dd.require(a_[0])
                        for m, (u, v) in enumerate(zip(a_[1], b_[1])):
                            c.identity("%s: record %d (%d)" % (tag, j, m), v, u, dd, where=where, rule="same history as the first time", n=12)


def vec_(c, n_, kind="float"):
    v = np.empty(n_, dtype=object)
    v[:] = [y, y * 2, y * 3][:n_]
    return c.i.np.new_nd(c.i, v, kind)


def adaptive(c):
    for f, n_ in ((F1, 1), (F2, 2)):
        for sg in (1, -1):
            c.i.peel = 3 if n_ == 1 and sg > 0 else 2
            d = dom(x=(-1, 1), y=("0.2", "1"), hh=("0.4", "1.6"), s=("0.1", "1.8"), tol=("1e-5", 1, "log"), w=(1, 40, "log"), r=("1e-9", "0.4", "log"), q=(0, 3, "int"))
            d.define("h", sg * sym("hh"))
            d.define("xstop", x + ite(eq(sym("q"), num(0)), 1 + sym("r"), sym("s")) * sg * sym("hh"))
            d.funcs.update(SMOOTH)
            d.direct = False
            d.require(lt(absv(h), absv(e - x)))      # the first step does not pass the end
            where = c.where_of(c.get(OD + "RKF45"))
            history(c, "RKF45", f, vec_(c, n_), True, ck45, d, (tol,), where, "" if sg > 0 else " backwards")


def extent(xs, sg):
    """(start, length) of an attempted step from the abscissae where the slope was asked"""
    lo = hi = xs[0]
    for v in xs[1:]:
        lo, hi = ite(lt(v, lo), v, lo), ite(lt(hi, v), v, hi)
    return (lo if sg > 0 else hi), hi - lo


def retry(c):
    """a rejected step is tried again shorter, so that the integration cannot stay where it is"""
    for sg in (1, -1):
        c.i.peel = 2
        d = dom(x=(-2, 2), y=("0.2", "1"), hh=("0.4", "1.6"), s=("1.05", "4"), tol=("1e-6", "1e-2", "log"), w=(1, 40, "log"))
        d.define("h", sg * sym("hh"))
        d.define("xstop", x + sym("s") * sg * sym("hh"))
        d.funcs.update(SMOOTH)
        d.direct = False
        asked = []
        inner = slope(c, F1, True)

        def f(i, args, kw, node):
            asked.append(scal(c, args[0]))
            return inner(i, args, kw, node)
        where = c.where_of(c.get(OD + "RKF45"))
        tag = "RKF45%s: a rejected step is followed by a shorter one" % ("" if sg > 0 else " backwards")
        c.call(OD + "RKF45", f, x, vec_(c, 1), e, h, tol)
        c.pending = []
        if len(asked) != 12:
            c.add(tag, where, "progress after a rejected step", "undecided", "%d evaluations in two attempts" % len(asked))
            continue
        (a, p), (b, q) = extent(asked[:6], sg), extent(asked[6:], sg)
        c.condition(tag, tm.orv(gt(absv(b - a), p * num(Fraction(1, 10 ** 9))), lt(q, p)), d, where=where, rule="progress after a rejected step", n=60)
        c.condition("RKF45%s: the second attempt stays inside the range" % ("" if sg > 0 else " backwards"),
                    le((b - x) * sg + q, absv(e - x) * (1 + num(Fraction(1, 10 ** 12)))), d, where=where, rule="no slope is asked beyond the end", n=60)


def whole(c):
    """an integration may start from an array of whole numbers"""
    c.i.peel = 2
    for f, n_ in ((F1, 1), (F2, 2)):
        for name, step, extra in (("RK4", lambda *a: (rk4(*a), None), ()), ("RKF45", ck45, (tol,))):
            d = dom(x=(-1, 1), y=(1, 6, "int"), h=("0.4", "1.6"), s=("1.05", "1.8"), tol=("1e-5", 1, "log"), w=(1, 9, "log"))
            d.define("xstop", x + sym("s") * h)
            d.funcs.update(SMOOTH)
            d.direct = False
            history(c, name, f, vec_(c, n_, "int"), True, step, d, extra, c.where_of(c.get(OD + name)), " from whole numbers")


def threshold(c):
    """a first step whose error estimate just exceeds the tolerance is not recorded"""
    for f, n_ in ((F1, 1), (F2, 2)):
        c.i.peel = 2
        d = dom(x=(-1, 1), y=("0.2", "1"), h=("0.4", "1.6"), s=("1.1", "1.8"), w=(1, 40, "log"))
        d.define("xstop", x + sym("s") * h)
        y0 = vec_(c, n_)
        _, er = ck45(f, x, comps(c.i, y0), h)
        d.define("tol", er * num(Fraction(10 ** 8 - 1, 10 ** 8)))
        d.funcs.update(SMOOTH)
        d.direct = False
        where = c.where_of(c.get(OD + "RKF45"))
        X, Y = c.i.np.iterate(c.i, c.call(OD + "RKF45", slope(c, f, True), x, y0, e, h, tol), None)[1]
        c.pending = []
        for k, (here, v) in enumerate(records(c, X)[1:]):
            c.condition("RKF45, %d unknowns: a step above the tolerance is not recorded (%d)" % (n_, k), tm.notv(tm.andv(here, eq(v[0], x + h))), d, where=where,
                        rule="embedded error estimate at most tol", n=12)


def run(c):
    c.section(fixed)
    c.section(adaptive)
    c.section(threshold)
    c.section(retry)
    c.section(again)
    c.section(whole)
    c.assumptions.append("Histories of at most 3 attempted steps, every accept/reject pattern; the initial step does not pass the end of the range")
