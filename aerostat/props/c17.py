"""C17 symmetries of the Riemann problem."""
from .common import *
from .c15 import problem


def sample(c, pb):
    i = c.i
    xs = i.np.new_arr(i, tm.app("xot", tm.IDX), sym("n"))
    return c.call(i.getattr(pb, "qsol", None), xs)


def points(d, q, extra=None):
    x = sym("x")
    d.add("z", ("-0.3", "1.3"))
    d.define("x", q["sL"] + sym("z") * (q["sR"] - q["sL"]))
    for v in (q["sL"], q["tL"], q["us"], q["tR"], q["sR"]):
        d.require(gt(absv(x - v), num(Fraction(1, 10 ** 6))))
    return x


def at(c, sol, k, x):
    return tm.subst(attr(c, sol, k), {tm.app("xot", tm.IDX): x})


def galilean(c):
    w = sym("w")
    a, d, q = problem(c)
    b, _, _ = problem(c, shift=w)
    d.add("w", (-400, 400, "lin", -9000, 9000))
    c.identity("pressure in a moving frame", meth(c, b, "pstar"), meth(c, a, "pstar"), d, rule="Galilean invariance")
    for k in ("ustar", "left_fastest", "right_fastest"):
        c.identity("%s in a moving frame" % k, meth(c, b, k), meth(c, a, k) + w, d, rule="Galilean invariance", scale=num(300))
    d.add("n", (1, 9, "int")).require(lt(tm.IDX, sym("n")))
    d.add("@i", (0, 4, "int"))
    x = points(d, q)
    sa, sb = sample(c, a), sample(c, b)
    for k in ("rho", "u", "p"):
        c.identity("sampled %s in a moving frame" % k, at(c, sb, k, x + w), at(c, sa, k, x) + (w if k == "u" else 0), d,
                   rule="Galilean invariance", scale=num(300) if k == "u" else None, n=192)


def fan(side, eps=("0.9", "0.9999")):
    """an expansion seen from a frame in which it spreads on both sides, or on one"""
    def section(c):
        w = sym("w")
        kind = (side, eps, [-1])
        a, d, q = problem(c, weak=kind)
        b, _, _ = problem(c, shift=w, weak=kind)
        head, tail = (q["sL"], q["tL"]) if side == "L" else (q["tR"], q["sR"])
        d.add("t", ("-0.3", "1.3"))
        d.define("w", -(head + sym("t") * (tail - head)))
        d.add("n", (1, 9, "int")).require(lt(tm.IDX, sym("n")))
        d.add("@i", (0, 4, "int"))
        d.add("z", ("0.01", "0.99"))
        x = sym("x")
        d.define("x", head + sym("z") * (tail - head))
        sa, sb = sample(c, a), sample(c, b)
        for k in ("rho", "u", "p"):
            c.identity("%s in a fan of side %s in a moving frame" % (k, side), at(c, sb, k, x + w), at(c, sa, k, x) + (w if k == "u" else 0), d,
                       rule="Galilean invariance", scale=num(300) if k == "u" else None, n=96)
    section.__name__ = "fan_" + side
    return section


def mirror(c):
    a, d, q = problem(c)
    b, _, _ = problem(c, mirror=True)
    c.identity("mirrored pressure", meth(c, b, "pstar"), meth(c, a, "pstar"), d, rule="mirror symmetry")
    c.identity("mirrored velocity", meth(c, b, "ustar"), -meth(c, a, "ustar"), d, rule="mirror symmetry", scale=num(300))
    c.identity("mirrored left-most wave", meth(c, b, "left_fastest"), -meth(c, a, "right_fastest"), d, rule="mirror symmetry", scale=num(300))
    c.identity("mirrored right-most wave", meth(c, b, "right_fastest"), -meth(c, a, "left_fastest"), d, rule="mirror symmetry", scale=num(300))
    d.add("n", (1, 9, "int")).require(lt(tm.IDX, sym("n")))
    d.add("@i", (0, 4, "int"))
    x = points(d, q)
    sa, sb = sample(c, a), sample(c, b)
    for k in ("rho", "u", "p"):
        sg = -1 if k == "u" else 1
        c.identity("mirrored sampled %s" % k, at(c, sb, k, -x), sg * at(c, sa, k, x), d, rule="mirror symmetry",
                   scale=num(300) if k == "u" else None, n=192)
    for side, other in (("L", "R"), ("R", "L")):
        s1, s2 = c.call(c.i.getattr(b, "qstar" + side, None)), c.call(c.i.getattr(a, "qstar" + other, None))
        c.identity("mirrored star density %s" % side, attr(c, s1, "rho"), attr(c, s2, "rho"), d, rule="mirror symmetry")


def run(c):
    for s in (galilean, fan("L"), fan("R"), fan("L", ("1e-3", "0.9")), fan("R", ("1e-3", "0.9")), mirror):
        c.section(s)
