"""C16 sampling of the Riemann solution."""
from .common import *
from .c15 import problem


def exact(q, x):
    gL, gR = q["gL"], q["gR"]
    uf = (2 / (gL + 1)) * (q["aL"] + (gL - 1) / 2 * q["uL"] + x)
    af = uf - x
    pf = q["pL"] * (af / q["aL"]) ** (2 * gL / (gL - 1))
    rf = q["rL"] * (pf / q["pL"]) ** (1 / gL)
    ug = (2 / (gR + 1)) * (-q["aR"] + (gR - 1) / 2 * q["uR"] + x)
    ag = x - ug
    pg = q["pR"] * (ag / q["aR"]) ** (2 * gR / (gR - 1))
    rg = q["rR"] * (pg / q["pR"]) ** (1 / gR)

    def pick(l, fl, sl, sr, fr, r_):
        return ite(lt(x, q["sL"]), l, ite(lt(x, q["tL"]), fl, ite(lt(x, q["us"]), sl, ite(lt(x, q["tR"]), sr, ite(lt(x, q["sR"]), fr, r_)))))
    return {"rho": pick(q["rL"], rf, q["rsL"], q["rsR"], rg, q["rR"]),
            "u": pick(q["uL"], uf, q["us"], q["us"], ug, q["uR"]),
            "p": pick(q["pL"], pf, q["ps"], q["ps"], pg, q["pR"])}


def weak_left(c):
    field(c, "L")


def weak_right(c):
    field(c, "R")


def near_vacuum(c):
    """fans down to a billionth of the pressure"""
    field(c, ("L", ("1e-9", "1e-2", "log"), None))
    field(c, ("R", ("1e-9", "1e-2", "log"), None))


def field(c, weak=None):
    i = c.i
    pb, d, q = problem(c, weak=weak)
    xs = i.np.new_arr(i, tm.app("xot", tm.IDX), sym("n"))
    d.appranges["xot"] = (-40000, 40000)
    d.add("n", (1, 9, "int")).require(lt(tm.IDX, sym("n")))
    d.add("@i", (0, 4, "int"))
    # sample points spread over the whole fan: x = position of a wave + fraction
    x = sym("x")
    d.add("z", ("-0.6", "1.6"))
    d.add("w", (0, 4, "int"))
    z, w = sym("z"), sym("w")
    ws = [q["sL"], q["tL"], q["us"], q["tR"], q["sR"]]
    a = ws[0] + z * (ws[4] - ws[0])
    for k in range(4):
        a = ite(eq(w, num(k)), ws[k] + z * (ws[k + 1] - ws[k]), a)
    d.define("x", a)
    sol = c.call(i.getattr(pb, "qsol", None), xs)
    # points exactly on a wave are left to either side
    for v in ws:
        d.require(gt(absv(x - v), num(Fraction(1, 10 ** 9))))
    m = {tm.app("xot", tm.IDX): x}
    ex = exact(q, x)
    for k in ("rho", "u", "p"):
        v = tm.subst(attr(c, sol, k), m)
        c.identity("sampled %s%s" % (k, (" when the wave of side %s is weak" % weak if weak in ("L", "R") else " when side %s expands a hundredfold and more" % weak[0]) if weak else ""), v, ex[k], d, rule="self-similar solution, one formula per region",
                   scale=(num(300) if k == "u" else None), n=(800 if weak else 2000) if c.thorough else 160 if weak else 480)


def on_waves(c):
    """a point exactly on a wave takes the value of one of its two sides"""
    i = c.i
    pb, d, q = problem(c)
    xs = i.np.new_arr(i, tm.app("xot", tm.IDX), sym("n"))
    d.add("n", (1, 9, "int")).require(lt(tm.IDX, sym("n")))
    d.add("@i", (0, 4, "int"))
    sol = c.call(i.getattr(pb, "qsol", None), xs)
    from .c15 import problem as _p
    lf, rf, us = meth(c, pb, "left_fastest"), meth(c, pb, "right_fastest"), meth(c, pb, "ustar")
    sides = {"left-most wave": (lf, {"rho": (q["rL"], q["rsL"]), "u": (q["uL"], q["us"]), "p": (q["pL"], q["ps"])}, q["shL"]),
             "right-most wave": (rf, {"rho": (q["rR"], q["rsR"]), "u": (q["uR"], q["us"]), "p": (q["pR"], q["ps"])}, q["shR"]),
             "contact": (us, {"rho": (q["rsL"], q["rsR"]), "u": (q["us"], q["us"]), "p": (q["ps"], q["ps"])}, tm.FALSE)}
    for name, (x, vals, shock) in sides.items():
        for k in ("rho", "u", "p"):
            v = tm.subst(attr(c, sol, k), {tm.app("xot", tm.IDX): x})
            a, b = vals[k]
            tol = num(Fraction(1, 10 ** 8))
            near = lambda w: le(absv(v - w), tol * (absv(w) + (300 if k == "u" else 0)))
            # on a shock either side, on the head of an expansion the undisturbed value
            cond = tm.orv(near(a), near(b)) if name == "contact" else ite(shock, tm.orv(near(a), near(b)), near(a))
            c.condition("%s exactly on the %s" % (k, name), cond, d, rule="value of one of the two sides")


def shape(c):
    """as many samples as points"""
    i = c.i
    pb, d, q = problem(c)
    n = sym("n")
    d.add("n", (1, 9, "int")).require(lt(tm.IDX, sym("n")))
    xs = i.np.new_arr(i, tm.app("xot", tm.IDX), n)
    sol = c.call(i.getattr(pb, "qsol", None), xs)
    for k in ("rho", "u", "p"):
        v = i.getattr(sol, k, None)
        ln = i.np.length_of(i, v)
        c.identity("number of samples: %s" % k, tm.lift(ln) if ln is not None else i.top("no length"), n, d, rule="one sample per point")
    c.fact("the points are not changed", i.payload(xs)["elem"] is tm.app("xot", tm.IDX), "argument array unchanged")


def twice(c):
    """a sampled solution keeps its values when the problem is sampled again, or another one solved"""
    i = c.i
    pb, d, q = problem(c)
    n = sym("n")
    d.add("n", (1, 9, "int")).require(lt(tm.IDX, n))
    d.add("@i", (0, 4, "int"))
    for k in ("xot", "yot"):
        d.appranges[k] = (-2000, 2000)
    arr = lambda k: i.np.new_arr(i, tm.app(k, tm.IDX), n)
    first = c.call(i.getattr(pb, "qsol", None), arr("xot"))
    keys = ("rho", "u", "p", "_gamma")
    before = {k: attr(c, first, k) for k in keys}
    second = c.call(i.getattr(pb, "qsol", None), arr("yot"))
    m = {tm.app("xot", tm.IDX): tm.app("yot", tm.IDX)}
    for k in keys:
        nm = "gas" if k == "_gamma" else k
        for lab, v, w in (("first sampling after a second one: " + nm, attr(c, first, k), before[k]),
                          ("second sampling: " + nm, attr(c, second, k), tm.subst(before[k], m))):
            if v is w:
                c.fact(lab, True, "samplings are independent")
            else:
                c.identity(lab, v, w, d, n=40, rule="samplings are independent")


def run(c):
    for s in (field, weak_left, weak_right, near_vacuum, on_waves, shape, twice):
        c.section(s)
