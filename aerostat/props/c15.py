"""C15 Riemann problem: star state and wave speeds."""
from .common import *

US = "aerokit.aero.unsteady1D.unsteady_state"
RP = "aerokit.instance.riemann.riemann_pb"


def wave(rho, p, gam, ps):
    """spec: (delta_u, rho*, shock Mach number)"""
    shock = gt(ps, p)
    a = sqrt(gam * p / rho)
    ms = sqrt(1 + (gam + 1) / (2 * gam) * (ps / p - 1))
    du = ite(shock, a * 2 / (gam + 1) * (ms - 1 / ms), 2 * a / (gam - 1) * ((ps / p) ** ((gam - 1) / (2 * gam)) - 1))
    rs = ite(shock, rho * sh_r(ms, gam), rho * (ps / p) ** (1 / gam))
    return du, rs, ms, a, shock


def problem(c, shift=None, mirror=False, one_gas=False, weak=None):
    i = c.i
    rL, pL, uL, rR, pR, ps = (sym(k) for k in ("rhoL", "pL", "uL", "rhoR", "pR", "ps"))
    gL = sym("gL")
    gR = gL if one_gas else sym("gR")
    d = dom(rhoL=("0.02", "50", "log", "1e-5", "1e4"), rhoR=("0.02", "50", "log", "1e-5", "1e4"), pL=("5e3", "1e7", "log", "1", "1e10"), pR=("5e3", "1e7", "log", "1", "1e10"),
            uL=(-300, 300, "lin", -9000, 9000), gL=("1.15", "1.67", "lin", "1.02", "2.5"), ps=("10", "1e8", "log", "1e-3", "1e12"))
    if not one_gas:
        d.add("gR", ("1.15", "1.67", "lin", "1.02", "2.5"))
    if weak:  # a wave of that side of a few thousandths or percents
        side, eps, signs = weak if isinstance(weak, tuple) else (weak, ("1e-4", "0.05", "log"), [-1, 1])
        d.add("eps", eps).add("sgn", signs or [1])
        d.ranges.pop("ps")
        d.define("ps", (pL if side == "L" else pR) * ((1 + sym("sgn") * sym("eps")) if signs else sym("eps")))
    L, R = wave(rL, pL, gL, ps), wave(rR, pR, gR, ps)
    d.define("uR", uL - L[0] - R[0])
    uR = sym("uR")
    d.root(ps)
    us = uL - L[0]
    sL = ite(L[4], uL - L[3] * L[2], uL - L[3])
    tL = ite(L[4], uL - L[3] * L[2], us - sqrt(gL * ps / L[1]))
    sR = ite(R[4], uR + R[3] * R[2], uR + R[3])
    tR = ite(R[4], uR + R[3] * R[2], us + sqrt(gR * ps / R[1]))
    q = dict(rL=rL, uL=uL, pL=pL, gL=gL, rR=rR, uR=uR, pR=pR, gR=gR, ps=ps, us=us, rsL=L[1], rsR=R[1], shL=L[4], shR=R[4],
             sL=sL, tL=tL, sR=sR, tR=tR, aL=L[3], aR=R[3])
    w = shift if shift is not None else num(0)
    if mirror:
        a = c.call(US, rR, -uR, pR, gR)
        b = c.call(US, rL, -uL, pL, gL)
    else:
        a = c.call(US, rL, uL + w, pL, gL)
        b = c.call(US, rR, uR + w, pR, gR)
    pb = c.call(RP, a, b)
    q["qL"], q["qR"] = a, b
    return pb, d, q


def star(c, weak=None):
    i = c.i
    pb, d, q = problem(c, weak=weak)
    if weak:
        side_, eps, signs = weak if isinstance(weak, tuple) else (weak, None, True)
        what = "wave of side %s is weak" % side_ if signs else "pressure falls or rises by %s to %s on side %s" % (eps[0], eps[1], side_)
        for k, s_ in (("left_fastest", "sL"), ("right_fastest", "sR")):
            c.identity("%s when the %s" % (k, what), meth(c, pb, k), q[s_], d, rule="shock speed or head of the expansion", scale=num(Fraction(1, 10 ** 3)))
        for side, r_ in (("L", q["rsL"]), ("R", q["rsR"])):
            st = c.call(i.getattr(pb, "qstar" + side, None))
            c.identity("star density on side %s when the %s" % (side, what), attr(c, st, "rho"), r_, d, rule="Hugoniot or isentropic curve of that side")
            c.identity("star velocity on side %s when the %s" % (side, what), attr(c, st, "u"), q["us"], d, rule="u* on the wave curve", scale=num(Fraction(1, 10 ** 3)))
        return
    m = lambda k: meth(c, pb, k)
    c.identity("star pressure", m("pstar"), q["ps"], d, rule="solves the velocity balance of the two wave curves")
    c.identity("star velocity (left wave)", m("ustar"), q["us"], d, rule="u* on the left wave curve")
    for side, r_, gam in (("L", q["rsL"], q["gL"]), ("R", q["rsR"], q["gR"])):
        st = c.call(i.getattr(pb, "qstar" + side, None))
        c.identity("star pressure on side %s" % side, attr(c, st, "p"), q["ps"], d, rule="pressure continuous at the contact")
        c.identity("star velocity on side %s" % side, attr(c, st, "u"), q["us"], d, rule="velocity continuous at the contact")
        c.identity("star density on side %s" % side, attr(c, st, "rho"), r_, d, rule="Hugoniot or isentropic curve of that side")
    c.identity("left-most wave", m("left_fastest"), q["sL"], d, rule="shock speed or head of the expansion")
    c.identity("right-most wave", m("right_fastest"), q["sR"], d, rule="shock speed or head of the expansion")
    c.condition("waves are ordered", tm.andv(le(m("left_fastest"), m("ustar")), le(m("ustar"), m("right_fastest"))), d)


def rankine_hugoniot(c):
    """fluxes across the left-most and right-most waves when they are shocks"""
    i = c.i
    pb, d, q = problem(c)
    for side, r0, u0, p0, gam, sh, w in (("L", q["rL"], q["uL"], q["pL"], q["gL"], q["shL"], "left_fastest"),
                                         ("R", q["rR"], q["uR"], q["pR"], q["gR"], q["shR"], "right_fastest")):
        st = c.call(i.getattr(pb, "qstar" + side, None))
        v = meth(c, pb, w)
        r1, u1, p1 = (attr(c, st, k) for k in ("rho", "u", "p"))
        dd = d.copy()
        dd.require(sh)
        c.identity("mass across the %s shock" % side, r1 * (u1 - v), r0 * (u0 - v), dd, rule="Rankine-Hugoniot in the shock frame")
        c.identity("momentum across the %s shock" % side, p1 + r1 * (u1 - v) ** 2, p0 + r0 * (u0 - v) ** 2, dd,
                   rule="Rankine-Hugoniot in the shock frame")
        h = lambda rr, p_, uu: gam / (gam - 1) * p_ / rr + (uu - v) ** 2 / 2
        c.identity("total enthalpy across the %s shock" % side, h(r1, p1, u1), h(r0, p0, u0), dd,
                   rule="Rankine-Hugoniot in the shock frame")


def trivial(c):
    """no jump: nothing happens"""
    i = c.i
    ro, u, p = sym("rho"), sym("u"), sym("p")
    d = gdom(rho=("0.2", "5", "log", "1e-4", "1e4"), u=(-300, 300, "lin", -9000, 9000), p=("2e4", "8e5", "log", "1", "1e10")).root(p)
    a, b = c.call(US, ro, u, p, g), c.call(US, ro, u, p, g)
    pb = c.call(RP, a, b)
    c.identity("uniform flow: pressure", meth(c, pb, "pstar"), p, d)
    c.identity("uniform flow: velocity", meth(c, pb, "ustar"), u, d)
    for s in c.i.solves:
        c.identity("uniform flow: starting estimate is the pressure", s.guess, p, d)


def contact(c):
    """a contact alone: the outer waves are the acoustic ones, and nothing else happens"""
    i = c.i
    u, p = sym("u"), sym("p")
    rL, rR, gL, gR = (sym(k) for k in ("rhoL", "rhoR", "gL", "gR"))
    d = dom(rhoL=("0.02", "50", "log", "1e-5", "1e4"), rhoR=("0.02", "50", "log", "1e-5", "1e4"), u=(-300, 300, "lin", -9000, 9000), p=("2e4", "8e5", "log", "1", "1e10"),
            gL=("1.15", "1.67", "lin", "1.02", "2.5"), gR=("1.15", "1.67", "lin", "1.02", "2.5"))
    where = c.where_of(c.get(RP))
    for tag, gam in (("", gR), (", one gas", gL), (", no jump at all", None)):
        right = (rL, gL) if gam is None else (rR, gam)
        pb = c.call(RP, c.call(US, rL, u, p, gL), c.call(US, right[0], u, p, right[1]))
        found = tm.apps("root", tm.lift(meth(c, pb, "pstar")))
        # the pressure found is exactly the given one, as it is for an iteration that starts from it
        at = lambda t: tm.subst(t, {r: p for r in found})
        for s in c.i.solves[-1:]:
            c.identity("contact%s: starting estimate" % tag, s.guess, p, d, where=where, rule="the common pressure solves the problem")
        for side, k, e, r_, gm in (("L", "left_fastest", -1, rL, gL), ("R", "right_fastest", 1) + right):
            st = c.call(i.getattr(pb, "qstar" + side, None))
            c.identity("contact%s: acoustic wave on side %s" % (tag, side), at(meth(c, pb, k)), u + e * sqrt(gm * p / r_), d, where=where, rule="finite speed u -/+ a without a jump of pressure")
            for a, w in (("rho", r_), ("u", u), ("p", p)):
                c.identity("contact%s: star state on side %s: %s" % (tag, side, a), at(attr(c, st, a)), w, d, where=where, rule="state of that side")
    sol = c.call(i.getattr(pb, "qsol", None), i.np.new_arr(i, tm.app("xot", tm.IDX), sym("n")))
    d.add("n", (1, 9, "int")).require(lt(tm.IDX, sym("n")))
    d.add("@i", (0, 4, "int"))
    d.add("z", (-3, 3))
    for a, w in (("rho", rL), ("u", u), ("p", p)):
        v = tm.subst(at(attr(c, sol, a)), {tm.app("xot", tm.IDX): u + sym("z") * sqrt(gL * p / rL)})
        c.identity("no jump at all: solution %s" % a, v, w, d, where=where, rule="uniform state everywhere")


def start(c):
    """the starting pressure is a positive number"""
    pb, d, q = problem(c, one_gas=True)
    d.require(gt(2 * q["aL"] / (q["gL"] - 1) + 2 * q["aR"] / (q["gL"] - 1), q["uR"] - q["uL"]))
    for s in c.i.solves:
        c.condition("starting pressure is positive", gt(s.guess, num(0)), d)


def inputs(c):
    """the given states are not changed, and later changes of them do not reach the problem"""
    i = c.i
    pb, d, q = problem(c)
    for k, o, r_, u, p in (("left", q["qL"], q["rL"], q["uL"], q["pL"]), ("right", q["qR"], q["rR"], q["uR"], q["pR"])):
        for a, w in (("rho", r_), ("u", u), ("p", p)):
            c.identity("%s state unchanged: %s" % (k, a), attr(c, o, a), w, d)
    for o in (q["qL"], q["qR"]):
        for a in ("rho", "u", "p"):
            i.setattr(o, a, sym("later"), None)
    xs = i.np.new_arr(i, tm.app("xot", tm.IDX), sym("n"))
    d.add("later", ("1", "2"))
    d.add("n", (1, 9, "int")).require(lt(tm.IDX, sym("n")))
    d.add("@i", (0, 4, "int"))
    d.add("z", ("0.01", "0.99"))
    z = sym("z")
    sol = c.call(i.getattr(pb, "qsol", None), xs)
    for name, x in (("left", q["sL"] - z * q["aL"]), ("right", q["sR"] + z * q["aR"]), ("middle", q["sL"] + z * (q["sR"] - q["sL"]))):
        for a in ("rho", "u", "p"):
            v = tm.subst(attr(c, sol, a), {tm.app("xot", tm.IDX): x})
            c.independent("later changes of the given states do not reach the %s of the solution: %s" % (name, a), v, ["later"], d)


def near_vacuum(c):
    """expansions on both sides, down to a billionth of the pressures"""
    star(c, weak=("L", ("1e-9", "1e-2", "log"), None))
    star(c, weak=("R", ("1e-9", "1e-2", "log"), None))


def very_strong(c):
    """a shock of a very large pressure ratio on one side"""
    star(c, weak=("L", ("1e3", "1e9", "log"), None))
    star(c, weak=("R", ("1e3", "1e9", "log"), None))


def weak_left(c):
    star(c, "L")


def weak_right(c):
    star(c, "R")


def run(c):
    for s in (star, weak_left, weak_right, near_vacuum, very_strong, rankine_hugoniot, trivial, contact, start, inputs):
        c.section(s)
