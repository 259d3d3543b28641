"""C36 inflow problem."""
from .common import *

US = "aerokit.aero.unsteady1D.unsteady_state"
IP = "aerokit.instance.unsteady_inflow.inflow_pb"


def problem(c, before=None, weak=False):
    from .c15 import wave
    rR, uR, pR, ps = (sym(k) for k in ("rhoR", "uR", "pR", "ps"))
    d = gdom(rhoR=("0.5", "3", "log", "1e-3", "1e3"), uR=(0, 150, "lin", -2000, 2000), pR=("5e4", "3e5", "log", "10", "1e8"), ps=("4e4", "5e5", "log", "10", "1e8"), rtt=("1.2e5", "3e5", "log", "1e3", "1e8"))
    if weak:
        d.add("eps", ("1e-4", "0.05", "log")).add("sgn", [-1, 1])
        d.ranges.pop("ps")
        d.define("ps", pR * (1 + sym("sgn") * sym("eps")))
    w = wave(rR, pR, g, ps)
    us = uR + w[0]
    rtt = sym("rtt")
    cp = g / (g - 1)
    d.require(gt(us, num(1)))
    d.require(lt(us ** 2, cp * rtt))
    d.define("pt0", ps * (1 + us ** 2 / 2 / (cp * rtt - us ** 2 / 2)) ** cp)
    d.root(ps)
    st = c.call(US, rR, uR, pR, g)
    pb = c.call(IP, st)
    if before is not None:  # another problem solved with the same object first
        ps1 = sym("ps1")
        d.add("ps1", ("4e4", "5e5", "log", "10", "1e8"))
        u1 = uR + wave(rR, pR, g, ps1)[0]
        d.require(gt(u1, num(1)))
        d.require(lt(u1 ** 2, cp * rtt))
        d.define("pt1", ps1 * (1 + u1 ** 2 / 2 / (cp * rtt - u1 ** 2 / 2)) ** cp)
        d.root(ps1)
        c.call(c.i.getattr(pb, "solve_with_pt0_rtt0", None), sym("pt1"), rtt)
        before(pb)
    c.call(c.i.getattr(pb, "solve_with_pt0_rtt0", None), sym("pt0"), rtt)
    q = dict(rR=rR, uR=uR, pR=pR, ps=ps, us=us, rs=w[1], st=st, rtt=rtt, pt0=sym("pt0"))
    return pb, d, q


def balance(c):
    i = c.i
    pb, d, q = problem(c)
    c.identity("inflow pressure", meth(c, pb, "pstar"), q["ps"], d, rule="total pressure of the inflow is the one prescribed")
    c.identity("inflow velocity", meth(c, pb, "ustar"), q["us"], d, rule="u* on the wave curve of the initial state")
    L, R = (c.call(i.getattr(pb, "qstar" + k, None)) for k in "LR")
    c.identity("density behind the wave", attr(c, R, "rho"), q["rs"], d, rule="Hugoniot or isentropic curve")
    for k in ("u", "p"):
        c.identity("%s continuous at the contact" % k, attr(c, L, k), attr(c, R, k), d, rule="contact surface")
    c.identity("inflow total pressure", meth(c, L, "Ptot"), q["pt0"], d, rule="prescribed total state")
    c.identity("inflow total temperature", meth(c, L, "rTtot"), q["rtt"], d, rule="prescribed total state")
    for k, w in (("rho", q["rR"]), ("u", q["uR"]), ("p", q["pR"])):
        c.identity("initial state unchanged: %s" % k, attr(c, q["st"], k), w, d)
    for s in i.solves:
        c.condition("starting pressure is positive", gt(s.guess, num(0)), d)


def again(c):
    """a second solution does not depend on the first one"""
    i = c.i
    kept = []

    def hold(pb):
        kept.extend(c.call(i.getattr(pb, "qstar" + k, None)) for k in "LR")
    pb, d, q = problem(c, hold)
    c.identity("second solution: pressure", meth(c, pb, "pstar"), q["ps"], d, rule="no trace of the first solution")
    c.identity("second solution: velocity", meth(c, pb, "ustar"), q["us"], d, rule="no trace of the first solution")
    L, R = (c.call(i.getattr(pb, "qstar" + k, None)) for k in "LR")
    c.identity("second solution: density behind the wave", attr(c, R, "rho"), q["rs"], d, rule="no trace of the first solution")
    c.identity("second solution: inflow total pressure", meth(c, L, "Ptot"), q["pt0"], d, rule="no trace of the first solution")
    c.identity("second solution: inflow total temperature", meth(c, L, "rTtot"), q["rtt"], d, rule="no trace of the first solution")
    for k, o in zip("LR", kept):
        c.identity("first solution is left as it was: %s" % k, attr(c, o, "p"), sym("ps1"), d, rule="a returned state is not written over")


def weak(c):
    """a wave of a few thousandths or percents"""
    i = c.i
    pb, d, q = problem(c, weak=True)
    c.identity("weak wave: inflow pressure", meth(c, pb, "pstar"), q["ps"], d, rule="total pressure of the inflow is the one prescribed")
    c.identity("weak wave: inflow velocity", meth(c, pb, "ustar"), q["us"], d, rule="u* on the wave curve of the initial state", scale=num(Fraction(1, 10 ** 3)))
    L, R = (c.call(i.getattr(pb, "qstar" + k, None)) for k in "LR")
    c.identity("weak wave: density behind the wave", attr(c, R, "rho"), q["rs"], d, rule="Hugoniot or isentropic curve")
    c.identity("weak wave: inflow total pressure", meth(c, L, "Ptot"), q["pt0"], d, rule="prescribed total state")


def run(c):
    c.section(balance)
    c.section(weak)
    c.section(again)
