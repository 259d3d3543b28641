"""C13 one-dimensional states."""
from .common import *
from .c03 import ST, US, RO, U, P, sdom

CL = (ST, US)


def thermo(c, st, d, name, want_pt=None, want_rtt=None, want_M=None, want_u=None, want_p=None):
    m = lambda k: meth(c, st, k)
    where = None
    if want_pt is not None:
        c.identity("%s: total pressure" % name, m("Ptot"), want_pt, d)
    if want_rtt is not None:
        c.identity("%s: total temperature" % name, m("rTtot"), want_rtt, d)
    if want_M is not None:
        c.identity("%s: Mach number" % name, m("Mach"), want_M, d)
    if want_u is not None:
        c.identity("%s: velocity" % name, attr(c, st, "u"), want_u, d)
    if want_p is not None:
        c.identity("%s: pressure" % name, attr(c, st, "p"), want_p, d)
    # whatever the route: stored fields are consistent
    a = sqrt(g * attr(c, st, "p") / attr(c, st, "rho"))
    c.identity("%s: fields consistent with the Mach number" % name, m("Mach") * a, attr(c, st, "u"), d)


def arr(c, *ts):
    """the arguments, or arrays of which one entry is looked at"""
    return [c.spread(t) if c.many and isT(t) else t for t in ts]


def constructors(c):
    pt_, rt, q = sym("pt"), sym("rtt"), sym("q")
    for cls in CL:
        t = cls.split(".")[-1]
        d = sdom(pt=("1e5", "1e6", "log", "1e-3", "1e10"), rtt=("5e4", "3e5", "log", "1e3", "1e9"), q=("0.1", "4", "log", "1e-5", "1e3"))
        new = lambda: c.call(cls, *arr(c, RO, U, P), g)
        call = lambda o, k, *a: c.call(c.i.getattr(o, k, None), *arr(c, *a))
        s = new()
        call(s, "compute_from_pt_rtt_M", pt_, rt, q)
        thermo(c, s, d, "%s from Pt, Tt, M" % t, pt_, rt, q)
        s = new()
        call(s, "compute_from_pt_rtt_M", pt_, rt, -q)
        thermo(c, s, d, "%s from Pt, Tt, -M" % t, pt_, rt, -q)
        for sg in (1, -1):
            s = new()
            vel = sg * q / 4 * sqrt(2 * g / (g - 1) * rt) * num(Fraction(9, 10))
            call(s, "compute_from_pt_rtt_u", pt_, rt, vel)
            dq = sdom(pt=("1e5", "1e6", "log", "1e-3", "1e10"), rtt=("5e4", "3e5", "log", "1e3", "1e9"), q=("0.1", "3.6", "log", "1e-5", "4.4"))
            thermo(c, s, dq, "%s from Pt, Tt, u (%+d)" % (t, sg), pt_, rt, None, vel)
        s = new()
        dp = sdom(pt=("1e5", "1e6", "log", "1e-3", "1e10"), rtt=("5e4", "3e5", "log", "1e3", "1e9"), q=("0.02", "0.99", "log", "1e-8", "0.999999"))
        call(s, "compute_from_pt_rtt_p", pt_, rt, q * pt_)
        thermo(c, s, dp, "%s from Pt, Tt, Ps" % t, pt_, rt, None, None, q * pt_)
        c.condition("%s from Pt, Tt, Ps: velocity is not negative" % t, ge(attr(c, s, "u"), num(0)), dp)


def functions(c):
    for cls in CL:
        t = cls.split(".")[-1]
        d = sdom()
        s = c.call(cls, *arr(c, RO, U, P), g)
        a = sqrt(g * P / RO)
        mach = U / a
        m = lambda k: meth(c, s, k)
        for k, want in (("asound", a), ("left_acoustic", U - a), ("right_acoustic", U + a), ("Mach", mach), ("massflow", RO * U),
                        ("Ptot", P * pt(mach)), ("rTtot", P / RO * tt(mach))):
            c.identity("%s.%s" % (t, k), m(k), want, d)


def isentropic(c):
    q = sym("q")
    for cls in CL:
        t = cls.split(".")[-1]
        d = sdom(q=("0.1", "4", "log", "1e-5", "1e3"))
        s = c.call(cls, *arr(c, RO, U, P), g)
        e = c.call(c.i.getattr(s, "state_isentropic_Mach", None), *arr(c, q))
        mach = U / sqrt(g * P / RO)
        thermo(c, e, d, "%s isentropic change" % t, P * pt(mach), P / RO * tt(mach), q)
        c.identity("%s isentropic change: entropy" % t, attr(c, e, "p") / attr(c, e, "rho") ** g, P / RO ** g, d, rule="p/rho^gamma constant")


def copies(c):
    i = c.i
    for cls in CL:
        t = cls.split(".")[-1]
        d = sdom(z=("1", "2"))
        s = c.call(cls, RO, U, P, g)
        e = c.call(i.getattr(s, "copy", None))
        for k, w in (("rho", RO), ("u", U), ("p", P)):
            c.identity("%s.copy: %s" % (t, k), attr(c, e, k), w, d)
        for k in ("rho", "u", "p"):
            i.setattr(e, k, sym("z"), None)
        for k, w in (("rho", RO), ("u", U), ("p", P)):
            c.identity("changing a copy leaves the %s: %s" % (t, k), attr(c, s, k), w, d, rule="copy does not share its fields")
        e = c.call(i.getattr(s, "copy", None))
        c.call(i.getattr(e, "compute_from_pt_rtt_M", None), sym("z"), sym("z"), sym("z"))
        for k, w in (("rho", RO), ("u", U), ("p", P)):
            c.identity("recomputing a copy leaves the %s: %s" % (t, k), attr(c, s, k), w, d, rule="copy does not share its fields")
    s = c.call(US, RO, U, P, g)
    e = c.call(i.getattr(s, "copysymmetric", None))
    for k, w in (("rho", RO), ("u", -U), ("p", P)):
        c.identity("mirror state: %s" % k, attr(c, e, k), w, sdom())
    e2 = c.call(i.getattr(e, "copysymmetric", None))
    for k, w in (("rho", RO), ("u", U), ("p", P)):
        c.identity("mirror of the mirror: %s" % k, attr(c, e2, k), w, sdom())
    cl = lambda o: i.payload(o)["cls"]
    c.fact("copy of an unsteady state is an unsteady state", cl(c.call(i.getattr(s, "copy", None))) is cl(s), "class of the copy")


def unchanged(c):
    """asking a state for something does not change it"""
    i = c.i
    d = sdom(q=("0.1", "4", "log", "1e-5", "1e3"), us=(1500, 3000))
    for cls, names in ((ST, ()), (US, ("delta_u_expansion", "delta_u_shock", "rho_through_shock", "rho_through_isentropic", "copysymmetric"))):
        t = cls.split(".")[-1]
        for k in ("asound", "left_acoustic", "right_acoustic", "Mach", "massflow", "Ptot", "rTtot", "state_RH", "copy",
                  "state_isentropic_Mach") + names:
            s = c.call(cls, RO, U, P, g)
            args = [] if k in ("asound", "left_acoustic", "right_acoustic", "Mach", "massflow", "Ptot", "rTtot", "state_RH", "copy",
                               "copysymmetric") else [sym("q")]
            c.call(i.getattr(s, k, None), *args)
            c.pending = []
            ok = all(attr(c, s, a) is w for a, w in (("rho", RO), ("u", U), ("p", P)))
            if ok:
                c.fact("%s.%s leaves the state" % (t, k), True, "fields hold the value numbers they were given")
            else:
                for a, w in (("rho", RO), ("u", U), ("p", P)):
                    c.identity("%s.%s leaves the state: %s" % (t, k, a), attr(c, s, a), w, d)


def run(c):
    c.sections(constructors, functions, isentropic)
    for s in (copies, unchanged):
        c.section(s)
