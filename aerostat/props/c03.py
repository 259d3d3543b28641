"""C03 a state keeps its gas."""
from .common import *

ST = "aerokit.aero.model1D.state"
US = "aerokit.aero.unsteady1D.unsteady_state"
RO, U, P = sym("rho"), sym("u"), sym("p")


def sdom(**kw):
    return gdom(rho=("0.1", "8", "log", "1e-6", "1e4"), u=(-300, 900, "lin", -9000, 9000), p=("1e4", "1e6", "log", "1e-3", "1e10"), **kw)


def gas_of(c, st):
    """gamma as the state's own sound speed shows it: a^2 rho / p"""
    a = scal(c, c.call(c.i.getattr(st, "asound", None)))
    return a ** 2 * attr(c, st, "rho") / attr(c, st, "p")


def make(c, cls, *a, **k):
    return c.call(cls, *a, **k)


def check(c, name, st, d, want=g):
    where = c.last_where
    c.identity("%s: gas kept" % name, gas_of(c, st), want, d, where=where, rule="a^2.rho/p of the result is the gamma of the source")


def operations(c):
    c.i.taint_defaults = True
    for cls in (ST, US):
        tag = cls.split(".")[-1]
        d = sdom(m=("1.1", "4", "log", "1.001", "1e3"), pt=("1e5", "1e6", "log", "1e-3", "1e10"), rtt=("5e4", "3e5", "log", "1e3", "1e9"), q=("0.2", "0.9", "log", "1e-5", "0.9999"), us=(1500, 3000))
        new = lambda: make(c, cls, RO, U, P, g)
        call = lambda o, k, *a: c.call(c.i.getattr(o, k, None), *a)
        check(c, "%s(...)" % tag, new(), d)
        check(c, "%s(..., gamma=)" % tag, make(c, cls, rho=RO, u=U, p=P, gamma=g), d)
        dm = d.copy()
        dm.define("u", sym("m") * sqrt(g * P / RO))
        check(c, "%s.copy" % tag, call(new(), "copy"), d)
        check(c, "%s.state_RH" % tag, call(new(), "state_RH"), dm)
        check(c, "%s.state_isentropic_Mach" % tag, call(new(), "state_isentropic_Mach", sym("q")), d)
        pt_, rt = sym("pt"), sym("rtt")
        s = new()
        call(s, "compute_from_pt_rtt_M", pt_, rt, sym("q"))
        check(c, "%s.compute_from_pt_rtt_M" % tag, s, d)
        s = new()
        call(s, "compute_from_pt_rtt_u", pt_, rt, sym("q") * 200)
        check(c, "%s.compute_from_pt_rtt_u" % tag, s, d)
        s = new()
        call(s, "compute_from_pt_rtt_p", pt_, rt, sym("q") * pt_)
        check(c, "%s.compute_from_pt_rtt_p" % tag, s, d)
        if cls == US:
            check(c, "%s.copysymmetric" % tag, call(new(), "copysymmetric"), d)
            check(c, "%s across a moving shock" % tag, call(new(), "_rankinehugoniot_from_ushock", sym("us")), d)


def methods(c):
    """no method of a state object reads the default gas"""
    c.i.taint_defaults = True
    BAD = ["dflt:*", "hist:aerokit.common.defaultgas.*"]
    d = sdom(q=("1e3", "1e5"))
    for cls in (ST, US):
        tag = cls.split(".")[-1]
        names = ["asound", "left_acoustic", "right_acoustic", "Mach", "massflow", "Ptot", "rTtot"]
        for k in names:
            s = make(c, cls, RO, U, P, g)
            c.independent("%s.%s reads no default gas" % (tag, k), meth(c, s, k), BAD, d, rule="no dependence on default-gas symbols")
    for k in ("delta_u_expansion", "delta_u_shock", "rho_through_shock", "rho_through_isentropic"):
        s = make(c, US, RO, U, P, g)
        c.independent("unsteady_state.%s reads no default gas" % k, meth(c, s, k, sym("q")), BAD, d,
                      rule="no dependence on default-gas symbols")


def arrays(c):
    i = c.i
    n = sym("n")
    mk = lambda k: i.np.new_arr(i, tm.app(k, tm.IDX), n)
    d = dom(n=(1, 5, "int"), k=(0, 4, "int"))
    d.require(lt(sym("k"), n))
    for k, r_ in (("RHO", ("0.5", "2")), ("UU", (-100, 300)), ("PP", ("1e5", "3e5")), ("GG", GAM)):
        d.appranges[k] = r_
    kk = sym("k")
    at = lambda name: tm.app(name, kk)
    s = make(c, ST, mk("RHO"), mk("UU"), mk("PP"), mk("GG"))
    e = c.call(i.getattr(s, "__getitem__", None), kk)
    check(c, "element of an array state, gamma per element", e, d, at("GG"))
    s = make(c, ST, mk("RHO"), mk("UU"), mk("PP"), g)
    d.add("gamma", GAM)
    e = c.call(i.getattr(s, "__getitem__", None), kk)
    check(c, "element of an array state, one gamma", e, d, g)
    for nm, sy in (("rho", "RHO"), ("u", "UU"), ("p", "PP")):
        c.identity("element of an array state: %s" % nm, attr(c, e, nm), at(sy), d, rule="same entry of every field")


def array_states(c):
    """the operations on states of arrays, gamma per entry"""
    i = c.i
    c.i.taint_defaults = True
    n = sym("n")
    el = lambda nm: tm.app(nm, tm.IDX)
    mk = lambda nm: i.np.new_arr(i, el(nm), n)
    one_ = lambda v: c.i.np.elem_of(c.i, v) if isinstance(v, Ref) else scal(c, v)

    def gas(st):
        a = one_(c.call(i.getattr(st, "asound", None)))
        return a ** 2 * one_(i.getattr(st, "rho", None)) / one_(i.getattr(st, "p", None))
    for cls in (ST, US):
        tag = cls.split(".")[-1]
        d = dom(n=(1, 6, "int"), q=("0.2", "0.9"), **{"@i": (0, 5, "int")})
        d.require(lt(tm.IDX, n))
        d.appranges.update(RHO=("0.1", "8"), UU=(-300, 900), PP=("1e4", "1e6"), GG=GAM, PT=("1e5", "1e6"), RT=("5e4", "3e5"), MM=("1.1", "4"))
        a_ = sqrt(el("GG") * el("PP") / el("RHO"))
        call = lambda o, k, *a: c.call(c.i.getattr(o, k, None), *a)
        new = lambda u=None: make(c, cls, mk("RHO"), mk("UU") if u is None else u, mk("PP"), mk("GG"))
        fast = lambda: new(i.np.new_arr(i, el("MM") * a_, n))

        def filled(k, last):
            s = new()
            call(s, k, mk("PT"), mk("RT"), last)
            return s
        ops = [("(...)", new), (".copy", lambda: call(new(), "copy")),
               (".state_isentropic_Mach", lambda: call(new(), "state_isentropic_Mach", sym("q"))),
               (".state_RH", lambda: call(fast(), "state_RH")),
               (".compute_from_pt_rtt_M", lambda: filled("compute_from_pt_rtt_M", sym("q"))),
               (".compute_from_pt_rtt_u", lambda: filled("compute_from_pt_rtt_u", sym("q") * 200)),
               (".compute_from_pt_rtt_p", lambda: filled("compute_from_pt_rtt_p", sym("q") * num("1e4")))]
        if cls == US:
            ops.append((".copysymmetric", lambda: call(new(), "copysymmetric")))
        for nm, f in ops:
            st = f()
            c.pending = []
            c.identity("%s%s of arrays: gas kept" % (tag, nm), gas(st), el("GG"), d, where=c.last_where, rule="a^2.rho/p of entry i is gamma of entry i")


def default(c):
    """no gas given: the default gas, for every class alike"""
    vals = []
    for cls in (ST, US):
        s = make(c, cls, RO, U, P)
        vals.append(gas_of(c, s))
    c.identity("default gas of both state classes", vals[0], vals[1], sdom())


def riemann(c):
    i = c.i
    from .c15 import problem
    c.i.taint_defaults = True
    pb, d, q = problem(c)
    for side, gam in (("L", q["gL"]), ("R", q["gR"])):
        st = c.call(i.getattr(pb, "qstar" + side, None))
        check(c, "star state %s of a Riemann problem" % side, st, d, gam)
    xs = i.np.new_arr(i, tm.app("xot", tm.IDX), sym("n"))
    sol = c.call(i.getattr(pb, "qsol", None), xs)
    d.add("@i", (0, 4, "int"))
    d.add("n", (1, 9, "int")).require(lt(tm.IDX, sym("n")))
    d.appranges["xot"] = (-1200, 1200)
    x = tm.app("xot", tm.IDX)
    c.identity("sampled state: gas of its side of the contact", gas_of(c, sol), ite(lt(x, q["us"]), q["gL"], q["gR"]), d,
               rule="gamma changes at the contact only")


def inflow(c):
    i = c.i
    c.i.taint_defaults = True
    from .c36 import problem
    pb, d, q = problem(c)
    for side in ("L", "R"):
        st = c.call(i.getattr(pb, "qstar" + side, None))
        check(c, "star state %s of an inflow problem" % side, st, d, g)


def run(c):
    for s in (operations, methods, arrays, array_states, default, riemann, inflow):
        c.section(s)
