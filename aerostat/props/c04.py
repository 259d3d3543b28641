"""C04 normal shock: jump conservation, inverses, moving frame."""
from .common import *

SW = "aerokit.aero.ShockWave"


def jumps(c):
    f = fn(c, SW)
    d = gdom(M=("1", "12", "log", "1", "1e4"))
    P, R, Tr, M2, Pt = (f(k, M, g) for k in ("Ps_ratio", "Rho_ratio", "Ts_ratio", "downstream_Mn", "Pt_ratio"))
    c.get(SW + ".Rho_ratio")
    # upstream rho=1, p=1: u1 = M sqrt(g)
    u1 = M * sqrt(g)
    u2 = M2 * sqrt(g * P / R)
    c.identity("mass flux conserved", R * u2, u1, d, rule="rho.u conserved across the jump")
    c.identity("momentum flux conserved", P + R * u2 ** 2, 1 + u1 ** 2, d, rule="p+rho.u^2 conserved across the jump")
    c.identity("total enthalpy conserved", Tr * tt(M2), tt(M), d, rule="Tt conserved across the jump")
    c.identity("equation of state", Tr, P / R, d, rule="p = rho.r.T")
    c.identity("static pressure jump", P, sh_p(M), d)
    c.identity("density jump", R, sh_r(M), d)
    c.identity("total pressure ratio", Pt, P * pt(M2) / pt(M), d, rule="Pt2/Pt1 = Ps2/Ps1 . (Pt/Ps)(M2)/(Pt/Ps)(M1)")
    c.identity("total pressure loss closed form", Pt,
               sh_r(M) ** (g / (g - 1)) * sh_p(M) ** (-1 / (g - 1)), d, rule="Pt2/Pt1 = R^(g/(g-1)).P^(-1/(g-1))")
    d1 = gdom(M=("1.02", "12", "log", "1.0001", "1e4"))
    c.condition("compression", gt(P, num(1)), d1)
    c.condition("entropy rises (total pressure drops)", lt(Pt, num(1)), d1)
    c.condition("downstream flow is subsonic", lt(M2, num(1)), d1)
    one = num(1)
    for k in ("Ps_ratio", "Rho_ratio", "Ts_ratio", "downstream_Mn", "Pt_ratio"):
        c.identity("no jump at Mach 1: %s" % k, f(k, one, g), one, gdom())


def inverses(c):
    roots(c)
    f = fn(c, SW)
    d = gdom(M=("1", "10", "log", "1", "1e4"))
    c.identity("Mn_Ps_ratio(Ps_ratio(M)) = M", f("Mn_Ps_ratio", f("Ps_ratio", M, g), g), M, d)
    x = sym("x")
    c.identity("Ps_ratio(Mn_Ps_ratio(x)) = x", f("Ps_ratio", f("Mn_Ps_ratio", x, g), g), x, gdom(x=("1", "100", "log", "1", "1e9")))
    d = gdom(M=("1.05", "8", "log", "1.001", "50")).root(M)
    n0 = len(c.i.solves)
    v = f("Mn_Pt_ratio", f("Pt_ratio", M, g), g)
    c.identity("Mn_Pt_ratio(Pt_ratio(M)) = M", v, M, d, rule="solved equation has M as its root")
    for s in c.i.solves[n0:]:
        c.condition("Mn_Pt_ratio starts from a supersonic Mach number", gt(s.guess, num(1)), d)


def moving(c):
    """state objects"""
    us, ro, uu, pp, gam = sym("ushock"), sym("rho"), sym("u"), sym("p"), g
    for cls in ("aerokit.aero.unsteady1D.unsteady_state",):
        st = c.call(cls, ro, uu, pp, gam)
        m = c.i.getattr(st, "_rankinehugoniot_from_ushock", None)
        s2 = c.call(m, us)
        r2, u2, p2 = attr(c, s2, "rho"), attr(c, s2, "u"), attr(c, s2, "p")
        for side in (1, -1):
            d = gdom(rho=("0.1", "8", "log", "1e-6", "1e4"), u=(-400, 400, "lin", -9000, 9000), p=("1e3", "1e6", "log", "1e-3", "1e10"), m=("1.01", "6", "log", "1.0001", "1e3"))
            d.define("ushock", uu - side * sym("m") * sqrt(gam * pp / ro))
            tag = "ahead of the shock, side %+d" % side
            c.identity("mass (%s)" % tag, r2 * (u2 - us), ro * (uu - us), d, rule="Rankine-Hugoniot in the shock frame")
            c.identity("momentum (%s)" % tag, p2 + r2 * (u2 - us) ** 2, pp + ro * (uu - us) ** 2, d,
                       rule="Rankine-Hugoniot in the shock frame")
            h = lambda rr, q, w: g / (g - 1) * q / rr + (w - us) ** 2 / 2
            c.identity("total enthalpy (%s)" % tag, h(r2, p2, u2), h(ro, pp, uu), d,
                       rule="Rankine-Hugoniot in the shock frame")
            c.condition("compression (%s)" % tag, gt(p2, pp), d)


def steady(c):
    ro, uu, pp = sym("rho"), sym("u"), sym("p")
    for cls in ("aerokit.aero.model1D.state", "aerokit.aero.unsteady1D.unsteady_state"):
        st = c.call(cls, ro, uu, pp, g)
        s2 = c.call(c.i.getattr(st, "state_RH", None))
        r2, u2, p2 = attr(c, s2, "rho"), attr(c, s2, "u"), attr(c, s2, "p")
        for side in (1, -1):
            d = gdom(rho=("0.1", "8", "log", "1e-6", "1e4"), m=("1.01", "6", "log", "1.0001", "1e3"), p=("1e3", "1e6", "log", "1e-3", "1e10"))
            d.define("u", side * sym("m") * sqrt(g * pp / ro))
            k = "%s, side %+d" % (cls.split(".")[-1], side)
            c.identity("mass (%s)" % k, r2 * u2, ro * uu, d, rule="Rankine-Hugoniot")
            c.identity("momentum (%s)" % k, p2 + r2 * u2 ** 2, pp + ro * uu ** 2, d, rule="Rankine-Hugoniot")
            c.identity("total enthalpy (%s)" % k, g / (g - 1) * p2 / r2 + u2 ** 2 / 2,
                       g / (g - 1) * pp / ro + uu ** 2 / 2, d, rule="Rankine-Hugoniot")
            c.condition("compression (%s)" % k, gt(p2, pp), d)
        back = c.call(c.i.getattr(s2, "state_RH", None))
        for side in (1, -1):
            d = gdom(rho=("0.1", "8", "log", "1e-6", "1e4"), m=("1.01", "6", "log", "1.0001", "1e3"), p=("1e3", "1e6", "log", "1e-3", "1e10"))
            d.define("u", side * sym("m") * sqrt(g * pp / ro))
            for n_, v in (("rho", ro), ("u", uu), ("p", pp)):
                c.identity("from behind to ahead: %s (%s, side %+d)" % (n_, cls.split(".")[-1], side), attr(c, back, n_), v, d, rule="the jump of the state behind is the state ahead")


def run(c):
    c.sections(jumps, inverses)
    for s in (moving, steady,):
        c.section(s)
