"""C14 wave curves of unsteady states."""
from .common import *
from .c03 import US, RO, U, P, sdom


def st(c):
    return c.call(US, RO, U, P, g)


def shock(c):
    m = sym("m")
    d = sdom(m=("1", "6", "log", "1", "1e4"))
    a = sqrt(g * P / RO)
    ps = P * sh_p(m)
    s = st(c)
    c.identity("density through a shock", meth(c, s, "rho_through_shock", ps), RO * sh_r(m), d, rule="Hugoniot curve")
    du = meth(c, s, "delta_u_shock", ps)
    c.identity("velocity change through a shock", du, a * (m - (1 + (g - 1) / 2 * m ** 2) / ((g + 1) / 2 * m)), d,
               rule="u1 - u2 in the shock frame")
    q = sym("q")
    d2 = sdom(q=("1.0001", "40", "log", "1.0000001", "1e8"))
    s = st(c)
    rs = meth(c, s, "rho_through_shock", q * P)
    c.identity("mass and momentum through a shock", meth(c, s, "delta_u_shock", q * P) ** 2, (q * P - P) * (1 / RO - 1 / rs), d2,
               rule="(du)^2 = dp . d(1/rho)")
    c.condition("shock slows the flow down", gt(meth(c, s, "delta_u_shock", q * P), num(0)), d2)


def expansion(c):
    q = sym("q")
    d = sdom(q=("0.05", "1", "log", "1e-9", "1"))
    s = st(c)
    r2 = meth(c, s, "rho_through_isentropic", q * P)
    c.identity("density through an expansion", r2, RO * q ** (1 / g), d, rule="p/rho^gamma constant")
    a1, a2 = sqrt(g * P / RO), sqrt(g * q * P / r2)
    c.identity("velocity change through an expansion", meth(c, s, "delta_u_expansion", q * P), 2 / (g - 1) * (a2 - a1), d,
               rule="Riemann invariant u +- 2a/(g-1)")
    c.condition("expansion speeds the flow up", le(meth(c, s, "delta_u_expansion", q * P), num(0)), d)


def joint(c):
    s = st(c)
    a = sqrt(g * P / RO)
    for k in ("delta_u_shock", "delta_u_expansion"):
        c.identity("no wave, no velocity change: %s" % k, meth(c, s, k, P), num(0), sdom())
    for k in ("rho_through_shock", "rho_through_isentropic"):
        c.identity("no wave, same density: %s" % k, meth(c, s, k, P), RO, sdom())
    e = sym("e")
    d = sdom(e=("1e-5", "1e-3", "log"))
    x = P * e / (RO * a)
    for k in ("delta_u_shock", "delta_u_expansion"):
        c.condition("weak waves are acoustic: %s" % k, le(absv(meth(c, s, k, P * (1 + e)) - x), 2 * e * x), d, rule="du = dp/(rho.a) for weak waves")
    y = P * e / (g * P) * RO
    for k in ("rho_through_shock", "rho_through_isentropic"):
        c.condition("weak waves are isentropic: %s" % k, le(absv(meth(c, s, k, P * (1 + e)) - RO - y), 2 * e * y), d, rule="drho = dp/a^2 for weak waves")
    q, k2 = sym("q"), sym("k2")
    d = sdom(q=("0.1", "10", "log", "1e-7", "1e7"), k2=("1.01", "2", "log", "1.00001", "1e4"))
    for k in ("delta_u_shock", "delta_u_expansion", "rho_through_shock", "rho_through_isentropic"):
        c.condition("increases with pressure: %s" % k, lt(meth(c, s, k, q * P), meth(c, s, k, q * k2 * P)),
                    d if "expansion" in k or "isentropic" in k else sdom(q=("1", "10", "log", "1", "1e7"), k2=("1.01", "2", "log", "1.00001", "1e4")))


def galilean(c):
    w = sym("w")
    q = sym("q")
    d = sdom(w=(-500, 500, "lin", -9000, 9000), q=("0.1", "10", "log", "1e-7", "1e7"))
    d1 = sdom(w=(-500, 500, "lin", -9000, 9000), q=("1", "10", "log", "1", "1e7"))
    for k in ("delta_u_shock", "delta_u_expansion", "rho_through_shock", "rho_through_isentropic"):
        s, s2 = st(c), c.call(US, RO, U + w, P, g)
        c.identity("same in a moving frame: %s" % k, meth(c, s2, k, q * P), meth(c, s, k, q * P), d1 if "shock" in k else d,
                   rule="no dependence on the velocity of the frame")


def run(c):
    for s in (shock, expansion, joint, galilean):
        c.section(s)
