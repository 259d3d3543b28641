"""C09 Fanno flow."""
from .common import *

FA = "aerokit.aero.Fanno"
D = dict(M=("0.05", "10", "log", "1e-5", "1e3"))


def ratios(c):
    f = fn(c, FA)
    d = gdom(**D)
    P, Tr, R, Pi, V = (f(k, M, g) for k in ("Ps_Pscri", "Ts_Tscri", "Rho_Rhocri", "Pi_Picri", "V_Vcri"))
    c.identity("total temperature constant", Tr * tt(M), (g + 1) / 2, d, rule="adiabatic duct")
    c.identity("mass flux constant", R * V, num(1), d, rule="rho.u = rho*.u*")
    c.identity("equation of state", P, R * Tr, d, rule="p = rho.r.T")
    c.identity("velocity is Mach times sound speed", V, M * sqrt(Tr), d, rule="u = M.a")
    c.identity("total pressure ratio", Pi, P * pt(M) / pt(num(1)), d, rule="Pt = Ps.(Pt/Ps)(M)")
    dS = f("NormdS", M, g)
    c.identity("entropy", dS, log(Tr) - (g - 1) / g * log(P), d, rule="ds/cp = ln(T) - (g-1)/g ln(p)")
    c.identity("entropy and total pressure", dS, -(g - 1) / g * log(Pi), d, rule="ds/r = -ln(Pt) at constant Tt")
    for k in ("Ps_Pscri", "Ts_Tscri", "Rho_Rhocri", "Pi_Picri", "V_Vcri"):
        c.identity("sonic state is the reference: %s" % k, f(k, num(1), g), num(1), gdom())
    for k in ("NormdS", "maxFparam_Mach"):
        c.identity("sonic state is the reference: %s" % k, f(k, num(1), g), num(0), gdom())


def friction(c):
    f = fn(c, FA)
    d = gdom(**D)
    m2 = M * M
    F = f("maxFparam_Mach", M, g)
    c.identity("friction length to choking", F, (1 - m2) / (g * m2) + (g + 1) / (2 * g) * log((g + 1) * m2 / (2 * tt(M))), d,
               rule="integral of the Fanno line")
    dd = gdom(M=("0.05", "0.9", "log", "1e-5", "0.9999"), k=("0.9", "0.999"))
    dd2 = gdom(M=("1.2", "8", "log", "1.0001", "1e3"), k=("1.001", "1.1"))
    k = sym("k")
    c.condition("grows away from choking (subsonic)", gt(f("maxFparam_Mach", k * M, g), F), dd)
    c.condition("grows away from choking (supersonic)", gt(f("maxFparam_Mach", k * M, g), F), dd2)
    c.condition("entropy is largest at Mach 1", le(f("NormdS", M, g), num(0)), d)


def run(c):
    c.sections(ratios, friction)
