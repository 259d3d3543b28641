"""C10 Rayleigh flow."""
from .common import *

RA = "aerokit.aero.Rayleigh"
D = dict(M=("0.05", "10", "log", "1e-5", "1e3"))


def ratios(c):
    f = fn(c, RA)
    d = gdom(**D)
    P, Tr, R, Pi, Ti, V = (f(k, M, g) for k in ("Ps_Pscri", "Ts_Tscri", "Rho_Rhocri", "Pi_Picri", "Ti_Ticri", "V_Vcri"))
    c.identity("impulse constant", P * (1 + g * M * M), 1 + g, d, rule="p + rho.u^2 constant")
    c.identity("mass flux constant", R * V, num(1), d, rule="rho.u = rho*.u*")
    c.identity("equation of state", P, R * Tr, d, rule="p = rho.r.T")
    c.identity("velocity is Mach times sound speed", V, M * sqrt(Tr), d, rule="u = M.a")
    c.identity("total pressure ratio", Pi, P * pt(M) / pt(num(1)), d, rule="Pt = Ps.(Pt/Ps)(M)")
    c.identity("total temperature ratio", Ti, Tr * tt(M) / tt(num(1)), d, rule="Tt = Ts.(Tt/Ts)(M)")
    c.identity("entropy", f("NormdS", M, g), log(Tr) - (g - 1) / g * log(P), d, rule="ds/cp = ln(T) - (g-1)/g ln(p)")
    for k in ("Ps_Pscri", "Ts_Tscri", "Rho_Rhocri", "Pi_Picri", "Ti_Ticri", "V_Vcri"):
        c.identity("sonic state is the reference: %s" % k, f(k, num(1), g), num(1), gdom())
    c.identity("sonic state is the reference: NormdS", f("NormdS", num(1), g), num(0), gdom())
    d14 = dom(**D)
    c.identity("largest heating ratio", f("maxTiratio_Mach", M, tm.fnum(1.4)), 1 / f("Ti_Ticri", M, tm.fnum(1.4)), d14,
               rule="heating up to the sonic state")
    c.identity("largest heating ratio, any gas", f("maxTiratio_Mach", M, g), 1 / Ti, d,
               rule="heating up to the sonic state",
               known=[("rayleigh-maxTiratio-gamma", 1 / f("Ti_Ticri", M, tm.fnum(1.4)))])
    c.condition("total temperature is largest at Mach 1", le(Ti, num(1)), gdom(M=("0.05", "10", "log", "1e-5", "1e3")))
    c.condition("entropy is largest at Mach 1", le(f("NormdS", M, g), num(0)), d)


def inverses(c):
    f = fn(c, RA)
    ds = gdom(M=("0.05", "0.99", "log", "1e-5", "0.9999"))
    c.identity("subsonic Mach number of a total temperature ratio", f("SubMach_TiTicri", f("Ti_Ticri", M, g), g), M, ds)
    du = gdom(M=("1.01", "10", "log", "1.0001", "1e3"))
    c.identity("supersonic Mach number of a total temperature ratio", f("SupMach_TiTicri", f("Ti_Ticri", M, g), g), M, du)
    c.identity("sonic limit (subsonic)", f("SubMach_TiTicri", num(1), g), num(1), gdom())
    c.identity("sonic limit (supersonic)", f("SupMach_TiTicri", num(1), g), num(1), gdom())


def run(c):
    c.sections(ratios, inverses)
