"""C07 Prandtl-Meyer expansion."""
from .common import *

SUP = "aerokit.aero.Supersonic"
PM = lambda m: RAD * nu(m)


def function(c):
    f = fn(c, SUP)
    d = gdom(M=("1", "15", "log", "1", "1e4"))
    c.identity("Prandtl-Meyer function", f("PrandtlMeyer_Mach", M, g), PM(M), d)
    c.identity("zero at Mach 1", f("PrandtlMeyer_Mach", num(1), g), num(0), gdom())
    k = sym("k")
    d = gdom(M=("1.001", "10", "log", "1.00001", "1e3"), k=("1.001", "2"))
    c.condition("increases with Mach", lt(f("PrandtlMeyer_Mach", M, g), f("PrandtlMeyer_Mach", k * M, g)), d)


def inverse(c):
    roots(c)
    f = fn(c, SUP)
    d = gdom(M=("1.05", "8", "log", "1.001", "50")).root(M)
    for k in ("Mach_PrandtlMeyer", "old_Mach_PrandtlMeyer"):
        n0 = len(c.i.solves)
        c.identity("%s(PrandtlMeyer_Mach(M)) = M" % k, f(k, PM(M), g), M, d, rule="solved equation has M as its root")
        for s in c.i.solves[n0:]:
            c.condition("%s starts from a supersonic Mach number" % k, gt(s.guess, num(1)), d)
    mu = RAD * asin(1 / M)
    c.identity("Mach_PMFmmu(omega-mu) = M", f("Mach_PMFmmu", PM(M) - mu, g), M, gdom(M=("1.02", "10", "log", "1.0001", "1e3")))


def waves(c):
    roots(c)
    f = fn(c, SUP)
    N = sym("N")
    d = gdom(M=("1.2", "8", "log", "1.01", "50"), N=("1.2", "8", "log", "1.01", "50"))
    pr = pt(M) / pt(N)
    c.identity("turning of an isentropic pressure ratio", f("deflection_Mach_IsentropicPsratio", M, pr, g), PM(N) - PM(M), d,
               rule="change of the Prandtl-Meyer function at constant total pressure")
    c.identity("pressure ratio of an isentropic turning", f("IsentropicPsratio_Mach_deflection", M, PM(M) - PM(N), g), pr,
               d.copy().root(N), rule="constant total pressure along the Prandtl-Meyer function")
    c.identity("no turning, no pressure change", f("IsentropicPsratio_Mach_deflection", M, num(0), g), num(1),
               gdom(M=("1.2", "8", "log", "1.01", "50")).root(M))


def run(c):
    c.sections(function, inverse, waves)
