"""C08 mass flow function and area ratio."""
from .common import *

MF = "aerokit.aero.MassFlow"


def relations(c):
    f = fn(c, MF)
    d = gdom(M=("0.01", "12", "log", "1e-5", "1e3"), r=(50, 4200, "log", "1e-2", "1e5"))
    W = f("WeightMassFlow", M, sym("r"), g)
    c.identity("reduced mass flow", W, sqrt(g) * M * tt(M) ** (-(g + 1) / (2 * (g - 1))), d)
    # rho u sqrt(r Tt)/Pt from the isentropic relations
    c.identity("reduced mass flow from the isentropic relations", W, sqrt(g) * M * sqrt(tt(M)) / pt(M), d,
               rule="rho.u.sqrt(r.Tt)/Pt")
    Sg = f("Sigma_Mach", M, g)
    c.identity("area ratio", Sg, sigma(M), d)
    c.identity("mass flow conserved through the sonic throat", Sg * W, f("WeightMassFlow", num(1), sym("r"), g), d,
               rule="Sigma(M).W(M) = W(1)")
    c.identity("area ratio at the throat", f("Sigma_Mach", num(1), g), num(1), gdom())
    k = sym("k")
    ds = gdom(M=("0.02", "0.95", "lin", "1e-5", "0.999"), k=("0.5", "0.99"))
    c.condition("decreases in subsonic flow", gt(f("Sigma_Mach", k * M, g), f("Sigma_Mach", M, g)), ds)
    du = gdom(M=("1.05", "10", "log", "1.0001", "1e3"), k=("0.5", "0.99"))
    du.require(gt(k * M, num(1)))
    c.condition("increases in supersonic flow", lt(f("Sigma_Mach", k * M, g), f("Sigma_Mach", M, g)), du)
    c.condition("throat is the smallest section", ge(f("Sigma_Mach", M, g), num(1)), gdom(M=("0.01", "12", "log", "1e-5", "1e3")))


def inverses(c):
    roots(c)
    f = fn(c, MF)
    s = sigma(M)
    for k, rng, rule in (("MachSub_Sigma", ("0.02", "0.98", "lin", "1e-4", "0.9999"), "subsonic"), ("MachSup_Sigma", ("1.02", "6", "log", "1.0001", "40"), "supersonic")):
        d = gdom(M=rng).root(M)
        n0 = len(c.i.solves)
        v = f(k, s, g)
        c.identity("%s(Sigma_Mach(M)) = M" % k, v, M, d, rule="solved equation has M as its root")
        for q in c.i.solves[n0:]:
            if rule == "subsonic":
                # Sigma is convex: from the left of the root the secant and Newton
                # iterations increase towards it and never leave the subsonic branch
                c.condition("%s starts left of the root" % k, tm.andv(gt(q.guess, num(0)), le(q.guess, M * (1 + num(Fraction(1, 1000))))), d,
                            rule="start inside the basin of the subsonic branch")
            else:
                c.condition("%s starts on the supersonic branch" % k, gt(q.guess, num(1)), d,
                            rule="start on the branch that is asked for")
        # the ratio of a throat to itself may be rounded below 1
        n0 = len(c.i.solves)
        f(k, 1 - sym("e"), g)
        for q in c.i.solves[n0:]:
            c.condition("%s starts from the sonic state at a throat rounded below 1" % k, lt(absv(q.guess - 1), num(Fraction(1, 100))),
                        gdom(e=("1e-16", "1e-12", "log")), rule="start is defined")
    m0 = sym("m0")
    d = gdom(M=("0.05", "6", "log", "1e-3", "40"), m0=("0.05", "6")).root(M)
    n0 = len(c.i.solves)
    c.identity("Mach_Sigma(Sigma_Mach(M)) = M", f("Mach_Sigma", s, m0, g), M, d, rule="solved equation has M as its root")
    for q in c.i.solves[n0:]:
        c.identity("Mach_Sigma starts from the Mach number given", q.guess, m0, d)
    # arrays: the branch is chosen entry by entry
    marr = c.i.np.new_arr(c.i, tm.app("m0", tm.IDX), sym("n"))
    d = gdom(M=("1.05", "5"), n=(1, 9, "int"), **{"@i": (0, 8, "int")})
    d.appranges["m0"] = ("0.1", "4")
    d.root(M)
    n0 = len(c.i.solves)
    c.call(MF + ".Mach_Sigma", s, marr, g)
    for q in c.i.solves[n0:]:
        at = tm.app("m0", tm.IDX)
        c.condition("array of initial Mach numbers: branch by entry",
                    ite(gt(at, num(1)), gt(q.guess, num(1)), lt(q.guess, num(1))), d, rule="start on the branch that is asked for")


def thrust(c):
    roots(c)
    P = "aerokit.aero.Propulsion"
    f = fn(c, P)
    d = gdom(M=("0.05", "8", "log", "1e-4", "1e3"))
    c.identity("thrust function", f("ThrustFunction", M, g), sigma(M) * (1 + g * M ** 2) / pt(M), d,
               rule="(p + rho.u^2).A / (Pt.Acrit)")
    m0 = sym("m0")
    d = gdom(M=("1.1", "6"), m0=("1.1", "6")).root(M)
    n0 = len(c.i.solves)
    c.identity("Mach_ThrustFunction(ThrustFunction(M)) = M", f("Mach_ThrustFunction", f("ThrustFunction", M, g), m0, g), M, d,
               rule="solved equation has M as its root")
    for q in c.i.solves[n0:]:
        c.identity("Mach_ThrustFunction starts from the Mach number given", q.guess, m0, d)


def run(c):
    c.sections(relations)
    for s in (inverses, thrust,):
        c.section(s)
