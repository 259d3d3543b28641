"""C05 oblique shock."""
from .common import *

SW = "aerokit.aero.ShockWave"
S = sym("sigma")


def tbm(m, s, gam=g):
    """theta-beta-Mach relation (degrees)"""
    b = s * DEG
    sn2 = (m * sin(b)) ** 2
    return RAD * atan(2 * cos(b) / sin(b) * (sn2 - 1) / (m ** 2 * (gam + cos(2 * b)) + 2))


def smax(m, gam=g):
    """NACA 1135 eq. 168, degrees"""
    x = (gam + 1) * m ** 2 - 4 + sqrt((gam + 1) * ((gam + 1) * m ** 4 + 8 * (gam - 1) * m ** 2 + 16))
    return RAD * asin(sqrt(x / (4 * gam * m ** 2)))


def m2(m, s, gam=g):
    return sh_m(m * sin(s * DEG), gam) / sin((s - tbm(m, s, gam)) * DEG)


BIG = ("1.2", "8", "log", "1.001", "1e3")


def odom(lo=0, hi=90, kind=None):
    """attached shocks: M in [1.2, 8], sigma between the Mach angle and 90 degrees"""
    d = gdom(M=("1.2", "8", "log", "1.02", "300"), k=("0.02", "0.98", "lin", "1e-5", "0.99999"))
    mu = RAD * asin(1 / M)
    k = sym("k")
    if kind == "weak":
        d.define("sigma", mu + k * (smax(M) - mu))
    elif kind == "strong":
        d.define("sigma", smax(M) + k * (90 - smax(M)))
    else:
        d.define("sigma", mu + k * (90 - mu))
    d.appranges["A_sigma"] = (40, 88)
    return d


def relations(c):
    f = fn(c, SW)
    d = odom()
    dev = f("deflection_Mach_sigma", M, S, g)
    c.identity("deflection angle", dev, tbm(M, S), d, rule="theta-beta-Mach relation")
    # tangential velocity conserved, normal jump: tan(sigma-dev)/tan(sigma) = rho1/rho2
    c.identity("tangential velocity conserved", tan((S - dev) * DEG) * sh_r(M * sin(S * DEG)), tan(S * DEG), d,
               rule="tangential velocity conserved")
    mu = RAD * asin(1 / M)
    c.identity("no deflection at the Mach angle", f("deflection_Mach_sigma", M, mu, g), num(0), gdom(M=BIG), scale=num(1))
    e = sym("e")
    c.condition("no deflection of a normal shock", lt(absv(f("deflection_Mach_sigma", M, 90 - e, g)), sh_r(M) * e),
                gdom(M=BIG, e=("1e-7", "1e-5", "log")))
    P = sh_p(M * sin(S * DEG))
    d = odom()
    c.identity("deflection from the pressure ratio", f("deflection_Mach_ShockPsratio", M, P, g), tbm(M, S), d,
               rule="theta-beta-Mach relation")
    mm = f("downstreamMach_Mach_ShockPsratio", M, P, g)
    Ts = sh_p(M * sin(S * DEG)) / sh_r(M * sin(S * DEG))
    c.identity("total enthalpy conserved through the oblique shock", tt(mm) * Ts, tt(M), d, rule="Tt conserved across the jump")
    c.identity("downstream Mach number", mm, m2(M, S), d)


def cubic(c):
    f = fn(c, SW)
    d = odom(kind="weak")
    c.identity("weak shock angle inverts the deflection", f("weaksigma_Mach_deflection", M, tbm(M, S), g), S, d,
               rule="weaksigma(M, deflection(M, sigma)) = sigma")
    d = odom(kind="strong")
    c.identity("strong shock angle inverts the deflection", f("strongsigma_Mach_deflection", M, tbm(M, S), g), S, d,
               rule="strongsigma(M, deflection(M, sigma)) = sigma")
    for k in ("weak", "strong"):
        d = odom(kind=k)
        c.identity("%s shock angle is odd in the deflection" % k, f(k + "sigma_Mach_deflection", M, -tbm(M, S), g), -S, d,
                   rule="sigma(M,-dev) = -sigma(M,dev)")
    d = gdom(M=BIG)
    c.identity("weak shock without deflection is a Mach wave", f("weaksigma_Mach_deflection", M, num(0), g), RAD * asin(1 / M), d)
    c.identity("strong shock without deflection is a normal shock", f("strongsigma_Mach_deflection", M, num(0), g), num(90), d)


def iterative(c):
    roots(c)
    f = fn(c, SW)
    d = odom(kind="weak").root(S)
    D = tbm(M, S)
    n0 = len(c.i.solves)
    c.identity("iterated shock angle inverts the deflection", f("sigma_Mach_deflection", M, D, gamma=g), S, d,
               rule="solved equation has sigma as its root")
    for s in c.i.solves[n0:]:
        c.condition("iteration starts at or above the Mach angle", ge(s.guess, RAD * asin(1 / M)), d)
    c.identity("odd in the deflection", f("sigma_Mach_deflection", M, -D, gamma=g), -S, d,
               rule="sigma(M,-dev) = -sigma(M,dev)")
    n0 = len(c.i.solves)
    d2 = odom(kind="strong").root(S)
    i0 = sym("init")
    d2.add("init", (60, 90))
    c.identity("prescribed start", f("sigma_Mach_deflection", M, D, i0, g), S, d2, rule="solved equation has sigma as its root")
    for s in c.i.solves[n0:]:
        c.identity("iteration starts from the angle given", s.guess, i0, d2)


def limits(c):
    f = fn(c, SW)
    d = gdom(M=BIG)
    sm = f("sigma_DevMax", M, g)
    c.identity("shock angle of maximum deflection", sm, smax(M), d, rule="d(deflection)/d(sigma) = 0")
    c.identity("maximum deflection", f("dev_Max", M, g), tbm(M, smax(M)), d)
    ss = f("sigma_Sonic", M, g)
    c.identity("sonic downstream flow", m2(M, ss), num(1), d, rule="downstream Mach number is 1")
    c.identity("sonic deflection", f("dev_Sonic", M, g), tbm(M, ss), d)
    c.condition("sonic angle below the angle of maximum deflection", le(ss, sm), d)
    k = sym("k")
    d.add("k", ("0.9", "1.1"))
    d.require(lt(k * sm, num(90)))
    d.require(gt(M * sin(k * sm * DEG), num(1)))
    c.condition("no angle deflects more", le(f("deflection_Mach_sigma", M, k * sm, g), f("dev_Max", M, g) * (1 + num(Fraction(1, 10**12)))), d)


def run(c):
    c.sections(relations, cubic, limits)
    c.section(iterative)
