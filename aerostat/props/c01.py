"""C01 isentropic relations."""
from .common import *

MOD = "aerokit.aero.Isentropic"


def values(c):
    d = gdom(M=("0.02", "12", "log", "1e-5", "1e3"), r=(50, 4200, "log", "1e-2", "1e5"), Tt=(1, 4000, "log", "1e-3", "1e6"))
    Tt = sym("Tt")
    f = fn(c, MOD)
    c.identity("Tt/Ts = 1+(g-1)/2 M^2", f("TtTs_Mach", M, g), tt(M), d)
    c.identity("Pt/Ps = (Tt/Ts)^(g/(g-1))", f("PtPs_Mach", M, g), pt(M), d)
    c.identity("Pt/Ps and Tt/Ts on one isentrope", pw(f("TtTs_Mach", M, g), div(g, gm1())), f("PtPs_Mach", M, g), d)
    c.identity("V = M a(Tt, M)", f("Velocity_MachTt", M, Tt, r=r, gamma=g),
               times(M, sqrt(div(times(g, r, Tt), tt(M)))), d)
    # energy: cp Tt = cp Ts + V^2/2
    V = f("Velocity_MachTt", M, Tt, r=r, gamma=g)
    cp = div(times(g, r), gm1())
    c.identity("cp.Tt = cp.Ts + V^2/2", plus(div(times(cp, Tt), f("TtTs_Mach", M, g)), times(HALF, sq(V))), times(cp, Tt), d)
    c.identity("V is odd in M", f("Velocity_MachTt", neg(M), Tt, r=r, gamma=g), neg(V), d)
    c.identity("no motion: Tt/Ts", f("TtTs_Mach", num(0), g), num(1), d)
    c.identity("no motion: Pt/Ps", f("PtPs_Mach", num(0), g), num(1), d)


def inverses(c):
    d = gdom(M=("0.02", "12", "log", "1e-5", "1e3"))
    x = sym("x")
    f = fn(c, MOD)
    c.identity("Mach_TtTs(TtTs_Mach(M)) = M", f("Mach_TtTs", f("TtTs_Mach", M, g), g), M, d)
    c.identity("Mach_PtPs(PtPs_Mach(M)) = M", f("Mach_PtPs", f("PtPs_Mach", M, g), g), M, d)
    dx = gdom(x=("1.0001", "1e5", "log", "1.0000001", "1e12"))
    c.identity("TtTs_Mach(Mach_TtTs(x)) = x", f("TtTs_Mach", f("Mach_TtTs", x, g), g), x, dx)
    c.identity("PtPs_Mach(Mach_PtPs(x)) = x", f("PtPs_Mach", f("Mach_PtPs", x, g), g), x, dx)
    c.identity("Mach at ratio 1 (temperature)", f("Mach_TtTs", num(1), g), num(0), gdom())
    c.identity("Mach at ratio 1 (pressure)", f("Mach_PtPs", num(1), g), num(0), gdom())


def monotone(c):
    """strictly increasing in M"""
    d = gdom(M=("0.02", "12", "log", "1e-5", "1e3"), k=("1.0001", "3", "log"))
    f = fn(c, MOD)
    M2 = times(M, sym("k"))
    c.condition("Tt/Ts increases with M", lt(f("TtTs_Mach", M, g), f("TtTs_Mach", M2, g)), d)
    c.condition("Pt/Ps increases with M", lt(f("PtPs_Mach", M, g), f("PtPs_Mach", M2, g)), d)


def run(c):
    c.sections(values, inverses, monotone)
