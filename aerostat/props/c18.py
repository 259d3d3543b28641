"""C18 nozzle regimes and exit Mach number."""
from .common import *
from .oracle import FUNCS

NZ = "aerokit.instance.nozzle."
N = sym("N")          # supersonic exit Mach number: AsAc := sigma(N)
NPR = sym("NPR")
HG = "hist:aerokit.common.defaultgas._gamma#hist"


def base(gam=g, at=None):
    """the ratios that separate the regimes"""
    S = sym("AsAc")
    msub = tm.app("msub", S, gam)
    ptr = sh_r(N, gam) ** (gam / (gam - 1)) * sh_p(N, gam) ** (-1 / (gam - 1))
    return dict(S=S, msub=msub, NPR0=pt(msub, gam), NPRsw=pt(sh_m(N, gam), gam) / ptr, NPR1=pt(N, gam))


def ndom(gam=g, zone=None):
    d = dom(N=("1.15", "4.5", "log", "1.01", "20"), z=("0.02", "0.98", "lin", "0.0005", "0.9995"), w=[0, 1, 2, 3])
    if gam is g:
        d.add("gamma", ("1.15", "1.67", "lin", "1.05", "2"))
    d.funcs.update(FUNCS)
    b = base(gam)
    d.define("AsAc", sigma(N, gam))
    z, w = sym("z"), sym("w")
    zones = [1 + z * (b["NPR0"] - 1), b["NPR0"] + z * (b["NPRsw"] - b["NPR0"]), b["NPRsw"] + z * (b["NPR1"] - b["NPRsw"]),
             b["NPR1"] * (1 + 3 * z)]
    if zone is None:
        e = zones[3]
        for k in (0, 1, 2):
            e = ite(eq(w, num(k)), zones[k], e)
    else:
        e = zones[zone]
    d.define("NPR", e)
    d.root(b["msub"], N)
    d.define(HG, tm.fnum(1.4)) if gam is not g else None
    return d, b


def limits(c):
    roots(c)
    g14 = tm.fnum(1.4)
    d, b = ndom(g14)
    f = fn(c, NZ[:-1])
    for k, want in (("NPR_choked_subsonic", "NPR0"), ("NPR_choked_supersonic", "NPR1"), ("NPR_shock_at_exit", "NPRsw")):
        c.identity(k, f(k, b["S"]), b[want], d, rule="pressure ratio at the regime limit, from the section ratio")
    c.condition("regime limits are ordered", tm.andv(lt(f("NPR_choked_subsonic", b["S"]), f("NPR_shock_at_exit", b["S"])),
                                                    lt(f("NPR_shock_at_exit", b["S"]), f("NPR_choked_supersonic", b["S"]))), d)
    d, b = ndom()
    got = c.call(NZ + "_NPR_Ms_list", b["S"], g)
    want = (b["NPR0"], b["NPRsw"], b["NPR1"], b["msub"], sh_m(N), N)
    for k, a, w in zip(("NPR0", "NPRsw", "NPR1", "Msub", "Msh", "Msup"), got, want):
        c.identity("regime list: %s" % k, scal(c, a), w, d, rule="regime limit from the section ratio and the prescribed gas")


def exit_mach(c):
    roots(c)
    d, b = ndom()
    v = scal(c, c.call(NZ + "Ms_from_AsAc_NPR", b["S"], NPR, gamma=g))
    d0, _ = ndom(zone=0)
    c.identity("unchoked: exit pressure is the outlet pressure", pt(v), NPR, d0, rule="Pt/Ps(Ms) = NPR")
    c.condition("unchoked: subsonic", lt(v, num(1)), d0)
    d1, _ = ndom(zone=1)
    c.identity("shock in the diffuser: mass flow through throat and exit", sigma(v) * NPR / pt(v), b["S"], d1,
               rule="Sigma(Ms).Pt1/Pt2 = As/Ac with exit at outlet pressure")
    c.condition("shock in the diffuser: subsonic exit", lt(v, num(1)), d1)
    for zone, name in ((2, "over-expanded"), (3, "under-expanded")):
        d2, _ = ndom(zone=zone)
        c.identity("%s: exit Mach number set by the section" % name, v, N, d2, rule="Sigma(Ms) = As/Ac, supersonic branch")
    # the three regimes join
    S, m = b["S"], lambda x: scal(c, c.call(NZ + "Ms_from_AsAc_NPR", S, x, gamma=g))
    c.identity("regimes join at choking", m(b["NPR0"]), b["msub"], d, rule="continuity at the regime limit")
    c.identity("regimes join at choking (below)", m(b["NPR0"] * num(1 - Fraction(1, 10 ** 12))), b["msub"], d, rule="continuity at the regime limit")
    c.identity("shock standing in the exit section", m(b["NPRsw"] * num(1 - Fraction(1, 10 ** 13))), sh_m(N), d,
               rule="continuity at the regime limit")


def adapted(c):
    roots(c)
    g14 = tm.fnum(1.4)
    f = lambda x: scal(c, c.call(NZ + "Madapt_from_AsAc_NPR", sym("AsAc"), x))
    v = f(NPR)
    for zone, name in ((0, "unchoked"), (3, "under-expanded jet")):
        d, b = ndom(g14, zone)
        c.identity("%s: jet at outlet pressure" % name, pt(v, g14), NPR, d, rule="Pt/Ps(M) = NPR")
    d, b = ndom(g14, 1)
    c.identity("shock in the diffuser: mass flow through throat and exit", sigma(v, g14) * NPR / pt(v, g14), b["S"], d,
               rule="Sigma(Ms).Pt1/Pt2 = As/Ac with exit at outlet pressure")
    c.condition("shock in the diffuser: subsonic exit", lt(v, num(1)), d)
    d, b = ndom(g14, 2)
    P = b["NPR1"] / NPR
    mn = sqrt(1 + (P - 1) * (g14 + 1) / (2 * g14))
    d.require(lt(mn, N * num(Fraction(98, 100))))
    c.identity("over-expanded jet: oblique shock to the outlet pressure", tt(v, g14) * P / sh_r(mn, g14), tt(N, g14), d,
               rule="total enthalpy through the oblique shock of pressure ratio NPR1/NPR")


def run(c):
    for s in (limits, exit_mach, adapted):
        c.section(s)
    c.assumptions.append("Madapt_from_AsAc_NPR and the NPR_* limits have no gas argument: decided for the default gas as imported (1.4)")
