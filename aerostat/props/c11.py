"""C11 legacy names."""
from .common import *

A = "aerokit.aero."
CF = A + "CompressibleFlow."
R = dict(Mach=("1.2", "4", "log", "1e-3", "1e3"), M=("1.2", "4", "log", "1e-3", "1e3"), TtTs=("1.2", "4", "log", "1", "1e5"), PtPs=("1.5", "30", "log", "1", "1e8"),
         Ti=(200, 900, "log", "1e-2", "1e5"), Tt=(200, 900, "log", "1e-2", "1e5"),
         r=(150, 900, "log", 1, "1e5"), omega=(5, 60, "lin", 0, 100), Pratio=("0.3", "0.9", "log", "1e-5", "1e3"), dev=(1, 10, "lin", -30, 60), sigma=("1.2", "5", "log", "1", "100"),
         Mn=("1.1", "5", "log", "1", "1e3"),
         ptratio=("0.2", "0.95", "log", "1e-6", "1"))
PAIRS = [
    (A + "Isentropic.TiTs_Mach", A + "Isentropic.TtTs_Mach"), (A + "Isentropic.PiPs_Mach", A + "Isentropic.PtPs_Mach"),
    (A + "Isentropic.Mach_PiPs", A + "Isentropic.Mach_PtPs"), (A + "Isentropic.Mach_TiTs", A + "Isentropic.Mach_TtTs"),
    (A + "Isentropic.Velocity_MachTi", A + "Isentropic.Velocity_MachTt"),
    (A + "ShockWave.Pi_ratio", A + "ShockWave.Pt_ratio"), (A + "ShockWave.Mn_Pi_ratio", A + "ShockWave.Mn_Pt_ratio"),
    (CF + "TtTs_Mach", A + "Isentropic.TtTs_Mach"), (CF + "PtPs_Mach", A + "Isentropic.PtPs_Mach"),
    (CF + "Mach_TtTs", A + "Isentropic.Mach_TtTs"), (CF + "Mach_PtPs", A + "Isentropic.Mach_PtPs"),
    (CF + "Velocity_MachTi", A + "Isentropic.Velocity_MachTt"),
    (CF + "PrandtlMeyer_Mach", A + "Supersonic.PrandtlMeyer_Mach"),
    (CF + "Mach_PrandtlMeyer", A + "Supersonic.Mach_PrandtlMeyer"),
    (CF + "deflection_Mach_IsentropicPsratio", A + "Supersonic.deflection_Mach_IsentropicPsratio"),
    (CF + "IsentropicPsratio_Mach_deflection", A + "Supersonic.IsentropicPsratio_Mach_deflection"),
    (CF + "WeightMassFlow", A + "MassFlow.WeightMassFlow"), (CF + "Sigma_Mach", A + "MassFlow.Sigma_Mach"),
    (CF + "Mach_Sigma", A + "MassFlow.Mach_Sigma"),
]
NZ, RI = "aerokit.instance.nozzle", "aerokit.instance.riemann"
OLD = {NZ: A + "nozzle", RI: A + "riemann"}
FNS = [NZ + "." + k for k in ("NPR_choked_subsonic", "NPR_choked_supersonic", "NPR_shock_at_exit", "Ms_from_AsAc_NPR", "Madapt_from_AsAc_NPR")]
R.update(AsAc=("1.1", "6", "log", "1.001", "40"), NPR=("1.05", "12", "log", "1.001", "100"))


def pair(a, b):
    def s(c):
        roots(c)
        same_function(c, "", a, b, R)
        arrays(c, a, b)
    return s


def arrays(c, a, b):
    """the same for arrays of arguments"""
    i = c.i
    fa, fb = c.get(a), c.get(b)
    if fa is fb or getattr(fa, "node", 0) is getattr(fb, "node", 1):
        return
    d = gdom(n=(1, 6, "int"))
    d.add("@i", (0, 5, "int")).require(lt(tm.IDX, sym("n")))
    args = []
    for p in fdef(c, fa):
        if p in ("gamma", "r"):
            args.append(sym(p))
            d.add(p, GAM if p == "gamma" else R["r"])
        else:
            args.append(i.np.new_arr(i, tm.app("A_" + p, tm.IDX), sym("n")))
            d.appranges["A_" + p] = R.get(p, ("1.2", "3"))
    out, started = [], []
    for f in (fa, fb):
        n0 = len(i.solves)
        v = c.call(f, *args)
        out.append(scal(c, v))
        started.append([scal(c, s.guess) for s in i.solves[n0:]])
    c.pending = []
    where = c.where_of(fa)
    c.identity("%s = %s for arrays" % (a, b), out[0], out[1], d, where=where, rule="same values for the same arrays")
    c.fact("%s: iterations for arrays" % a, len(started[0]) == len(started[1]) or None, "as many as %s" % b, where=where)
    for v, w in zip(*started):
        c.identity("%s: start of the iteration for arrays" % a, v, w, d, where=where, rule="same starting points for the same arrays")


def moved(new):
    """function of a module that moved"""
    def s(c):
        roots(c)
        for k in ("NPR0", "NPRsw"):
            R.setdefault(k, ("1.1", "2"))
        mod, name = new.rsplit(".", 1)
        same_function(c, "", OLD[mod] + "." + name, new, R)
    return s


def one_class(c, new):
    mod, name = new.rsplit(".", 1)
    x, y = c.get(OLD[mod] + "." + name), c.get(new)
    same = x is y or getattr(x, "oid", 0) == getattr(y, "oid", 1) or getattr(x, "node", 0) is getattr(y, "node", 1)
    if same:
        c.fact("%s.%s is %s" % (OLD[mod], name, new), True, "one definition under two names", where=c.where_of(y))
    return x, y, same


def moved_nozzle(c):
    from .c19 import NPR, spec, A as area, n_
    i = c.i
    roots(c)
    x, y, same = one_class(c, NZ + ".nozzle")
    if same:
        return
    out = []
    for k in (x, y):
        o = c.call(k, sym("xx"), i.np.new_arr(i, area(tm.IDX), n_), gamma=g)
        c.call(i.getattr(o, "set_NPR", None), NPR)
        out.append([meth(c, o, f) for f in ("Mach", "Ps", "Ptot")])
    for z in (0, 1, 2):
        q, d = spec(z)
        for f, p, w in zip(("Mach", "Ps", "Ptot"), *out):
            c.identity("regime %d: %s" % (z, f), p, w, d, n=12, where=c.where_of(x), rule="the former module computes what the module does")


def moved_riemann(c):
    from .c15 import problem
    x, y, same = one_class(c, RI + ".riemann_pb")
    if same:
        return
    a, d, q = problem(c)
    b = c.call(x, c.i.getattr(a, "_qL", None), c.i.getattr(a, "_qR", None))
    for k in ("pstar", "ustar", "left_fastest", "right_fastest"):
        c.identity(k, meth(c, b, k), meth(c, a, k), d, where=c.where_of(x), rule="the former module computes what the module does")
    for side in "LR":
        s1, s2 = (c.call(c.i.getattr(o, "qstar" + side, None)) for o in (a, b))
        for k in ("rho", "u", "p"):
            c.identity("qstar%s: %s" % (side, k), attr(c, s2, k), attr(c, s1, k), d, where=c.where_of(x), rule="the former module computes what the module does")


def run(c):
    for a, b in PAIRS:
        c.section(pair(a, b), a)
    for k in FNS:
        c.section(moved(k), k)
    c.section(moved_nozzle)
    c.section(moved_riemann)
