"""C38 what an argument left out stands for."""
from .common import *
from .c02 import TABLE
from .c03 import ST, US, RO, U, P, sdom
from .c20 import GG, TJ, TF, PAR, NOZ, FAN, FLY, edom, update
from .c20 import s as eng
from .c21 import results, METHODS, FIELDS

G14, R287 = num(Fraction(7, 5)), num(Fraction(2871, 10))
CF = "aerokit.aero.CompressibleFlow."
R = dict(Mach=("1.2", "4", "log", "1.001", "1e3"), TtTs=("1.2", "4"), PtPs=("1.5", "30"), Ti=(200, 900), omega=(5, 60), Pratio=("0.3", "0.9"), dev=(1, 10),
         sigma=("1.2", "5"), r=(150, 900))
RULE = "result of the call with the value written out"
# the current default gas, not the one at import (see C12)
CURRENT = {"aerokit.instance.nozzle.Ms_from_AsAc_NPR"}


def params(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


# legacy functions and their arguments in order
LEGACY = dict(TtTs_Mach=("Mach",), PtPs_Mach=("Mach",), Mach_TtTs=("TtTs",), Mach_PtPs=("PtPs",), Velocity_MachTi=("Mach", "Ti", "r"),
              PrandtlMeyer_Mach=("Mach",), Mach_PrandtlMeyer=("omega",), deflection_Mach_IsentropicPsratio=("Mach", "Pratio"),
              IsentropicPsratio_Mach_deflection=("Mach", "dev"), WeightMassFlow=("Mach", "r"), Sigma_Mach=("Mach",), Mach_Sigma=("sigma", "Mach"))


def table(c):
    """library functions"""
    t = dict(TABLE)
    for k, names in LEGACY.items():
        t[CF + k] = {p: R[p] for p in names}
    return t


def function(name):
    def sec(c):
        roots(c)
        rng = table(c)[name]
        f = c.get(name)
        where = c.where_of(f)
        short = ".".join(name.split(".")[-2:])
        for left, given in ((("gamma",), {"gamma": G14}),) + (((("r", "gamma"), {"r": R287, "gamma": G14}), (("r",), {"r": R287})) if "r" in rng else ()):
            kw = {k: sym(k) for k in rng if k not in left}
            d = dom(**{k: v for k, v in rng.items()})
            if "gamma" not in left:
                kw["gamma"] = g
                d.add("gamma", GAM)
            pos = []
            if not set(kw) <= set(params(f)):
                # the arguments of a legacy function under other names
                pos = [kw.pop(k) for k in rng if k in kw and k != "r"]
            x = scal(c, c.call(f, *pos, **kw))
            c.pending = []
            y = scal(c, c.call(f, *pos, **kw, **given))
            c.pending = []
            c.identity("%s: %s left out" % (short, " and ".join(left)), x, y, d, where=where, rule=RULE, n=12)
    sec.__name__ = name.split(".")[-1]
    return sec


def branch(c):
    """inversions with two roots give the supersonic one when no start is given"""
    roots(c)
    for name, f, k in (("aerokit.aero.MassFlow.Mach_Sigma", "sigma", sigma), (CF + "Mach_Sigma", "sigma", sigma)):
        d = gdom(M=("1.05", "5", "log", "1.0001", "50"))
        d.root(M)
        c.identity("%s: start left out" % name.split(".")[-1], scal(c, c.call(name, k(M), gamma=g)), scal(c, c.call(name, k(M), num(2), g)), d,
                   where=c.where_of(c.get(name)), rule=RULE)


def states(c):
    d = sdom(m=("1.1", "4"))
    for cls in (ST, US):
        a, b = c.call(cls, RO, U, P), c.call(cls, RO, U, P, G14)
        where = c.where_of(c.get(cls + ".__init__"))
        for k in ("asound", "Mach", "Ptot", "rTtot"):
            c.identity("%s without gas: %s" % (cls.split(".")[-1], k), meth(c, a, k), meth(c, b, k), d, where=where, rule=RULE)


def engines(c):
    """components not described are without losses"""
    ideal = {k: num(1) for k in (*PAR, *NOZ, *FAN)}
    ideal.update(gam_cold=G14, gam_hot=G14, r_cold=R287, r_hot=R287, Pci=num(42800000))
    need = {GG: ("OPR", "Tt4"), TJ: ("OPR", "Tt4"), TF: ("OPR", "Tt4", "bpr", "fanpower_ratio")}
    for cls in (GG, TJ, TF):
        t = cls.split(".")[-1] if cls != GG else "gas generator"
        req = {k: eng[k] for k in need[cls]}
        f = c.get(cls + ".__init__")
        where = c.where_of(f)
        opt = [k for k in params(f) if k not in req and k in ideal]
        d = edom(cls)

        def run_(**kw):
            e = c.call(cls, **req, **kw)
            c.call(c.i.getattr(e, "flight_conditions", None), T0=eng["T0"], P0=eng["P0"], M0=eng["M0"])
            update(c, e)
            out = results(c, e, cls)
            c.pending = []
            return out
        want, got = run_(**{k: ideal[k] for k in opt}), run_()
        for k in want:
            c.identity("%s: %s, nothing but the required parameters given" % (t, k), got[k], want[k], d, where=where, rule=RULE, n=8)
        for p in opt:
            rest = {k: eng[k] for k in opt if k != p}
            want, got = run_(**rest, **{p: ideal[p]}), run_(**rest)
            bad = [k for k in want if got[k] is not want[k]]
            if not bad:
                c.fact("%s: %s left out" % (t, p), True, RULE, where=where)
            for k in bad[:2]:
                c.identity("%s: %s, %s left out" % (t, k, p), got[k], want[k], d, where=where, rule=RULE, n=8)
        # flight conditions left out: at rest, unit temperature and pressure
        e = c.call(cls, **{k: eng[k] for k in list(req) + opt})
        for kw, lab in (({"T0": eng["T0"], "P0": eng["P0"]}, "Mach number"), ({"M0": eng["M0"]}, "temperature and pressure")):
            full = dict(T0=num(1), P0=num(1), M0=num(0))
            full.update(kw)
            vals = []
            for q in (kw, full):
                c.call(c.i.getattr(e, "flight_conditions", None), **q)
                update(c, e)
                vals.append([attr(c, e, k) for k in ("Tt0", "Pt0", "V0")])
            c.pending = []
            for k, x, y in zip(("Tt0", "Pt0", "V0"), *vals):
                c.identity("%s: %s, ambient %s left out" % (t, k, lab), x, y, d, where=where, rule=RULE, n=8)


def grids(c):
    """collocation interval left out: -1 to 1"""
    from .c26 import CC, nd, mat, nodes
    d = Domain()
    for n in (2, 4):
        o, w = c.call(CC, n), c.call(CC, n, num(-1), num(1))
        where = c.where_of(c.get(CC + ".__init__"))
        for k, (x, y) in enumerate(zip(nodes(c, o), nodes(c, w))):
            c.identity("%d points, no interval: point %d" % (n, k), x, y, dom(z=(0, 1)), where=where, rule=RULE, scale=num(1))
        p, q = mat(c, o, 1), mat(c, w, 1)
        for k in range(n):
            c.identity("%d points, no interval: derivative %d" % (n, k), p[k, 0], q[k, 0], dom(z=(0, 1)), where=where, rule=RULE, scale=num(1))
        for lo, hi, lab in ((None, num(3), "lower"), (num(-2), None, "upper")):
            o = c.call(CC, n, xmin=lo, xmax=hi)
            w = c.call(CC, n, num(-1) if lo is None else lo, num(1) if hi is None else hi)
            for k, (x, y) in enumerate(zip(nodes(c, o), nodes(c, w))):
                c.identity("%d points, no %s end: point %d" % (n, lab, k), x, y, dom(z=(0, 1)), where=where, rule=RULE, scale=num(1))


def integrator(c):
    """tolerance left out: 1e-6"""
    from .c29 import OD, slope, F1, records, SMOOTH, vec_, x, h, e
    c.i.peel = 2
    out = []
    for a in ((), (tm.fnum(1e-6),)):
        X, Y = c.i.np.iterate(c.i, c.call(OD + "RKF45", slope(c, F1, True), x, vec_(c, 1), e, h, *a), None)[1]
        out.append((records(c, X), records(c, Y)))
    c.pending = []
    d = dom(x=(-1, 1), y=("0.2", "1"), h=("0.1", "0.6"), s=("1.1", "1.8"), w=(1, 40, "log"))
    d.define("xstop", x + sym("s") * h)
    d.funcs.update(SMOOTH)
    d.direct = False
    where = c.where_of(c.get(OD + "RKF45"))
    for (X, Y), (X2, Y2) in [out]:
        c.fact("RKF45 without tolerance: number of records", len(X) == len(X2), RULE, where=where)
        for k, ((p, v), (p2, v2)) in enumerate(zip(X, X2)):
            same = p is p2 and v[0] is v2[0]
            if same:
                c.fact("RKF45 without tolerance: record %d" % k, True, RULE, where=where)
            else:
                c.identity("RKF45 without tolerance: record %d" % k, ite(p, v[0], num(0)), ite(p2, v2[0], num(0)), d, where=where, rule=RULE, n=8)


def names():
    return [k for k in TABLE if k not in CURRENT] + [CF + k for k in LEGACY]


def run(c):
    for k in names():
        c.section(function(k), k)
    for s in (branch, states, engines, grids, integrator):
        c.section(s)
