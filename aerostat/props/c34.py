"""C34 polar plots."""
from .common import *

SP, IP = "aerokit.aero.plot.shockpolar.", "aerokit.aero.plot.isentropicpolar."
SW, SU = "aerokit.aero.ShockWave.", "aerokit.aero.Supersonic."
th0, p0, n_ = sym("th0"), sym("p0"), sym("n")
AX = "matplotlib.axes.given"


def pdom(**kw):
    d = gdom(M=("1.3", 6), n=(3, 40, "int"), th0=(-20, 20), p0=("0.3", 4), k=(0, 1), **kw)
    d.direct = False
    d.ranges["@i"] = (0, 2, "int")
    return d


def linsig(k, lo, hi):
    return lo + (hi - lo) * k / n_


def plotted(c, name, *args, **kw):
    """[(target, x, y)] given to plot(), curves then points"""
    n0 = len(c.i.events)
    c.call(name, *args, **kw)
    c.pending = []
    out = []
    for e in c.i.events[n0:]:
        if e.kind == "sink" and e.data["func"].split(".")[-1] == "plot":
            a = e.data["args"]
            if len(a) < 2 or isinstance(a[1], str):
                raise RaiseSignal("ValueError", "drawn without an abscissa", None, e.where)
            out.append((e.data["func"][:-5], a[0], a[1]))
    return out


def is_curve(c, v):
    l = c.i.np.lifted(c.i, v)
    return l is not None and l.k != "s"


def size(c, v):
    l = c.i.np.lifted(c.i, v)
    return tm.lift(l.len) if l.k == "a" else num(l.v.size)


def at(c, v):
    return c.i.np.elem_of(c.i, v)


def match(c, tag, got, want, d, where, what):
    """the drawn items are the wanted ones, in any order"""
    if not got and want:
        c.fact("%s: %s" % (tag, what), None, "nothing recognised", where=where)
        return
    from .. import identity as idn
    left = list(want)
    c.fact("%s: number of %s" % (tag, what), len(got) == len(want), "drawn items", where=where, detail="%d drawn, %d expected" % (len(got), len(want)))
    if len(got) != len(want):
        return
    for x, y in got:
        k = next((k for k, (_, wx, wy) in enumerate(left) if idn.equal(x, wx, d, n=6).ok and idn.equal(y, wy, d, n=6).ok), 0)
        lab, wx, wy = left.pop(k)
        c.identity("%s: abscissa of %s %s" % (tag, what, lab), x, wx, d, where=where, rule="coordinates of the polar", n=12)
        c.identity("%s: ordinate of %s %s" % (tag, what, lab), y, wy, d, where=where, rule="coordinates of the polar", n=12)


def split(c, items, where, tag, target):
    curves = [(x, y) for t, x, y in items if is_curve(c, x)]
    points = [(scal(c, x), scal(c, y)) for t, x, y in items if not is_curve(c, x)]
    c.fact("%s: drawn where asked" % tag, all(t == target for t, _, _ in items) if items else None, "target of the drawing", where=where)
    for x, y in curves:
        for v in (x, y):
            c.identity("%s: number of points" % tag, size(c, v), n_ + 1, pdom(), where=where, rule="npts+1 points")
    return [(at(c, x), at(c, y)) for x, y in curves], points


def signs(curve, plus=("right",), minus=("left",)):
    return ([("right", 1)] if curve in ("right", "both") else []) + ([("left", -1)] if curve in ("left", "both") else [])


def shock(c):
    roots(c)
    f = fn(c, SW[:-1])
    for gam, glab in ((g, ""), (None, " (default gas)")):
        gg = [] if gam is None else [gam]
        gv = num(Fraction(7, 5)) if gam is None else gam
        kw = {} if gam is None else {"gamma": gam}
        d = pdom()
        sig = linsig(tm.IDX, asin(num(1) / M) * RAD, num(90))
        dev = f("deflection_Mach_sigma", M, sig, *gg)
        ps = sh_p(M * sin(sig * DEG), gv)
        mk = {}
        for nm, dv_, sg in (("devmax", "dev_Max", "sigma_DevMax"), ("sonic", "dev_Sonic", "sigma_Sonic")):
            s = f(sg, M, *gg)
            mk[nm] = (f(dv_, M, *gg), s, sh_p(M * sin(s * DEG), gv))
        c.pending = []
        for curve in ("right", "left", "both"):
            for marks in ((), ("devmax",), ("sonic",), ("devmax", "sonic")):
                if gam is None and (curve != "both" or len(marks) == 1):
                    continue
                flags = {k: True for k in marks}
                tag = "theta-sigma polar, %s%s%s" % (curve, ", " + "+".join(marks) if marks else "", glab)
                where = c.where_of(c.get(SP + "plot_theta_sigma"))
                cu, pt_ = split(c, plotted(c, SP + "plot_theta_sigma", M, npts=n_, curve=curve, **flags, **kw), where, tag, "matplotlib.pyplot")
                match(c, tag, cu, [(l, num(s) * dev, sig) for l, s in signs(curve)], d, where, "curve")
                match(c, tag, pt_, [("%s %s" % (m, l), num(s) * mk[m][0], mk[m][1]) for m in marks for l, s in signs(curve)], d, where, "marker")
                where = c.where_of(c.get(SP + "plot_theta_pressure"))
                for ax in (None, AX):
                    for shift in (True, False):
                        t0, q0 = (th0, p0) if shift else (num(0), num(1))
                        k2 = dict(flags, **kw)
                        if shift:
                            k2.update(thet_init=th0, p_init=p0)
                        if ax:
                            k2["ax"] = c.i.np.Ext(AX)
                        tag = "theta-pressure polar, %s%s%s%s%s" % (curve, ", " + "+".join(marks) if marks else "", ", shifted" if shift else "", ", given axes" if ax else "", glab)
                        cu, pt_ = split(c, plotted(c, SP + "plot_theta_pressure", M, npts=n_, curve=curve, **k2), where, tag, ax or "matplotlib.pyplot")
                        match(c, tag, cu, [(l, t0 + num(s) * dev, q0 * ps) for l, s in signs(curve)], d, where, "curve")
                        match(c, tag, pt_, [("%s %s" % (m, l), t0 + num(s) * mk[m][0], q0 * mk[m][2]) for m in marks for l, s in signs(curve)], d, where, "marker")


def isentropic(c):
    roots(c)
    f = fn(c, SU[:-1])
    name = IP + "plot_theta_pressure"
    where = c.where_of(c.get(name))
    d1, d2 = sym("d1"), sym("d2")
    for gam in (g, None):
        gg = [] if gam is None else [gam]
        kw = {} if gam is None else {"gamma": gam}
        d = pdom(d1=(-10, -1), d2=(0, 10))
        dev = linsig(tm.IDX, d1, d2)
        up, dn = f("IsentropicPsratio_Mach_deflection", M, dev, *gg), f("IsentropicPsratio_Mach_deflection", M, -dev, *gg)
        c.pending = []
        for curve in ("c+", "C+", "c-", "C-", "both"):
            for shift in (True, False):
                t0, q0 = (th0, p0) if shift else (num(0), num(1))
                k2 = dict(kw, **({"thet_init": th0, "p_init": p0} if shift else {}))
                tag = "isentropic polar, %s%s%s" % (curve, ", shifted" if shift else "", "" if gam is not None else " (default gas)")
                rng = (d1, d2) if curve != "both" else c.i.alloc("list", items=(d1, d2))
                cu, pt_ = split(c, plotted(c, name, M, rng, npts=n_, curve=curve, **k2), where, tag, "matplotlib.pyplot")
                want = ([("c+", t0 + dev, q0 * up)] if curve.lower() in ("c+", "both") else []) + ([("c-", t0 + dev, q0 * dn)] if curve.lower() in ("c-", "both") else [])
                match(c, tag, cu, want, d, where, "curve")


def figures(c):
    """new figures: logarithmic pressure axis, everything else linear, options handed on"""
    for name, log in (("figure_theta_sigma", False), ("figure_theta_pressure", True)):
        f = c.get("aerokit.aero.plot.defaultstyle." + name)
        where = c.where_of(f)
        n0 = len(c.i.events)
        size = (sym("w"), sym("h"))
        res = c.call(f, figsize=size)
        made, ysc, xsc = [], [], []
        for e in c.i.events[n0:]:
            if e.kind == "sink":
                k = e.data["func"].split(".")[-1]
                a = [x for x in e.data["args"] if isinstance(x, str)]
                if k in ("figure", "subplots"):
                    made.append(e)
                elif k in ("yscale", "set_yscale"):
                    ysc += a[:1]
                elif k in ("semilogy", "loglog"):
                    ysc.append("log")
                if k in ("xscale", "set_xscale"):
                    xsc += a[:1]
                elif k in ("semilogx", "loglog"):
                    xsc.append("log")
        if not made:
            c.fact("%s: figure" % name, None, "new figure", where=where)
            continue
        c.fact("%s: one figure" % name, len(made) == 1, "new figure", where=where)
        c.fact("%s: options" % name, made[0].data["kw"].get("figsize") is size or made[0].data["kw"].get("figsize") == size, "options reach the figure", where=where)
        c.fact("%s: ordinate" % name, (ysc[-1:] or ["linear"])[0] == ("log" if log else "linear"), "scale of the ordinate", where=where, detail=repr(ysc))
        c.fact("%s: abscissa" % name, (xsc[-1:] or ["linear"])[0] == "linear", "scale of the abscissa", where=where, detail=repr(xsc))
        c.fact("%s: returned" % name, res is not None, "the figure is returned", where=where)


def run(c):
    c.section(shock)
    c.section(figures)
    c.section(isentropic)
    c.assumptions.append("Colours, line styles and axis decoration are not decided")
