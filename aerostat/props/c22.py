"""C22 staged turbofan cycles."""
from .common import *
from .. import identity as idn
from itertools import product

CT = "aerokit.engine.Cycle_Turbofan."
FIX, CAL = CT + "cycle_taux_fan_fixe", CT + "cycle_taux_fan_calcule"
ARG = dict(lambda_=("2", "9", "log", "0.1", "30"), pi_c=("10", "40", "log", "2", "80"), Tt4=("1350", "1800", "lin", "1000", "2400"), m=("100", "300", "log", "0.1", "1e4"))
OPT = {FIX: dict(pi_f=("1.2", "1.8", "lin", "1.05", "3")), CAL: dict(taux_meca=("0.1", "0.95", "lin", "0.01", "1"))}
CLS = dict(P0=("2e4", "6e4", "log", "100", "1e6"), T0=("200", "260", "lin", "100", "400"), M0=("0.2", "0.85", "lin", "0", "2.5"), xi_e=("0.92", "1", "lin", "0.5", "1"), eta_c=("0.85", "1", "lin", "0.5", "1"), eta_f=("0.85", "1", "lin", "0.5", "1"),
           eta_comb=("0.93", "1", "lin", "0.5", "1"), xi_cc=("0.92", "1", "lin", "0.5", "1"), eta_m=("0.94", "1", "lin", "0.5", "1"), eta_turb=("0.85", "1", "lin", "0.5", "1"), xi_tuy=("0.93", "1", "lin", "0.5", "1"))
GAS = dict(gc=("1.36", "1.42", "lin", "1.2", "1.67"), rc=("270", "300", "log", "100", "2000"), gh=("1.28", "1.34", "lin", "1.15", "1.5"), rh=("270", "300", "log", "100", "2000"), Pk=("4e7", "4.4e7", "log", "1e7", "1.5e8"))
RES = ("Pt0", "Tt0", "V0", "Tt2", "Pt2", "m_c", "Tt3", "Pt3", "m_k", "alpha", "Pt4", "m_f", "Tt13", "Pt13", "Pt19", "Tt19", "M19", "V19",
       "Tt5", "Pt5", "Tt9", "Pt9", "M9", "V9", "F", "F_spe", "mk_spe", "eta_th", "eta_prop", "eta")
s = {k: sym(k) for k in (*ARG, *OPT[FIX], *OPT[CAL], *CLS, *GAS)}
gc, rc, gh, rh, Pk = (s[k] for k in GAS)
cpc, cph = gc * rc / (gc - 1), gh * rh / (gh - 1)


def cdom(cls):
    d = Domain()
    for q in (ARG, OPT[cls], CLS, GAS):
        for k, v in q.items():
            d.add(k, v)
    return d


def set_class(c, cls):
    """operating point: the class values, symbolic"""
    base = c.get(CT + "cycle_1_to_4")
    for k in CLS:
        c.i.setattr(base, k, s[k], None)


def gases(c, sym_=True):
    G = CT + "Gaz"
    return (c.call(G, gc, rc), c.call(G, gh, rh, Pk)) if sym_ else (c.call(G), c.call(G, num(Fraction(133, 100)), num(Fraction(2916, 10)), num(42800000)))


def make(c, cls):
    g1, g2 = gases(c)
    o = [s[k] for k in OPT[cls]]
    return c.call(cls, *[s[k] for k in ARG], g1, g2, *o)


def do(c, o, k):
    return c.call(c.i.getattr(o, k, None))


def complete(c, cls):
    set_class(c, cls)
    o = make(c, cls)
    do(c, o, "calculs_5_to_9")
    return o


def cycle(cls, q=None, o=None, gas_=None):
    """the cycle, written from its energy balances"""
    q = {**s, **(q or {})}
    gc, rc, gh, rh, Pk = gas_ or (q[k] for k in GAS)
    cpc, cph = gc * rc / (gc - 1), gh * rh / (gh - 1)
    lam, m, t4 = q["lambda_"], q["m"], q["Tt4"]
    w = {}
    w["Pt2"] = q["xi_e"] * q["P0"] * pt(q["M0"], gc)
    w["Tt2"] = q["T0"] * tt(q["M0"], gc)
    w["V0"] = q["M0"] * sqrt(gc * rc * q["T0"])
    w["Tt3"] = w["Tt2"] * q["pi_c"] ** ((gc - 1) / (gc * q["eta_c"]))
    w["Pt4"] = q["xi_cc"] * q["pi_c"] * w["Pt2"]
    far = (cph * t4 - cpc * w["Tt3"]) / (q["eta_comb"] * Pk - cph * t4)
    ex = gh / ((gh - 1) * q["eta_turb"])
    turb = lambda work: t4 - work / (q["eta_m"] * (1 + far) * cph)
    comp = cpc * (w["Tt3"] - w["Tt2"])
    if cls == FIX:
        w["pi_f"] = q["pi_f"]
        w["Tt13"] = w["Tt2"] * q["pi_f"] ** ((gc - 1) / (gc * q["eta_f"]))
        w["Tt5"] = turb(comp + lam * cpc * (w["Tt13"] - w["Tt2"]))
    else:
        te = turb(comp)
        pe = w["Pt4"] * (te / t4) ** ex
        w["Tt5"] = te - q["taux_meca"] * te * (1 - (q["P0"] / pe) ** ((gh - 1) / gh))
        w["Tt13"] = w["Tt2"] + q["eta_m"] * (1 + far) * cph * (te - w["Tt5"]) / (lam * cpc)
        w["pi_f"] = (w["Tt13"] / w["Tt2"]) ** (gc * q["eta_f"] / (gc - 1))
    w["Pt9"] = q["xi_tuy"] * w["Pt4"] * (w["Tt5"] / t4) ** ex
    w["Pt19"] = q["xi_tuy"] * w["pi_f"] * w["Pt2"]
    jet = lambda tt_, p, g_, r_: sqrt(2 * g_ * r_ / (g_ - 1) * tt_ * (1 - (q["P0"] / p) ** ((g_ - 1) / g_)))
    w["V9"], w["V19"] = jet(w["Tt5"], w["Pt9"], gh, rh), jet(w["Tt13"], w["Pt19"], gc, rc)
    w["F_spe"] = (w["V9"] - w["V0"] + lam * (w["V19"] - w["V0"])) / (1 + lam)
    w["F"] = m * w["F_spe"]
    w["mk_spe"] = 1000000 * far / (w["F_spe"] * (1 + lam))
    dE = ((1 + far) * w["V9"] ** 2 - w["V0"] ** 2 + lam * (w["V19"] ** 2 - w["V0"] ** 2)) / 2
    w["eta_th"], w["eta"] = dE / (far * Pk), w["F_spe"] * (1 + lam) * w["V0"] / (far * Pk)
    w["eta_prop"] = w["eta"] / w["eta_th"]
    return w


def sane(cls, d, q=None, gas_=None, full=True):
    """both jets flow out and push: a cycle that works"""
    w = cycle(cls, q, gas_=gas_)
    P0 = (q or s)["P0"]
    # simplest condition first
    d.require(gt(w["Pt19"], P0 * num(Fraction(105, 100))))
    d.require(gt(w["Tt5"], num(300)))
    d.require(gt(w["Pt9"], P0 * num(Fraction(105, 100))))
    if full:
        d.require(gt(w["F"], num(1)))
    d.direct = False
    return d


def balances(cls, label):
    def sec(c):
        o = complete(c, cls)
        c.last_where = c.where_of(c.get(cls + ".stage_5"))
        a = lambda k: attr(c, o, k)
        d = sane(cls, cdom(cls))
        I = lambda n_, x, y: c.identity("%s: %s" % (label, n_), x, y, d, rule="cycle balance")
        P0, T0, M0, m, lam = s["P0"], s["T0"], s["M0"], s["m"], s["lambda_"]
        mc, mf, mk = a("m_c"), a("m_f"), a("m_k")
        al = a("alpha")
        I("flight total pressure", a("Pt0"), P0 * pt(M0, gc))
        I("flight total temperature", a("Tt0"), T0 * tt(M0, gc))
        I("flight speed", a("V0"), M0 * sqrt(gc * rc * T0))
        I("inlet loss", a("Pt2"), s["xi_e"] * a("Pt0"))
        I("inlet is adiabatic", a("Tt2"), a("Tt0"))
        I("mass flow split", mc + mf, m)
        I("bypass ratio", mf, lam * mc)
        I("compressor pressure ratio", a("Pt3"), s["pi_c"] * a("Pt2"))
        I("polytropic compressor", (a("Tt3") / a("Tt2")) ** (gc * s["eta_c"] / (gc - 1)), s["pi_c"])
        I("combustion energy balance", (mc + mk) * cph * s["Tt4"] - mc * cpc * a("Tt3"), s["eta_comb"] * mk * Pk)
        I("fuel air ratio", al * mc, mk)
        I("combustion loss", a("Pt4"), s["xi_cc"] * a("Pt3"))
        fan = mf * cpc * (a("Tt13") - a("Tt2"))
        comp = mc * cpc * (a("Tt3") - a("Tt2"))
        I("shaft power balance", s["eta_m"] * (mc + mk) * cph * (s["Tt4"] - a("Tt5")), comp + fan)
        I("polytropic turbine", (s["Tt4"] / a("Tt5")) ** (gh / ((gh - 1) * s["eta_turb"])), a("Pt4") / a("Pt5"))
        I("polytropic fan", (a("Tt13") / a("Tt2")) ** (gc * s["eta_f"] / (gc - 1)), a("Pt13") / a("Pt2"))
        if cls == FIX:
            I("fan pressure ratio", a("Pt13"), s["pi_f"] * a("Pt2"))
        else:
            I("fan pressure ratio", a("Pt13"), a("pi_f") * a("Pt2"))
            t4 = s["Tt4"] - comp / (s["eta_m"] * (mc + mk) * cph)
            p4 = a("Pt4") * (t4 / s["Tt4"]) ** (gh / ((gh - 1) * s["eta_turb"]))
            I("share of the ideal work given to the fan", t4 - a("Tt5"), s["taux_meca"] * t4 * (1 - (P0 / p4) ** ((gh - 1) / gh)))
        for k, gam, r_, src in (("9", gh, rh, "5"), ("19", gc, rc, "13")):
            I("nozzle loss (%s)" % k, a("Pt" + k), s["xi_tuy"] * a("Pt" + src))
            I("adiabatic nozzle (%s)" % k, a("Tt" + k), a("Tt" + src))
            I("jet energy (%s)" % k, a("V" + k) ** 2, 2 * gam * r_ / (gam - 1) * a("Tt" + k) * (1 - (a("Pt" + k) / P0) ** (-(gam - 1) / gam)))
            I("jet Mach number (%s)" % k, pt(a("M" + k), gam), a("Pt" + k) / P0)
        F = mc * (a("V9") - a("V0")) + mf * (a("V19") - a("V0"))
        dE = (mc * ((1 + al) * a("V9") ** 2 - a("V0") ** 2) + mf * (a("V19") ** 2 - a("V0") ** 2)) / 2
        I("thrust", a("F"), F)
        I("specific thrust", a("F_spe") * m, F)
        I("specific consumption in g/kN/s", a("mk_spe") * F, 1000000 * mk)
        I("thermal efficiency", a("eta_th") * mk * Pk, dE)
        I("propulsive efficiency", a("eta_prop") * dE, F * a("V0"))
        I("overall efficiency", a("eta") * mk * Pk, F * a("V0"))
        w = cycle(cls)
        for k in ("Tt5", "Tt13", "Pt9", "Pt19", "F", "mk_spe", "eta_th", "eta_prop", "eta"):
            I("%s from the parameters" % k, a(k), w[k])
    sec.__name__ = "balances_" + label
    return sec


STAGES = {FIX: ("stage_13", "stage_19", "stage_5", "stage_9", "perfo"),
          CAL: ("stage_4_etoile", "stage_5", "stage_9", "stage_13", "stage_19", "perfo")}
FRONT = ("InitialValues", "stage_2", "stage_3", "stage_4")


def histories(cls, label):
    def sec(c):
        """any sequence of stage calls, completed, gives the results of the straight computation"""
        ref = complete(c, cls)
        a = lambda k: attr(c, ref, k)
        want = {k: a(k) for k in RES}
        where = c.where_of(c.get(cls + ".calculs_5_to_9"))
        st = STAGES[cls]
        seqs = [()] + [tuple(st[:k]) for k in range(1, len(st) + 1)]
        seqs += [(x,) for x in st] + [(x, y) for x, y in product(st, st)]
        seqs += [("calculs_5_to_9",), ("calculs_1_to_4",), ("calculs_1_to_4", "calculs_5_to_9"), tuple(reversed(st)), st + st]
        seqs += [(x,) + tuple(st) for x in FRONT[1:]]
        # from the start again, stage by stage or all at once
        for done in ((), ("calculs_5_to_9",)):
            seqs += [done + FRONT[:k] + ("calculs_1_to_4",) + more for k in range(1, 5) for more in ((), ("calculs_5_to_9",))]
            seqs += [done + FRONT[:k] + (x, "calculs_1_to_4") for k in range(1, 4) for x in FRONT[1:]]
        seqs.append(FRONT[:1] + ("calculs_1_to_4",) + tuple(st))
        if c.thorough:
            seqs += list(product(st, st, st))
        bad, und, n_ = [], [], 0
        for q in seqs:
            o = make(c, cls)
            try:
                for k in q:
                    do(c, o, k)
                do(c, o, "calculs_5_to_9")
                got = {k: attr(c, o, k) for k in RES}
            except RaiseSignal as e:
                bad.append("%s: raises %s" % (" > ".join(q), e))
                continue
            n_ += 1
            for k in RES:
                if got[k] is not want[k]:
                    v = idn.equal(got[k], want[k], sane(cls, cdom(cls)), n=6)
                    if v.status == "differ":
                        bad.append("%s: %s differs" % (" > ".join(q), k))
                    elif not v.ok:
                        und.append(k)
        c.pending = []
        c.fact("%s: stage calls in any order" % label, False if bad else (None if und else True),
               "every sequence of stage calls, completed, reaches the same values (%d sequences)" % len(seqs), where=where, detail="; ".join(bad[:4]))
    sec.__name__ = "histories_" + label
    return sec


def instances(c):
    """two cycles do not influence each other"""
    for cls in (FIX, CAL):
        ref = complete(c, cls)
        want = {k: attr(c, ref, k) for k in RES}
        g1, g2 = gases(c)
        o = c.call(cls, *[sym(k + "'") for k in ARG], g1, g2, *[sym(k + "'") for k in OPT[cls]])
        do(c, o, "calculs_5_to_9")
        c.pending = []
        c.fact("%s: another cycle leaves this one alone" % cls.split(".")[-1], all(attr(c, ref, k) is want[k] for k in RES), "value numbers unchanged",
               where=c.where_of(c.get(cls + ".calculs_5_to_9")))


def siblings(c):
    """the class and the one-function version agree at the shared operating point"""
    i = c.i
    g1, g2 = gases(c, False)
    A = [s[k] for k in ARG]
    o = c.call(CAL, *A, g1, g2, s["taux_meca"])
    do(c, o, "calculs_5_to_9")
    f = c.get("aerokit.engine.propu_be_double_corps.calculs")
    w = c.where_of(f)
    out = i.np.iterate(i, c.call(f, *A, s["taux_meca"]), None)[1]
    d = cdom(CAL)
    d.ranges = {k: v for k, v in d.ranges.items() if k in ARG or k in OPT[CAL]}
    a = lambda k: attr(c, o, k)
    base = {k: num(Fraction(v)) for k, v in zip(CLS, "22700 217 0.8 0.97 0.9 0.89 0.99 0.95 0.98 0.88 0.97".split())}
    ref = [num(Fraction(x)) for x in ("1.4", "287", "1.33", "291.6", "42800000")]
    base.update({k: s[k] for k in (*ARG, *OPT[CAL], *OPT[FIX])})
    sane(CAL, d, base, ref, False)
    for k, v in zip(("F_spe", "mk_spe", "eta_th", "eta_prop", "eta", "pi_f"), out):
        c.identity("calculated fan: %s of the class and of the function" % k, scal(c, v), a(k), d, where=w, rule="sibling implementations agree", rtol="1e-7")
    for mod in ("propu_be_double_corps", "propu_be"):
        for k in CLS:
            try:
                x, y = (scal(c, q) for q in (c.get("aerokit.engine.%s.%s" % (mod, k)), attr(c, c.get(CT + "cycle_1_to_4"), k)))
            except Exception:
                continue
            c.fact("operating point of %s and of the class: %s" % (mod, k), True if x is y else (False if not tm.free_syms(x) | tm.free_syms(y) else None),
                   "sibling implementations agree", where=w, detail="%r, %r" % (x, y))
    o = c.call(FIX, *A, g1, g2, s["pi_f"])
    do(c, o, "calculs_5_to_9")
    f = c.get("aerokit.engine.propu_be.calculs")
    w = c.where_of(f)
    ev0 = len(i.events)
    lam, pc, t4, m = A
    res = c.call(f, lam, pc, t4, s["pi_f"], m)
    shown, last = {}, None
    for e in i.events[ev0:]:
        if e.kind == "format":
            last = e.data["args"][0]
        if e.kind == "print":
            v = e.data["args"]
            if len(v) == 2 and isinstance(v[0], str) and last is not None:
                shown[v[0].strip(" =")] = last
            last = None
    d = cdom(FIX)
    d.ranges = {k: v for k, v in d.ranges.items() if k in ARG or k in OPT[FIX]}
    sane(FIX, d, base, ref, False)
    for k, n_ in (("F", "F"), ("F_spe", "Fspe"), ("mk_spe", "conso spe"), ("eta_th", "eta_th"), ("eta_prop", "eta_prop"), ("eta", "eta")):
        v = shown.get(n_)
        if v is None:
            c.add("fixed fan: %s of the class and of the function" % k, w, "sibling implementations agree", "undecided", "not printed")
            continue
        c.identity("fixed fan: %s of the class and of the function" % k, scal(c, v), a(k), d, where=w, rule="sibling implementations agree", rtol="1e-7")


def optimum(c):
    """fan temperature ratio that gives both jets of the ideal engine the same velocity"""
    i = c.i
    f = c.get("aerokit.engine.propu_be_double_corps.calculs_tau_optimum")
    w = c.where_of(f)
    lam, pc, t4, m = A = [s[k] for k in ARG]
    n0 = len(i.events)
    c.call(f, *A)
    c.pending = []
    shown = [e.data["args"] for e in i.events[n0:] if e.kind == "print"]
    shown = [a[-1] for a in shown if a]
    if not shown:
        c.add("optimum fan temperature ratio", w, "equal jet velocities", "undecided", "nothing is printed")
        return
    d = cdom(CAL)
    k = {q: scal(c, c.get("aerokit.engine.propu_be_double_corps." + q)) for q in ("T0", "M0", "r", "r_", "gamma", "gamma_", "eta_c")}
    cp, cp_ = k["r"] * k["gamma"] / (k["gamma"] - 1), k["r_"] * k["gamma_"] / (k["gamma_"] - 1)
    tr = 1 + (k["gamma"] - 1) / 2 * k["M0"] ** 2
    tc = pc ** ((k["gamma"] - 1) / (k["eta_c"] * k["gamma"]))
    tl = cp_ * t4 / (cp * k["T0"])
    # ideal engine, by energy: core jet  tl - tr (tc-1) - lam tr (tf-1) - tl/(tr tc),  fan jet  tr tf - 1
    tf = (tl - tr * (tc - 1) - tl / (tr * tc) + lam * tr + 1) / (tr * (1 + lam))
    c.identity("optimum fan temperature ratio", scal(c, shown[0]), tf, d, where=w, rule="equal jet velocities of the ideal engine")
    if len(shown) == 5:
        for n_, x, y in zip(("flight temperature ratio", "compressor temperature ratio", "combustion enthalpy ratio", "fan exit temperature"), shown[1:], (tr, tc, tl, k["T0"] * tr * tf)):
            c.identity("optimum: %s" % n_, scal(c, x), y, d, where=w, rule="printed in this order")


DC = "aerokit.engine.propu_be_double_corps."


def figures(c):
    """each figure shows how the five performances depend on one parameter, the others at their base values"""
    i = c.i
    i.opaque[DC + "calculs"] = lambda i_, f, a, kw, node: tuple(tm.app("calculs%d" % k, *[scal(c, x) for x in bind(f, a, kw)]) for k in range(6))
    f = c.get(DC + "main")
    w = c.where_of(f)
    lim = [sym(k) for k in ("l0", "l1", "p0", "p1", "t0", "t1")]
    n0 = len(i.events)
    c.call(f, *lim)
    c.pending = []
    figs, shown = [], 0
    for e in i.events[n0:]:
        if e.kind != "sink":
            continue
        leaf, a = e.data["func"].split(".")[-1], e.data["args"]
        if leaf == "figure":
            figs.append(dict(curves=[], y=[], x=[], at=[], num=e.data["kw"].get("num", a[0] if a else None)))
        elif leaf == "show":
            shown += 3 if e.data["func"].startswith("matplotlib.pyplot.show") else 1
        elif not figs:
            continue
        elif leaf == "plot":
            figs[-1]["curves"].append(e.data["seen"])
        elif leaf == "subplot":
            figs[-1]["at"].append(a)
        elif leaf == "ylabel":
            figs[-1]["y"].append((len(figs[-1]["curves"]), a[0]))
        elif leaf == "xlabel":
            figs[-1]["x"].append(a[0])
    base = [num(Fraction("6.1")), num(Fraction("32.8")), num(1410), num(180), num(Fraction("0.5"))]
    d = Domain()
    for k, r in zip(("l0", "l1", "p0", "p1", "t0", "t1"), (("2", "4"), ("5", "9"), ("10", "20"), ("25", "40"), (1300, 1400), (1500, 1800))):
        d.add(k, r)
    for k in range(6):
        d.funcs["calculs%d" % k] = (lambda k: lambda *a: sum(x * (j + k + 2) ** (k % 3 + 1) / 7 for j, x in enumerate(a)) + (k + 1) * a[0] * a[1] / 11)(k)
    c.fact("parametric study: figures", (len(figs) == 3) if figs else None, "one figure per parameter", where=w, detail="%d figures" % len(figs))
    if len(figs) != 3:
        return
    nums = [q["num"] for q in figs]
    if all(isinstance(q, (int, str)) for q in nums):
        c.fact("parametric study: a figure of its own for each parameter", len(set(nums)) == 3, "distinct figure numbers", where=w, detail=str(nums))
    c.fact("parametric study: figures shown", shown >= 3, "each figure is shown", where=w, detail="%d shown" % shown)
    for n_, (name, fig) in enumerate(zip(("bypass ratio", "compressor pressure ratio", "turbine entry temperature"), figs)):
        c.fact("study of the %s: curves" % name, len(fig["curves"]) == 5, "one curve per performance", where=w, detail="%d curves" % len(fig["curves"]))
        if len(fig["curves"]) != 5:
            continue
        at = [[x for x in q if isinstance(x, int)] for q in fig["at"]]
        if len(at) == 5 and all(len(q) == 3 for q in at):
            c.fact("study of the %s: places of the curves" % name, len({q[2] for q in at}) == 5 and all(1 <= q[2] <= q[0] * q[1] for q in at),
                   "each curve has its own place in the figure", where=w, detail=str(at))
        labels = [[x for _, x in fig["y"]]] if len(fig["y"]) == 5 else []
        c.fact("study of the %s: names of the curves" % name, labels == [["Fspe", "mk_spe", "eta_th", "eta_prop", "eta_global"]] if labels else False,
               "each ordinate is named, in the order of the curves", where=w, detail=str(fig["y"]))
        for k, (x, y) in enumerate(fig["curves"]):
            if x is None or y is None or x.k == "s" or y.k == "s":
                c.add("study of the %s: curve %d" % (name, k), w, "performance against parameter", "undecided", "curve not recognised")
                continue
            for q in (0, 1, 7, 19):
                xv = lim[2 * n_] + (lim[2 * n_ + 1] - lim[2 * n_]) * num(Fraction(q, 19))
                arg = list(base)
                arg[n_] = xv
                pick = lambda l: tm.subst(l.v, {IDX: num(q)}) if l.k == "a" else l.v.flat[q]
                if any(l.k == "n" and l.v.size != 20 for l in (x, y)):
                    c.fact("study of the %s: number of points" % name, False, "20 points", where=w)
                    break
                c.identity("study of the %s: abscissa of curve %d" % (name, k), pick(x), xv, d, where=w, rule="performance against parameter", n=6)
                c.identity("study of the %s: ordinate of curve %d" % (name, k), pick(y), tm.app("calculs%d" % k, *arg), d, where=w, rule="performance against parameter", n=6)


def bind(f, a, kw):
    names_ = [x.arg for x in f.node.args.args]
    v = dict(zip(names_, a))
    v.update(kw)
    return [v[k] for k in names_]


def run(c):
    c.section(optimum)
    c.section(figures)
    for cls, label in ((FIX, "given fan pressure ratio"), (CAL, "given fan work share")):
        c.section(balances(cls, label))
        c.section(histories(cls, label))
    c.section(instances)
    c.section(siblings)
