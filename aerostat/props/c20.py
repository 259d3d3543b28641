"""C20 engine cycle balances."""
from .common import *

GG = "aerokit.engine.gasgenerator.base"
TJ = "aerokit.engine.turbojet.turbojet_opt"
TF = "aerokit.engine.turbofan.turbofan_adapt"

PAR = dict(OPR=("8", "40", "log", "1.01", 200), Tt4=("1300", "1900", "lin", 500, 3500), gam_cold=("1.36", "1.42", "lin", "1.2", "1.67"), gam_hot=("1.28", "1.34", "lin", "1.15", "1.5"), r_cold=("270", "300", "log", "100", "2000"), r_hot=("270", "300", "log", "100", "2000"),
           xi_inlet=("0.9", "1", "lin", "0.5", "1"), xi_cc=("0.9", "1", "lin", "0.5", "1"), eta_cc=("0.9", "1", "lin", "0.5", "1"), Pci=("4e7", "4.4e7", "log", "1e7", "1.5e8"),
           etapolCHP=("0.86", "1", "lin", "0.5", "1"), etapolTHP=("0.86", "1", "lin", "0.5", "1"), eta_shaft=("0.95", "1", "lin", "0.5", "1"))
NOZ = dict(xi_nozzle=("0.93", "1", "lin", "0.5", "1"))
FAN = dict(bpr=("0.3", "7", "log", "1e-3", 100), fanpower_ratio=("0.1", "0.9", "lin", "0.001", "0.999"), etapolTBP=("0.86", "1", "lin", "0.5", "1"), etapolfan=("0.86", "1", "lin", "0.5", "1"))
FLY = dict(T0=("200", "300", "lin", 100, 450), P0=("2e4", "1e5", "log", 10, "1e7"), M0=("0.1", "2.2", "lin", 0, 4))

s = {k: sym(k) for k in (*PAR, *NOZ, *FAN, *FLY)}
gc, gh, rc, rh = s["gam_cold"], s["gam_hot"], s["r_cold"], s["r_hot"]
cpc, cph = gc * rc / (gc - 1), gh * rh / (gh - 1)
T0, P0, M0 = s["T0"], s["P0"], s["M0"]


def names(cls):
    return {GG: (PAR,), TJ: (PAR, NOZ), TF: (PAR, NOZ, FAN)}[cls]


def edom(cls, **kw):
    d = dom(**FLY)
    for p in names(cls):
        for k, v in p.items():
            d.add(k, v)
    for k, v in kw.items():
        d.add(k, v)
    return d


def engine(c, cls, over=None, fly=None):
    kw = {k: s[k] for p in names(cls) for k in p}
    kw.update(over or {})
    e = c.call(cls, **kw)
    c.call(c.i.getattr(e, "flight_conditions", None), **(fly or dict(T0=T0, P0=P0, M0=M0)))
    return e


def update(c, e):
    c.call(c.i.getattr(e, "update", None))


def oracle(cls):
    """the cycle from its parameters, by the energy balances"""
    w = {}
    tt2, pt2 = T0 * tt(M0, gc), s["xi_inlet"] * P0 * pt(M0, gc)
    tt3 = tt2 * s["OPR"] ** ((gc - 1) / (gc * s["etapolCHP"]))
    pt4 = s["xi_cc"] * s["OPR"] * pt2
    w["far"] = far = (cph * s["Tt4"] - cpc * tt3) / (s["eta_cc"] * s["Pci"] - cph * s["Tt4"])
    w["Tt45"] = s["Tt4"] - cpc * (tt3 - tt2) / (s["eta_shaft"] * (1 + far) * cph)
    w["Pt45"] = pt4 * (w["Tt45"] / s["Tt4"]) ** (gh / ((gh - 1) * s["etapolTHP"]))
    if cls == GG:
        w["thermal_efficiency()"] = (1 + far) * cph * w["Tt45"] * (1 - (P0 / w["Pt45"]) ** ((gh - 1) / gh)) / (far * s["Pci"])
        return w
    v0 = M0 * sqrt(gc * rc * T0)
    jet_ = lambda t, p, g_, r_: sqrt(2 * g_ * r_ / (g_ - 1) * t * (1 - (P0 / p) ** ((g_ - 1) / g_)))
    w["Pt9"], w["Tt9"] = s["xi_nozzle"] * w["Pt45"], w["Tt45"]
    extra, kin = num(0), num(0)
    if cls == TF:
        drop = s["fanpower_ratio"] * w["Tt45"] * (1 - (P0 / w["Pt9"]) ** ((gh - 1) * s["etapolTBP"] / gh))
        w["Tt9"] = w["Tt45"] - drop
        w["Pt9"] = w["Pt9"] * (w["Tt9"] / w["Tt45"]) ** (gh / ((gh - 1) * s["etapolTBP"]))
        w["Tt19"] = tt2 + s["eta_shaft"] * (1 + far) * cph * drop / (s["bpr"] * cpc)
        w["Pt19"] = s["xi_nozzle"] * pt2 * (w["Tt19"] / tt2) ** (gc * s["etapolfan"] / (gc - 1))
        w["V19"] = jet_(w["Tt19"], w["Pt19"], gc, rc)
        extra, kin = s["bpr"] * (w["V19"] - v0), s["bpr"] * (w["V19"] ** 2 - v0 ** 2)
    w["V9"] = jet_(w["Tt9"], w["Pt9"], gh, rh)
    thrust, kin = (1 + far) * w["V9"] - v0 + extra, ((1 + far) * w["V9"] ** 2 - v0 ** 2 + kin) / 2
    w["norm_thrust()"] = thrust
    w["spec_thrust()"] = thrust / (1 + s["bpr"]) if cls == TF else thrust
    w["thermal_efficiency()"], w["thermoprop_efficiency()"] = kin / (far * s["Pci"]), thrust * v0 / (far * s["Pci"])
    w["propulsive_efficiency()"], w["Sfc()"] = thrust * v0 / kin, far / thrust
    return w


def direct(c, e, cls, I):
    t = oracle(cls)
    for k, v in t.items():
        if k == "Tt9":
            continue
        I("%s from the parameters" % k, meth(c, e, k[:-2]) if k.endswith("()") else attr(c, e, k), v)


def core(c, cls):
    t = cls.split(".")[-1] if cls != GG else "gas generator"
    e = engine(c, cls)
    update(c, e)
    c.last_where = c.where_of(c.get(cls + ".update"))
    a = lambda k: attr(c, e, k)
    d = edom(cls)
    far = a("far")
    I = lambda name, x, y, rule="cycle balance": c.identity("%s: %s" % (t, name), x, y, d, rule=rule)
    I("total temperature of the flight", a("Tt0"), T0 * tt(M0, gc))
    I("total pressure of the flight", a("Pt0"), P0 * pt(M0, gc))
    I("flight speed", a("V0"), M0 * sqrt(gc * rc * T0))
    I("inlet total pressure loss", a("Pt2"), s["xi_inlet"] * a("Pt0"))
    I("inlet is adiabatic", a("Tt2"), a("Tt0"))
    I("overall pressure ratio", a("Pt3"), s["OPR"] * a("Pt2"))
    I("polytropic compression", (a("Tt3") / a("Tt2")) ** (gc * s["etapolCHP"] / (gc - 1)), a("Pt3") / a("Pt2"))
    I("combustion pressure loss", a("Pt4"), s["xi_cc"] * a("Pt3"))
    I("turbine entry temperature", a("Tt4"), s["Tt4"])
    I("combustion energy balance", (1 + far) * cph * s["Tt4"] - cpc * a("Tt3"), far * s["eta_cc"] * s["Pci"])
    I("shaft power balance", s["eta_shaft"] * (1 + far) * cph * (s["Tt4"] - a("Tt45")), cpc * (a("Tt3") - a("Tt2")))
    I("polytropic expansion", (a("Tt4") / a("Tt45")) ** (gh / ((gh - 1) * s["etapolTHP"])), a("Pt4") / a("Pt45"))
    I("heat released per kg of air", meth(c, e, "Wsp_cc"), far * s["Pci"])
    x = sym("x")
    d2 = edom(cls, x=("1.1", "3", "log", "1e-3", "3"))
    ideal = lambda q: (1 + far) * cph * (a("Tt45") - a("Tt45") * (q / a("Pt45")) ** ((gh - 1) / gh))
    c.identity("%s: ideal expansion work to a pressure" % t, meth(c, e, "Wsp_TBP_ideal", P0 * x), ideal(P0 * x), d2, rule="cycle balance")
    c.identity("%s: ideal expansion work to ambient" % t, meth(c, e, "Wsp_TBP_ideal"), ideal(P0), d, rule="cycle balance")
    if cls == GG:
        direct(c, e, cls, I)
        c.identity("%s: thermal efficiency" % t, meth(c, e, "thermal_efficiency") * far * s["Pci"], ideal(P0), d, rule="cycle balance")
    return e, a, d, I, far


def jet(I, name, v, m, tt_, pt_, gam, r_, p):
    I("%s: energy" % name, v * v, 2 * gam * r_ / (gam - 1) * tt_ * (1 - (pt_ / p) ** (-(gam - 1) / gam)))
    I("%s: expands to ambient pressure" % name, pt(m, gam), pt_ / p)


def performance(c, e, a, I, d, far, thrust, kin, air):
    m = lambda k: meth(c, e, k)
    I("thrust per kg of core air", m("norm_thrust"), thrust)
    I("specific thrust", m("spec_thrust") * air, thrust)
    I("kinetic energy per kg of core air", m("Wsp_kinEn"), kin)
    I("thermal efficiency", m("thermal_efficiency") * far * s["Pci"], kin)
    I("propulsive efficiency", m("propulsive_efficiency") * kin, thrust * a("V0"))
    I("overall efficiency", m("thermoprop_efficiency") * far * s["Pci"], thrust * a("V0"))
    I("overall efficiency is the product", m("thermoprop_efficiency"), m("thermal_efficiency") * m("propulsive_efficiency"))
    I("specific consumption", m("Sfc") * thrust, far)


def gasgen(c):
    core(c, GG)


def turbojet(c):
    e, a, d, I, far = core(c, TJ)
    O = oracle(TJ)
    d.require(gt(O["Pt9"], P0))
    direct(c, e, TJ, I)
    I("nozzle total pressure loss", a("Pt9"), s["xi_nozzle"] * a("Pt45"))
    jet(I, "jet", a("V9"), a("M9"), a("Tt45"), a("Pt9"), gh, rh, P0)
    v9, v0 = a("V9"), a("V0")
    performance(c, e, a, I, d, far, (1 + far) * v9 - v0, ((1 + far) * v9 * v9 - v0 * v0) / 2, num(1))
    # a core that cannot reach ambient pressure has no jet
    d = edom(TJ, Tt4=("760", "950"), OPR=("25", "60"), T0=("280", "300"))
    d.require(lt(O["Pt9"], P0 * num(Fraction(99, 100))))
    d.require(gt(O["Tt45"], num(100)))
    c.identity("turbojet_opt: no jet below ambient pressure", a("V9"), num(0), d, rule="nozzle entry pressure is at least ambient")


def turbofan(c):
    e, a, d, I, far = core(c, TF)
    phi, bpr = s["fanpower_ratio"], s["bpr"]
    O = oracle(TF)
    d.require(gt(O["Pt45"] * s["xi_nozzle"], P0 * num(Fraction(11, 10))))
    pl = (a("Pt45") * s["xi_nozzle"] / P0) ** (-(gh - 1) * s["etapolTBP"] / gh)
    I("share of the available power given to the fan", a("Tt45") - a("Tt5"), phi * a("Tt45") * (1 - pl))
    I("polytropic expansion of the low pressure turbine", (a("Tt45") / a("Tt5")) ** (gh / ((gh - 1) * s["etapolTBP"])), a("Pt45") / a("Pt5"))
    I("fan power balance", s["eta_shaft"] * (1 + far) * cph * (a("Tt45") - a("Tt5")), bpr * cpc * (a("Tt17") - a("Tt2")))
    I("polytropic fan", (a("Tt17") / a("Tt2")) ** (gc * s["etapolfan"] / (gc - 1)), a("Pt17") / a("Pt2"))
    I("nozzle total pressure loss", a("Pt9"), s["xi_nozzle"] * a("Pt5"))
    I("bypass nozzle total pressure loss", a("Pt19"), s["xi_nozzle"] * a("Pt17"))
    I("bypass nozzle is adiabatic", a("Tt19"), a("Tt17"))
    jet(I, "core jet", a("V9"), a("M9"), a("Tt5"), a("Pt9"), gh, rh, P0)
    d.require(gt(O["Pt19"], P0))
    direct(c, e, TF, I)
    jet(I, "bypass jet", a("V19"), a("M19"), a("Tt17"), a("Pt19"), gc, rc, P0)
    v9, v0, w = a("V9"), a("V0"), a("V19")
    performance(c, e, a, I, d, far, (1 + far) * v9 - v0 + bpr * (w - v0),
                ((1 + far) * v9 * v9 - v0 * v0 + bpr * (w * w - v0 * v0)) / 2, 1 + bpr)


def limits(c):
    """no power to the fan: the core of a turbojet; all of it: no core jet"""
    e0 = engine(c, TF, {"fanpower_ratio": num(0)})
    update(c, e0)
    j = engine(c, TJ)
    update(c, j)
    d = edom(TF)
    a = lambda o, k: attr(c, o, k)
    d.require(gt(oracle(TJ)["Pt9"], P0 * num(Fraction(11, 10))))
    for k in ("far", "Tt45", "Pt45", "Pt9", "M9", "V9"):
        c.identity("no fan power: core as a turbojet: %s" % k, a(e0, k), a(j, k), d, rule="turbofan without fan power is the turbojet")
    c.identity("no fan power: no compression", a(e0, "Pt17"), a(e0, "Pt2"), d)
    e1 = engine(c, TF, {"fanpower_ratio": num(1)})
    update(c, e1)
    c.identity("full fan power: expands to ambient pressure", a(e1, "Pt9"), P0, d)


def run(c):
    for f in (gasgen, turbojet, turbofan, limits):
        c.section(f)
