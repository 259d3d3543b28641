"""C21 engine parameters act; an update forgets the previous one."""
from .common import *
from .. import identity as idn
from .c20 import GG, TJ, TF, FLY, names, edom, engine, update, oracle, s, P0, T0, M0

METHODS = {GG: ("Wsp_cc", "Wsp_TBP_ideal", "thermal_efficiency"),
           TJ: ("Wsp_cc", "Wsp_kinEn", "norm_thrust", "spec_thrust", "thermal_efficiency", "propulsive_efficiency", "thermoprop_efficiency", "Sfc")}
METHODS[TF] = METHODS[TJ]
FIELDS = {GG: ("Tt0", "Pt0", "V0", "Pt2", "Tt2", "Pt3", "Tt3", "Pt4", "far", "Tt45", "Pt45")}
FIELDS[TJ] = FIELDS[GG] + ("Pt9", "M9", "V9")
FIELDS[TF] = FIELDS[TJ] + ("Tt5", "Pt5", "Tt17", "Pt17", "Tt19", "Pt19", "M19", "V19")
FLYING = ("T0", "P0", "M0")


def results(c, e, cls):
    out = {k: attr(c, e, k) for k in FIELDS[cls]}
    out.update({k + "()": meth(c, e, k) for k in METHODS[cls]})
    return out


def sane(d, c, e, cls):
    w = oracle(cls)
    d.require(gt(w["Pt45"] * (s["xi_nozzle"] if cls != GG else 1), P0 * num(Fraction(11, 10))))
    if cls == TF:
        d.require(gt(w["Pt19"], P0 * num(Fraction(11, 10))))
    return d


def effective(cls):
    def sec(c):
        """each constructor parameter and each flight condition reaches the overall results"""
        t = cls.split(".")[-1]
        e = engine(c, cls)
        update(c, e)
        d = sane(edom(cls), c, e, cls)
        f = c.get(cls + ".update")
        where = c.where_of(f)
        out = {"Wsp_TBP_ideal": meth(c, e, "Wsp_TBP_ideal"), "thermal_efficiency": meth(c, e, "thermal_efficiency")} if cls == GG else \
              {"norm_thrust": meth(c, e, "norm_thrust"), "thermoprop_efficiency": meth(c, e, "thermoprop_efficiency")}
        d.direct = False
        for p in [k for q in names(cls) for k in q] + ["T0", "M0"]:
            dep = [n_ for n_, v in out.items() if p in tm.free_syms(v)]
            if not dep:
                c.fact("%s: %s acts on the performance" % (t, p), False, "parameter in the dependence set of the results", where=where)
                continue
            v = [idn.independent(out[n_], [p], d, n=6) for n_ in dep]
            c.fact("%s: %s acts on the performance" % (t, p), any(q.status == "differ" for q in v) or (None if any(q.status == "undecided" for q in v) else False),
                   "parameter in the dependence set of the results", where=where, detail=",".join(dep))
        for n_, v in out.items():
            c.independent("%s: %s does not depend on the ambient pressure" % (t, n_), v, ["P0"], d, where=where, n=8,
                          rule="per unit of air flow, only pressure ratios matter")
            c.independent("%s: %s reads no default gas" % (t, n_), v, ["dflt:*", "hist:*"], d, where=where,
                          rule="default gas not in the dependence set when gases are given")
    sec.__name__ = "effective_" + cls.split(".")[-1]
    return sec


def history(cls):
    def sec(c):
        t = cls.split(".")[-1]
        ref = engine(c, cls)
        update(c, ref)
        d = sane(edom(cls), c, ref, cls)
        want = results(c, ref, cls)
        for k, v in FLY.items():
            d.add(k + "'", v)
        fl = {k: sym(k + "'") for k in FLYING}
        # 1. updated twice  2. updated at another flight point first  3. results read before the update
        e = engine(c, cls)
        update(c, e)
        update(c, e)
        a = results(c, e, cls)
        e = engine(c, cls, fly=fl)
        update(c, e)
        results(c, e, cls)
        c.call(c.i.getattr(e, "flight_conditions", None), T0=T0, P0=P0, M0=M0)
        update(c, e)
        b = results(c, e, cls)
        c.pending = [] # exceptions at the other flight point are not this obligation's subject
        # 4. parameters changed on an existing engine
        q = {}
        e = engine(c, cls, {k: sym(k + "'") for p in names(cls) for k in p})
        for p in names(cls):
            for k, v in p.items():
                d.add(k + "'", v)
        update(c, e)
        for p in names(cls):
            for k in p:
                c.i.setattr(e, k, s[k], None)
        update(c, e)
        q = results(c, e, cls)
        c.pending = []
        for k in want:
            c.identity("%s: %s after a second update" % (t, k), a[k], want[k], d, rule="value numbers equal", n=8)
            c.identity("%s: %s after another flight point" % (t, k), b[k], want[k], d, rule="value numbers equal", n=8)
            c.identity("%s: %s after a change of the parameters" % (t, k), q[k], want[k], d, rule="value numbers equal", n=8)
    sec.__name__ = "history_" + cls.split(".")[-1]
    return sec


def single(cls):
    def sec(c):
        """one parameter or flight condition changed on an existing engine"""
        t = cls.split(".")[-1]
        ref = engine(c, cls)
        update(c, ref)
        d = sane(edom(cls), c, ref, cls)
        want = results(c, ref, cls)
        where = c.where_of(c.get(cls + ".update"))
        rng = dict(FLY)
        for p in names(cls):
            rng.update(p)
        for k, v in rng.items():
            d.add(k + "'", v)
        for k in rng:
            e = engine(c, cls, {} if k in FLY else {k: sym(k + "'")}, {f: sym(f + "'" if f == k else f) for f in FLYING})
            update(c, e)
            results(c, e, cls)
            if k in FLY:
                c.call(c.i.getattr(e, "flight_conditions", None), T0=T0, P0=P0, M0=M0)
            else:
                c.i.setattr(e, k, s[k], None)
            update(c, e)
            c.pending = []
            got = results(c, e, cls)
            bad = [n_ for n_ in want if got[n_] is not want[n_]]
            if not bad:
                c.fact("%s: after a change of %s alone" % (t, k), True, "value numbers equal", where=where)
            for n_ in bad[:4]:
                c.identity("%s: %s after a change of %s alone" % (t, n_, k), got[n_], want[n_], d, where=where, rule="value numbers equal", n=8)
    sec.__name__ = "single_" + cls.split(".")[-1]
    return sec


def two_engines(c):
    """one engine does not change another"""
    for cls in (TJ, TF):
        e = engine(c, cls)
        update(c, e)
        want = results(c, e, cls)
        o = engine(c, cls, {k: sym(k + "'") for p in names(cls) for k in p}, {k: sym(k + "'") for k in FLYING})
        update(c, o)
        c.pending = []
        got = results(c, e, cls)
        ok = all(want[k] is got[k] for k in want)
        c.fact("%s: a second engine leaves the first alone" % cls.split(".")[-1], ok, "results unchanged", where=c.where_of(c.get(cls + ".update")))


def run(c):
    for cls in (GG, TJ, TF):
        c.section(effective(cls))
        c.section(history(cls))
        c.section(single(cls))
    c.section(two_engines)
