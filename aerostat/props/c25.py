"""C25 arrays are computed entry by entry, whatever their number type."""
import numpy as _np

from .common import *
from .c02 import TABLE

ONE = {"aerokit.instance.nozzle.Ms_from_AsAc_NPR"}      # one regime per call
n_ = sym("n")
S = "aerokit.aero.ShockWave."
# one case per call: arguments that are single numbers
SINGLE = {S + "Mn_Pt_ratio": ("ptratio", "gamma"), S + "weaksigma_Mach_deflection": ("Mach", "deflection", "gamma"),
          S + "strongsigma_Mach_deflection": ("Mach", "deflection", "gamma"), S + "sigma_Mach_deflection": ("Mach", "gamma"),
          "aerokit.aero.Supersonic.old_Mach_PrandtlMeyer": ("gamma",), "aerokit.aero.Propulsion.Mach_ThrustFunction": ("gamma",)}
# one number unless another argument is an array too
ALONE = {"aerokit.aero.MassFlow.Mach_Sigma": ("gamma",), "aerokit.aero.Supersonic.Mach_PrandtlMeyer": ("gamma",)}
CONST = {"aerokit.aero.Rayleigh.maxTiratio_Mach": ("gamma",), "aerokit.aero.MassFlow.WeightMassFlow": ("r",)}    # does not enter (C02, C10)
RULE = "entry i of the result is the result of entry i"


def domain(ranges):
    d = gdom(n=(1, 6, "int"), **{"@i": (0, 5, "int")})
    d.require(lt(tm.IDX, n_))
    for k, v in ranges.items():
        d.appranges["A_" + k] = v
        d.add(k, v)
    return d


def takes(name, arr):
    """the function takes arrays for these arguments"""
    return not set(arr) & set(SINGLE.get(name, ())) and not set(arr) <= set(ALONE.get(name, ()))


def accepted(c, lab, n0, d, where):
    """no decision on a whole array, no array equation started from a number"""
    d = d.copy()
    d.require(gt(n_, num(1)))
    bad = [e for e in c.i.events[n0:] if e.kind in ("array-truth", "solver-shape")]
    for e in bad:
        if e.pc is tm.TRUE:
            c.fact("%s: arrays taken" % lab, False, "no branch on a whole array", where=e.where)
            return
    for e in bad[:3]:
        c.condition("%s: arrays taken" % lab, tm.notv(e.pc), d, where=e.where, rule="no branch on a whole array")
    if not bad:
        c.fact("%s: arrays taken" % lab, True, "no branch on a whole array", where=where)


def elem(c, v):
    if isinstance(v, Gate):
        return ite(v.c, elem(c, v.a), elem(c, v.b))
    if isinstance(v, Ref):
        return c.i.np.elem_of(c.i, v)
    return scal(c, v)


def one(name, ranges):
    def sec(c):
        i = c.i
        roots(c)
        short = ".".join(name.split(".")[-2:])
        d = domain(ranges)
        d.appranges["A_gamma"] = GAM
        allr = dict(ranges, gamma=GAM)
        earlier = []
        for dt, word in (("float", "array"), ("int?", "integer array")):
            for mode in (["all"] if len(ranges) > 1 else []) + list(ranges) + ["gamma"] + ["gamma, " + k for k in ranges]:
                arr = [k for k in allr if k in mode.split(", ") or mode == "all" and k != "gamma"]
                if mode == "gamma" and dt != "float":
                    continue
                if not takes(name, arr):
                    continue
                n0 = len(i.events)
                kw = {k: i.np.new_arr(i, tm.app("A_" + k, tm.IDX), n_, dtype=dt if k != "gamma" else "float") if k in arr else sym(k)
                      for k in allr}
                one_ = {k: tm.app("A_" + k, tm.IDX) if k in arr else sym(k) for k in allr}
                out = c.call(name, **kw)
                v = elem(c, out)
                if dt == "float":
                    earlier.append((arr, out, v))
                c.pending = []
                accepted(c, "%s: %s of %s" % (short, word, ", ".join(arr)), n0, d, c.where_of(c.get(name)))
                w = scal(c, c.call(name, **one_))
                c.pending = []
                lab = "%s: %s of %s" % (short, word, ", ".join(arr))
                if v is not w and tm.apps("root", w):
                    same_roots(c, lab, v, w, d)
                    continue
                c.identity(lab, v, w, d, n=12, rule="entry i of the result is the result of entry i")
        # other values in an array of the same length
        if earlier:
            arr, out, v = earlier[0]
            c.call(name, **{k: i.np.new_arr(i, tm.app("B_" + k, tm.IDX), n_) if k in arr else sym(k) for k in allr})
            c.pending = []
            unchanged(c, "%s: earlier result" % short, elem(c, out), v, d)
    sec.__name__ = name
    return sec


def unchanged(c, lab, now, before, d, where=None):
    """a result keeps its values when the function is used again"""
    rule = "results of different calls share nothing"
    if now is before:
        c.fact(lab, True, rule, where=where)
        return
    d = d.copy()
    for k, v in list(d.appranges.items()):
        if k.startswith("A_"):
            d.appranges["B_" + k[2:]] = v
    c.identity(lab, now, before, d, n=12, rule=rule)


def grid(name, ranges):
    """arrays of two dimensions, a column against a row, a single entry"""
    def sec(c):
        i = c.i
        roots(c)
        short = ".".join(name.split(".")[-2:])
        allr = dict(ranges, gamma=GAM)
        keys = list(ranges)
        for word, shapes in (("2x2 array", [(2, 2)] * len(keys)), ("column and row", [(2, 1), (1, 2)]), ("array of one entry", [(1,)] * len(keys)),
                             ("1x1 array", [(1, 1)] * len(keys)), ("column and gamma row", [(2, 1)] * len(keys) + [(1, 2)])):
            if word == "column and row" and len(keys) < 2:
                continue
            ks = keys + (["gamma"] if len(shapes) > len(keys) else [])
            if name in ALONE and len(ks) > len(keys) and "Mach" not in keys:
                continue        # the start has the shape of the target
            if not takes(name, ks) or set(ks) & set(CONST.get(name, ())):
                continue
            d = Domain()
            d.brackets = [("1e-6", 1), (1, "1e6")]
            kw, names = {}, {}
            for k, sh in zip(ks, shapes):
                a = _np.empty(sh, dtype=object)
                for ix in _np.ndindex(*sh):
                    nm = "%s_%s" % (k, "_".join(map(str, ix)))
                    a[ix] = sym(nm)
                    d.add(nm, allr[k])
                kw[k] = i.np.new_nd(i, a)
                names[k] = a
            for k in allr:
                if k not in kw:
                    kw[k] = sym(k)
                    d.add(k, allr[k])
            lab = "%s: %s" % (short, word)
            v = c.call(name, **kw)
            c.pending = []
            full = _np.broadcast(*names.values()) if len(names) > 1 else next(iter(names.values()))
            l = c.i.np.lifted(c.i, v)
            where = c.where_of(c.get(name))
            if l is None or l.k == "a":
                c.add(lab, where, RULE, "undecided", "result not represented")
                continue
            bc = {k: _np.broadcast_to(a, full.shape) for k, a in names.items()}
            if l.k == "s":
                got = {ix: l.v for ix in _np.ndindex(*full.shape)} if full.size == 1 else None
            else:
                got = {ix: l.v.reshape(full.shape)[ix] for ix in _np.ndindex(*full.shape)} if l.v.size == full.size and (full.size == 1 or l.v.shape == full.shape) else None
            c.fact(lab + ": shape", got is not None, RULE, where=where)
            if got is None:
                continue
            for ix in list(got)[:3]:
                w = scal(c, c.call(name, **{k: bc[k][ix] if k in bc else kw[k] for k in allr}))
                c.pending = []
                c.identity("%s, entry %s" % (lab, list(ix)), got[ix], w, d, n=12, rule=RULE)
    sec.__name__ = name
    return sec


def same_roots(c, lab, v, w, d):
    """solved functions: the same equation for each entry, started on the same side of the sonic point"""
    dd = d.copy()
    dd.brackets = [("1e-6", 1), (1, "1e6")]
    c.identity(lab, v, w, dd, n=12, rule="entry i of the result solves the equation of entry i, same branch")


def regime(c):
    """sequence of array sizes: scalars, one entry and many entries agree (area ratio)"""
    i = c.i
    roots(c)
    for f in ("MachSub_Sigma", "MachSup_Sigma"):
        full = "aerokit.aero.MassFlow." + f
        d = domain({"sigma": ("1.05", "6")})
        d.brackets = [("1e-6", 1), (1, "1e6")]
        a = i.np.new_arr(i, tm.app("A_sigma", tm.IDX), 1)
        v = elem(c, c.call(full, a, gamma=g))
        c.pending = []
        w = scal(c, c.call(full, tm.app("A_sigma", tm.IDX), gamma=g))
        c.identity("%s: array of one entry" % f, tm.subst(v, {tm.IDX: num(0)}), tm.subst(w, {tm.IDX: num(0)}), d, n=12, rule="entry i of the result solves the equation of entry i, same branch")


def states(c):
    i = c.i
    for cls in ("aerokit.aero.model1D.state", "aerokit.aero.unsteady1D.unsteady_state"):
        t = cls.split(".")[-1]
        F = {"rho": ("0.5", "2"), "u": ("50", "300"), "p": ("5e4", "2e5")}
        for dt, word in (("float", "array"), ("int?", "integer array")):
            d = domain(F)
            arrs = {k: i.np.new_arr(i, tm.app("A_" + k, tm.IDX), n_, dtype=dt) for k in F}
            st = c.call(cls, arrs["rho"], arrs["u"], arrs["p"], g)
            s1 = c.call(cls, *[tm.app("A_" + k, tm.IDX) for k in F], g)
            for k in ("asound", "left_acoustic", "right_acoustic", "Mach", "massflow", "Ptot", "rTtot"):
                c.identity("%s.%s: %s" % (t, k, word), elem(c, c.call(i.getattr(st, k, None))), meth(c, s1, k), d, n=12,
                           rule="entry i of the result is the result of entry i")


def run(c):
    for name, rg in TABLE.items():
        if name not in ONE and "conical" not in name:
            c.section(one(name, rg), name)
            c.section(grid(name, rg), name + " (shapes)")
    c.section(regime)
    c.section(states)
