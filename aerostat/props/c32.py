"""C32 variable denominations."""
from .common import *
from ..interp import Str

DV = "aerokit.common.dicovar."
IC3 = {"P": "P", "p": "P", "Ps": "P", "rho": "RHO", "T": "T", "V": "U", "Vx": "U_X", "Vy": "U_Y", "Vz": "U_Z", "u_avg": "U_AVG", "rho_avg": "RHO_AVG",
       "tauw_avg": "TauWallAvg", "mulam_avg": "MU_LAM_AVG", "t_avg": "T_AVG", "u_rms": "U_RMS", "u_rey": "U_REY"}
OF = {"u_avg": "Uavg", "rho_avg": "rhoAVG"}
NAMES = {"IC3": ("IC3", "ic3", "CharlesX", "cx", "charlesx", "CX", "CHARLESX", "Ic3"), "OpenFOAM": ("OpenFOAM", "of", "openfoam", "ofoam", "OF", "OPENFOAM", "OFoam")}
TABLES = {"IC3": IC3, "OpenFOAM": OF}
LETTERS = {"IC3": {"U_avg": "U_AVG", "U_AVG": "U_AVG", "RHO_AVG": "RHO_AVG", "Rho": "RHO", "TAUW_AVG": "TauWallAvg"}, "OpenFOAM": {"U_AVG": "Uavg", "Rho_Avg": "rhoAVG"}}


def dv(c):
    return c.get(DV + "dicoVar")


def do(c, o, name, *a):
    return c.call(c.i.getattr(o, name, None), *a)


def gets(c, o, k):
    """the three ways to read a variable"""
    return [do(c, o, "get", k), c.i.call_value(o, [k], {}, None), c.i.np.getitem(c.i, o, k, None)]


def keys(c, o):
    r = c.i.np.iterate(c.i, do(c, o, "keys"), None)
    return None if r is None else set(r[1])


def table(c, o, soft, tag, where, plus=None, minus=()):
    want = dict(TABLES[soft])
    want.update(plus or {})
    for k, v in sorted(want.items()):
        got = gets(c, o, k)
        if any(isinstance(g_, Gate) or isinstance(g_, (Str, tm.T)) for g_ in got):
            c.fact("%s: %s" % (tag, k), None, "denomination of the selected software", where=where)
            continue
        c.fact("%s: %s" % (tag, k), all(g_ == v for g_ in got), "denomination of the selected software, by get, call and index", where=where, detail="%r instead of %r" % (got, v))


def fresh(c):
    """the shared object as the import leaves it"""
    c.call(DV + "setDicoVar", "IC3")
    return dv(c)


def software(c):
    where = c.where_of(c.get(DV + "setDicoVar"))
    for soft, names in NAMES.items():
        for nm in names:
            o = fresh(c)
            c.call(DV + "setDicoVar", nm)
            table(c, dv(c), soft, "after setDicoVar(%r)" % nm, where)
            c.fact("setDicoVar(%r) acts on the object already imported" % nm, dv(c) is o or dv(c).oid == o.oid, "the shared object is kept", where=where)
            table(c, o, soft, "object imported before setDicoVar(%r)" % nm, where)
    for soft, extra in LETTERS.items():
        c.call(DV + "setDicoVar", soft)
        for k, v in extra.items():
            c.fact("%s: %s" % (soft, k), all(g_ == v for g_ in gets(c, dv(c), k)), "capital letters of a variable do not matter", where=c.where_of(c.get(DV + "_DicoVar.get")) if False else where)


def unknown(c):
    where = c.where_of(c.get(DV + "setDicoVar"))
    for soft in NAMES:
        for bad in ("nothing", "", "ic", "open foam", "hybrid", "official", "my ic3", "openfoam2"):
            c.call(DV + "setDicoVar", soft)
            refused(c, "unknown software %r" % bad, ("ValueError",), lambda: c.call(DV + "setDicoVar", bad), where)
            table(c, dv(c), soft, "%s after unknown software %r" % (soft, bad), where)
        c.call(DV + "setDicoVar", soft)
        for bad in ("none", "q", "") + (() if soft == "IC3" else ("P", "V", "Vx")):
            for k in range(3):
                refused(c, "%s: unknown variable %r (%d)" % (soft, bad, k), ("ValueError", "KeyError"),
                        lambda: [lambda: do(c, dv(c), "get", bad), lambda: c.i.call_value(dv(c), [bad], {}, None), lambda: c.i.np.getitem(c.i, dv(c), bad, None)][k](),
                        where, "an unknown variable is refused")


def changes(c):
    where = c.where_of(c.i.getattr(dv(c), "setVar", None))
    for soft, other in (("IC3", "OpenFOAM"), ("OpenFOAM", "IC3")):
        k = "u_avg"
        o = fresh(c)
        c.call(DV + "setDicoVar", soft)
        do(c, o, "setVar", k, "mine")
        table(c, o, soft, "%s: setVar" % soft, where, plus={k: "mine"})
        refused(c, "%s: setVar of a missing variable" % soft, ("ValueError",), lambda: do(c, o, "setVar", "absent", "mine"), where)
        refused(c, "%s: the missing variable stays missing" % soft, ("ValueError", "KeyError"), lambda: do(c, o, "get", "absent"), where)
        do(c, o, "addVar", "absent", "new")
        table(c, o, soft, "%s: addVar" % soft, where, plus={k: "mine", "absent": "new"})
        refused(c, "%s: addVar of a known variable" % soft, ("ValueError",), lambda: do(c, o, "addVar", k, "other"), where)
        refused(c, "%s: addVar of an added variable" % soft, ("ValueError",), lambda: do(c, o, "addVar", "absent", "other"), where)
        table(c, o, soft, "%s: after refused changes" % soft, where, plus={k: "mine", "absent": "new"})
        ks = keys(c, o)
        c.fact("%s: keys" % soft, None if ks is None else {k, "absent"} | set(TABLES[soft]) <= ks, "keys lists the variables", where=where)
        # selecting a software again restores its own names
        for path in ((soft,), (other, soft)):
            for s in path:
                c.call(DV + "setDicoVar", s)
            table(c, o, soft, "%s: selected again through %s" % (soft, path), where)
            refused(c, "%s: added variable forgotten through %s" % (soft, path), ("ValueError", "KeyError"), lambda: do(c, o, "get", "absent"), where)
            do(c, o, "setVar", k, "mine")
        c.call(DV + "setDicoVar", other)
        table(c, o, other, "%s is not altered by changes to %s" % (other, soft), where)


def entries(c):
    """one entry added or renamed: the others stay"""
    where = c.where_of(c.i.getattr(dv(c), "setVar", None))
    added = {"IC3": ("T_AVG", "RHO", "X", "Alpha", "pS", "v", "mu_Lam"), "OpenFOAM": ("T_AVG", "P", "p", "RHO_avg", "x", "Vx")}
    for soft, names in added.items():
        o = fresh(c)
        c.call(DV + "setDicoVar", soft)
        plus = {}
        for k in names:
            do(c, o, "addVar", k, "new_" + k)
            plus[k] = "new_" + k
        table(c, o, soft, "%s: addVar of other spellings" % soft, where, plus=plus)
        for k in names:
            refused(c, "%s: addVar of %s twice" % (soft, k), ("ValueError",), lambda: do(c, o, "addVar", k, "again"), where)
        table(c, o, soft, "%s: addVar of other spellings, twice" % soft, where, plus=plus)
        for k in names[:2] + tuple(sorted(TABLES[soft]))[:4]:
            do(c, o, "setVar", k, "set_" + k)
            plus[k] = "set_" + k
            table(c, o, soft, "%s: setVar(%s)" % (soft, k), where, plus=plus)
        ks = keys(c, o)
        c.fact("%s: keys after additions" % soft, None if ks is None else set(names) | set(TABLES[soft]) <= ks, "keys lists the variables", where=where)


def expressions(c):
    """calculator expressions use the current names"""
    name = "aerokit.common.extendvar.expressions_from_rhopv"
    where = c.where_of(c.get(name))
    i = c.i
    for lab, ren in (("", {}), (" after renaming", {"P": "press", "rho": "dens", "V": "vel", "Vx": "u1", "Vy": "u2"})):
        c.call(DV + "setDicoVar", "IC3")
        for k, v in ren.items():
            do(c, dv(c), "setVar", k, v)
        names = dict(IC3)
        names.update(ren)
        res = c.call(name)
        if res is None:
            c.fact("expressions%s" % lab, False, "a table of expressions is returned", where=where)
            continue
        d = known_items(i, res)
        for k in IC3:
            if k not in ("T", "V"):
                c.fact("expressions%s: %s" % (lab, k), d.get(k) == names[k], "names of the dictionary are kept", where=where)
        rng = {names["P"]: ("0.5", 3), names["rho"]: ("0.4", 2), names["V"]: ("-3", 3), names["Vx"]: ("0.2", 2), names["Vy"]: (-2, 2)}
        dd = dom(**rng)
        P, rho, V, Vx, Vy = (sym(names[k]) for k in ("P", "rho", "V", "Vx", "Vy"))
        a_ = sqrt(tm.fnum(1.4) * P / rho)
        want = {"Pt": P * (num(1) + tm.fnum(0.2) * V * V / (a_ * a_)) ** tm.fnum(3.5), "T": P / rho / tm.fnum(287.1), "S": log(P / rho ** tm.fnum(1.4)),
                "V": absv(V), "a": a_, "Mach": absv(V) / a_, "Mx": Vx / a_, "alpha": atan(Vy / Vx) * num(180) / tm.PI}
        for k, v in want.items():
            e = d.get(k)
            if not isinstance(e, str):
                c.fact("expression %s%s" % (k, lab), None if e is not None else False, "expression of P, rho and V", where=where)
                continue
            try:
                t = parse(e)
            except (SyntaxError, KeyError, ValueError, TypeError, IndexError, AttributeError) as err:
                c.fact("expression %s%s" % (k, lab), False, "calculator expression of P, rho and V", where=where, detail="%r: %s" % (e, err))
                continue
            c.identity("expression %s%s" % (k, lab), t, v, dd, where=where, rule="calculator expression of P, rho and V")
        before = {k: do(c, dv(c), "get", k) for k in IC3}
        c.fact("dictionary unchanged by the expressions%s" % lab, all(before[k] == names[k] for k in IC3), "the shared dictionary is not modified", where=where)


def parse(e):
    """term of a vtk calculator expression"""
    import ast
    tree = ast.parse(e.replace("^", "**"), mode="eval").body
    F = {"sqrt": sqrt, "mag": absv, "ln": log, "atan": atan, "asin": asin, "abs": absv, "acos": lambda t: tm.app("acos", t), "exp": tm.exp, "log": log, "sin": sin, "cos": cos, "tan": tm.tan}

    def go(n_):
        if isinstance(n_, ast.Constant):
            return tm.fnum(n_.value) if isinstance(n_.value, float) else num(n_.value)
        if isinstance(n_, ast.Name):
            return sym(n_.id)
        if isinstance(n_, ast.UnaryOp):
            return -go(n_.operand) if isinstance(n_.op, ast.USub) else go(n_.operand)
        if isinstance(n_, ast.Call):
            a_ = [go(x) for x in n_.args]
            return F[n_.func.id](*a_)
        p, q = go(n_.left), go(n_.right)
        k = type(n_.op)
        return p + q if k is ast.Add else p - q if k is ast.Sub else p * q if k is ast.Mult else p / q if k is ast.Div else p ** q
    return go(tree)


def run(c):
    for s in (software, unknown, changes, entries, expressions):
        c.section(s)
