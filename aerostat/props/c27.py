"""C27 stability models: settings, their changes, and the eigenvalue helpers."""
import itertools

import numpy as np

from .. import identity as idn
from .common import *
from .c26 import nd, CC
from .c28 import EU, OSM, POI, operators, base, edom, odom, vec, a, b, AL, RE, ONE

LO = "aerokit.stability._base.LinOperator"
OSK = "aerokit.stability.OrrSommerfeld."


def do(c, o, name, *args, **kw):
    return c.call(c.i.getattr(o, name, None), *args, **kw)


def D(c, items):
    return c.i.alloc("dict", items=dict(items))


def same(c, tag, got, want, d, where, rule):
    """two (B, At) pairs are entry-wise the same"""
    bad, und, pts = [], [], 0
    for lab, p, q in zip(("B", "At"), got, want):
        if p.shape != q.shape:
            bad.append("%s has shape %s instead of %s" % (lab, p.shape, q.shape))
            continue
        for ix in np.ndindex(*p.shape):
            if p[ix] is not q[ix]:
                v = idn.equal(p[ix], q[ix], d, n=6, scale=ONE)
                pts += v.points
                if v.status == "differ":
                    bad.append("%s%s" % (lab, list(ix)))
                elif not v.ok:
                    und.append("%s%s" % (lab, list(ix)))
    c.pending = []
    c.fact(tag, False if bad else (None if und else True), rule, where=where, detail="; ".join((bad or und)[:6]))


def model(c, n, q, left, right):
    o = c.call(EU, n, a, b, basestate=q)
    do(c, o, "set_BC", left, right)
    return o


def euler_history(c):
    """whatever was set before, the operators are those of a new model with the same settings"""
    n = 4
    i = c.i
    d = edom(n)
    d2 = edom(n, "_2")
    for k, v in d2.ranges.items():
        d.ranges.setdefault(k, v)
    for k, t in (d2.defs if isinstance(d2.defs, dict) else dict(d2.defs)).items():
        d.define(k, t)
    d.add("gradM", ("-0.4", "0.4"))
    q1, s1 = base(c, n)
    q2, s2 = base(c, n, "_2")
    bases = {"q1": s1, "q2": s2}
    rh = lambda: D(c, {"type": "RH", "dM0dx": sym("gradM")})
    bcs = {"sym/sym": ("sym", "sym"), "per/per": ("per", "per"), "RH/sym": (rh(), "sym"), "sym/RH": ("sym", rh())}
    where = c.where_of(c.get(LO + ".get_RHS_time_matrices"))
    ref = {}
    for bn, st in bases.items():
        for cn, bc in bcs.items():
            ref[bn, cn] = operators(c, model(c, n, st, *bc))
    c.pending = []
    keys = list(itertools.product(bases, bcs))
    for x, y in itertools.product(keys, keys):
        if x == y or (x[0] != y[0] and x[1] != y[1]) and not c.thorough:
            continue
        o = model(c, n, bases[x[0]], *bcs[x[1]])
        operators(c, o)
        if x[0] != y[0]:
            do(c, o, "set_basestate", bases[y[0]])
        if x[1] != y[1]:
            do(c, o, "set_BC", *bcs[y[1]])
        same(c, "%s %s, then %s %s" % (x + y), operators(c, o), ref[y], d, where, "operators follow the last settings")
        same(c, "%s %s, then %s %s, again" % (x + y), operators(c, o), ref[y], d, where, "asking again changes nothing")
    # settings before any base state, and after
    o = c.call(EU, n, a, b)
    do(c, o, "set_BC", *bcs["sym/RH"])
    do(c, o, "set_basestate", s1)
    same(c, "boundary conditions before the base state", operators(c, o), ref["q1", "sym/RH"], d, where, "operators follow the last settings")
    # two models live side by side
    o, p = model(c, n, s1, *bcs["sym/sym"]), model(c, n, s2, *bcs["RH/sym"])
    operators(c, p)
    same(c, "two models: first", operators(c, o), ref["q1", "sym/sym"], d, where, "models are independent")
    same(c, "two models: second", operators(c, p), ref["q2", "RH/sym"], d, where, "models are independent")
    # the same kind of condition with another parameter, in another model or in the same one
    d.add("grad2", ("-0.4", "0.4"))
    rh2 = lambda: D(c, {"type": "RH", "dM0dx": sym("grad2")})
    for lab, bc1, bc2 in (("left", (rh(), "sym"), (rh2(), "sym")), ("right", ("sym", rh()), ("sym", rh2()))):
        ref2 = operators(c, model(c, n, s1, *bc2))
        k = "RH/sym" if lab == "left" else "sym/RH"
        want = np.empty(ref2[0].shape, dtype=object)
        for ix in np.ndindex(*want.shape):
            want[ix] = tm.subst(ref["q1", k][0][ix], {sym("gradM"): sym("grad2")})
        same(c, "another parameter, %s" % lab, ref2, (want, ref["q1", k][1]), d, where, "the parameter is the one given")
        p1, p2 = model(c, n, s1, *bc1), model(c, n, s1, *bc2)
        same(c, "two models with different parameters, %s: second" % lab, operators(c, p2), ref2, d, where, "models are independent")
        same(c, "two models with different parameters, %s: first" % lab, operators(c, p1), ref["q1", k], d, where, "models are independent")
        do(c, p1, "set_BC", *bc2)
        same(c, "another parameter in the same model, %s" % lab, operators(c, p1), ref2, d, where, "operators follow the last settings")
    # solving does not alter the operators
    do(c, o, "solve_eig")
    same(c, "after the eigenvalue problem", operators(c, o), ref["q1", "sym/sym"], d, where, "operators are not altered by solving")


def untouched(c):
    """what the caller passed is left as it was"""
    n = 4
    i = c.i
    d = edom(n)
    d.add("gradM", ("-0.4", "0.4"))
    q, st = base(c, n)
    for left in (True, False):
        bc = D(c, {"type": "RH", "dM0dx": sym("gradM")})
        o = model(c, n, st, *((bc, "sym") if left else ("sym", bc)))
        side = "left" if left else "right"
        for k in (1, 2):
            operators(c, o)
            items = known_items(i, bc)
            where = c.where_of(c.get(EU + ".compute_operators"))
            c.fact("boundary condition dictionary, %s, use %d" % (side, k), set(items) == {"type", "dM0dx"} and items["dM0dx"] is sym("gradM") and items["type"] == "RH",
                   "argument not modified", where=where)
        same(c, "dictionary used by two models, %s" % side, operators(c, model(c, n, st, *((bc, "sym") if left else ("sym", bc)))), operators(c, o), d, where,
             "a dictionary can be used again")
    for nm, vals in zip(("rho", "u", "p"), q):
        now = nd(c, i.getattr(st, nm, None))
        c.fact("base state %s" % nm, all(x is y for x, y in zip(now, vals)), "argument not modified", where=where)
    same(c, "base state used by two models", operators(c, model(c, n, st, "sym", "sym")), operators(c, model(c, n, base(c, n)[1], "sym", "sym")), d, where,
         "a base state can be used again")


def spelled(c):
    """a boundary condition may be a name or a dictionary"""
    n = 4
    d = edom(n)
    q, st = base(c, n)
    where = c.where_of(c.get(LO + ".set_BC"))
    for t in ("sym", "per"):
        ref = operators(c, model(c, n, st, t, t))
        for l, r_ in ((D(c, {"type": t}), t), (t, D(c, {"type": t})), (D(c, {"type": t}), D(c, {"type": t}))):
            same(c, "%s by name or dictionary" % t, operators(c, model(c, n, st, l, r_)), ref, d, where, "both spellings are the same condition")
    x = odom()
    o = c.call(POI, 5, AL, RE)
    ref = operators(c, o)
    do(c, o, "set_BC", "wall", D(c, {"type": "wall"}))
    same(c, "wall by name or dictionary", operators(c, o), ref, x, where, "both spellings are the same condition")


def refusals(c):
    n = 4
    i = c.i
    d = edom(n)
    q, st = base(c, n)
    where = c.where_of(c.get(LO + ".set_BC"))
    for cls, known in ((EU, ("sym", "per", "RH")), (OSM, ("wall",))):
        short = cls.rsplit(".", 1)[1]
        for bad in ("wall", "sym", "RH", "dirichlet", "", "SYM"):
            if bad in known:
                continue
            for k in range(4):
                o = c.call(cls, n, a, b)
                l = bad if k == 0 else D(c, {"type": bad}) if k == 1 else known[0]
                r_ = bad if k == 2 else D(c, {"type": bad}) if k == 3 else known[0]
                refused(c, "%s: unknown condition %r at %s" % (short, bad, ("left", "left (dictionary)", "right", "right (dictionary)")[k]), ("ValueError",),
                        lambda: do(c, o, "set_BC", l, r_), where, "unknown boundary condition names are refused")
    ref = operators(c, model(c, n, st, "per", "per"))
    for l, r_ in (("sym", "nothing"), ("nothing", "sym")):
        o = model(c, n, st, "per", "per")
        refused(c, "unknown condition after a valid setting (%s)" % l, ("ValueError",), lambda: do(c, o, "set_BC", l, r_), where)
        same(c, "setting kept after a refusal (%s)" % l, operators(c, o), ref, d, where, "a refused setting changes nothing")
    o = c.call(EU, n, a, b, basestate=st)
    refused(c, "operators without boundary conditions", ("ValueError",), lambda: operators(c, o), c.where_of(c.get(EU + ".compute_BC")))
    where = c.where_of(c.get(EU + ".setBC_RH"))
    for k, extra in enumerate(({}, {"dM0dx": sym("gradM"), "other": 1}, {"dM0dX": sym("gradM")}, {"dM0dx": sym("gradM"), "irow": 1, "foo": 2})):
        for side in (0, 1):
            bc = D(c, dict({"type": "RH"}, **extra))
            o = model(c, n, st, *((bc, "sym") if side == 0 else ("sym", bc)))
            refused(c, "RH condition with parameters %s, side %d" % (sorted(extra), side), ("ValueError", "TypeError"), lambda: operators(c, o), where,
                    "missing or unknown parameters are refused")
    where = c.where_of(c.get(OSM + ".set_basestate"))
    full = {"alpha": AL, "Reynolds": RE, "uprofile": lambda ii, args, kw, node: tm.ONE}
    for k in range(3):
        for keys in itertools.combinations(full, k):
            part = {x: full[x] for x in keys}
            for extra in ({}, {"other": num(1)}):
                o = c.call(OSM, 5, a, b)
                refused(c, "Orr-Sommerfeld base state with %s" % (sorted(list(part) + list(extra))), ("DictKeyError",),
                        lambda: do(c, o, "set_basestate", D(c, dict(part, **extra))), where, "a base state without a required key is refused")
            refused(c, "Orr-Sommerfeld built with %s" % sorted(part), ("DictKeyError",),
                    lambda: c.call(OSM, 5, a, b, basestate=D(c, part)), where, "a base state without a required key is refused")
    o = c.call(POI, 5, AL, RE)
    ref = operators(c, o)
    for keys in ((), ("alpha",), ("alpha", "Reynolds")):
        o = c.call(POI, 5, AL, RE)
        refused(c, "refused base state %s" % (keys,), ("DictKeyError",), lambda: do(c, o, "set_basestate", D(c, {k: num(3) for k in keys})), where)
        same(c, "base state kept after a refusal %s" % (keys,), operators(c, o), ref, odom(), where, "a refused base state changes nothing")
    refused(c, "the base class has no operators", ("NotImplementedError",), lambda: do(c, c.call(LO, 4), "get_RHS_time_matrices"), c.where_of(c.get(LO + ".compute_operators")))


def orr_history(c):
    i = c.i
    n = 5
    al2, re2 = sym("alpha2"), sym("Re2")
    d = odom()
    d.add("alpha2", ("0.3", 3))
    d.add("Re2", (10, 20000, "log"))
    where = c.where_of(c.get(LO + ".set_basestate"))
    ref = operators(c, c.call(POI, n, al2, re2))
    prof = lambda ii, args, kw, node: ii.np.binop(ii, 1, "-", ii.np.binop(ii, args[0], "**", 2, node), node)
    st = D(c, {"alpha": al2, "Reynolds": re2, "uprofile": prof})
    o = c.call(POI, n, AL, RE)
    operators(c, o)
    do(c, o, "set_basestate", st)
    same(c, "Orr-Sommerfeld: base state changed", operators(c, o), ref, d, where, "operators follow the last settings")
    o = c.call(OSM, n, num(-1), ONE, st)
    do(c, o, "set_BC", "wall", "wall")
    same(c, "Orr-Sommerfeld: base state at construction", operators(c, o), ref, d, where, "operators follow the last settings")
    o = c.call(OSM, n, num(-1), ONE)
    do(c, o, "set_BC", "wall", "wall")
    do(c, o, "set_basestate", st)
    same(c, "Orr-Sommerfeld: base state set last", operators(c, o), ref, d, where, "operators follow the last settings")
    do(c, o, "solve_eig")
    v, vv = vec(c, "v", n)
    for k in range(n):
        d.add("v%d" % k, ("0.2", 1))
    d.add("w0", (-1, 1))
    do(c, o, "converge_eigenpair", sym("w0"), vv, niter=1)
    same(c, "Orr-Sommerfeld: after solving", operators(c, o), ref, d, where, "operators are not altered by solving")
    c.fact("starting vector", all(x is y for x, y in zip(nd(c, vv), v)), "argument not modified", where=where)
    # a complex wave number (spatial growth) makes both operators complex
    d.add("alpha_i", ("0.05", "0.5"))
    z = al2 + tm.lift(1j) * sym("alpha_i")
    new = lambda: c.call(POI, n, z, re2)
    ref = [x.copy() for x in operators(c, new())]
    c.pending = []
    for lab, use in (("solve_eig", lambda o: do(c, o, "solve_eig")), ("converge_eigenpair", lambda o: do(c, o, "converge_eigenpair", sym("w0"), vv, niter=1)),
                     ("converge_eigenpair twice", lambda o: [do(c, o, "converge_eigenpair", sym("w0"), vv, niter=k) for k in (1, 0)])):
        o = new()
        operators(c, o)
        use(o)
        same(c, "complex wave number, after %s" % lab, operators(c, o), ref, d, where, "operators are not altered by solving")
        o = new()
        use(o)
        same(c, "complex wave number, %s first" % lab, operators(c, o), ref, d, where, "operators are not altered by solving")
    o = c.call(POI, n, AL, RE)
    operators(c, o)
    do(c, o, "set_basestate", D(c, {"alpha": z, "Reynolds": re2, "uprofile": prof}))
    same(c, "Orr-Sommerfeld: real, then complex wave number", operators(c, o), ref, d, where, "operators follow the last settings")


def basics(c):
    i = c.i
    for cls in (LO, EU, OSM):
        o = c.call(cls, 5, a, b)
        short = cls.rsplit(".", 1)[1]
        where = c.where_of(c.get(cls))
        c.fact("%s: size" % short, i.getattr(o, "dim", None) == 5, "dim is the number of points", where=where)
        x = nd(c, i.getattr(o, "x", None))
        r_ = nd(c, i.getattr(c.call(CC, 5, a, b), "x", None))
        for k in range(5):
            c.identity("%s: grid point %d" % (short, k), x[k], r_[k], dom(xmin=(-2, "0.5"), xmax=("0.9", 3)), where=where)
        c.fact("%s: no base state at first" % short, do(c, o, "check_basestate") is False, "check_basestate", where=where)
    o = c.call(LO, 5, a, b)
    do(c, o, "set_basestate", num(0))
    c.fact("base state is known once set", do(c, o, "check_basestate") is True, "check_basestate", where=where)


def csel(j, conds, vals):
    return tm.app("csel", num(j), num(len(conds)), *([ite(x, ONE, num(0)) for x in conds] + list(vals)))


def pick(c, v, j):
    """entry j of a selection"""
    if isinstance(v, Gate):
        return ite(v.c, pick(c, v.a, j), pick(c, v.b, j))
    if isinstance(v, Ref) and v.kind == "arr":
        return tm.subst(c.i.np.elem_of(c.i, v), {tm.IDX: num(j)})
    if isinstance(v, Ref) and v.kind == "nd":
        return c.i.np.val_of(c.i, v)[j]
    raise RuntimeError("not a selection")


def plain(d):
    d = d.copy()
    d.direct = False
    return d


def selection(c):
    """select_and_sort filters and orders the eigenvalues"""
    i = c.i
    n = 4
    where = c.where_of(c.get(LO + ".select_and_sort"))
    re = [sym("re%d" % k) for k in range(n)]
    im = [sym("im%d" % k) for k in range(n)]
    w = np.empty(n, dtype=object)
    w[:] = [p + tm.lift(1j) * q for p, q in zip(re, im)]
    V = np.empty((n, n), dtype=object)
    for k in np.ndindex(n, n):
        V[k] = sym("v%d_%d" % k)
    for lab, kw in (("default limits", {}), ("given limits", {"realmin": sym("r0"), "realmax": sym("r1"), "imagmin": sym("i0"), "imagmax": sym("i1")}),
                    ("lower real limit only", {"realmin": sym("r0")}), ("upper imaginary limit only", {"imagmax": sym("i1")}),
                    ("small eigenvalues, given limits", {"realmin": sym("r0"), "realmax": sym("r1"), "imagmin": sym("i0"), "imagmax": sym("i1")}),
                    ("large eigenvalues, given limits", {"realmin": sym("r0"), "realmax": sym("r1"), "imagmin": sym("i0"), "imagmax": sym("i1")}),
                    ("nearly neutral modes, lower imaginary limit", {"imagmin": sym("i0")})):
        size = num(Fraction(1, 10 ** 9)) if "small" in lab else num(10 ** 7) if "large" in lab else num(1)
        isize = num(Fraction(1, 10 ** 9)) if "nearly" in lab else size
        for sort in (None, "real", "imag"):
            o = c.call(LO, n)
            i.setattr(o, "_vals", i.np.new_nd(i, w.copy(), "complex"), None)
            i.setattr(o, "_vects", i.np.new_nd(i, V.copy(), "complex"), None)
            args = dict(kw)
            if sort:
                args["sort"] = sort
            vals, vects, order = i.np.iterate(i, do(c, o, "select_and_sort", **args), None)[1]
            lim = {"realmin": num(0), "realmax": tm.fnum(1e99), "imagmin": tm.fnum(-1e10), "imagmax": tm.fnum(1e10)}
            lim.update(kw)
            conds = [tm.andv(lt(p, lim["realmax"]), ge(p, lim["realmin"]), gt(q, lim["imagmin"]), lt(q, lim["imagmax"])) for p, q in zip(re, im)]
            count = sum((ite(x, ONE, num(0)) for x in conds), num(0))
            d = dom()
            for nm, rg in [("r0", (-2, "0.5")), ("r1", ("-0.5", 2)), ("i0", (-2, "0.5")), ("i1", ("-0.5", 2))] + [(h + str(k), (-2, 2)) for h in ("re", "im") for k in range(n)]:
                z = isize if nm[0] == "i" else size
                if z is num(1):
                    d.add(nm, rg)
                else:
                    d.add("x" + nm, rg)
                    d.define(nm, z * sym("x" + nm))
            for k in range(n):
                for j in range(n):
                    d.add("v%d_%d" % (j, k), (-1, 1))
            tag = "%s, sort %s" % (lab, sort)
            d.direct = sort is None and lab in ("default limits", "given limits")
            for j in range(n):
                dd = d.copy()
                dd.require(gt(count, num(j)))
                c.identity("%s: value %d" % (tag, j), pick(c, vals, j), csel(j, conds, w), dd if j == 0 else plain(dd), where=where, rule="realmin <= Re < realmax, imagmin < Im < imagmax", n=24)
                W = nd(c, vects)
                c.identity("%s: vector of value %d" % (tag, j), W[1, j] if W.shape[1] > j else i.top("shape"), csel(j, conds, V[1]), plain(dd), where=where, rule="columns follow the values", n=12)
                key = [(-q if sort == "imag" else p) for p, q in zip(re, im)]
                if j:
                    sel = lambda k: tm.app("csel", pick(c, order, k), num(n), *([ite(x, ONE, num(0)) for x in conds] + key))
                    c.condition("%s: order %d" % (tag, j), le(sel(j - 1), sel(j)), plain(dd), where=where,
                                rule="increasing real part, or decreasing imaginary part", n=12)
    o = c.call(LO, n)
    i.setattr(o, "_vals", i.np.new_nd(i, w.copy(), "complex"), None)
    i.setattr(o, "_vects", i.np.new_nd(i, V.copy(), "complex"), None)
    refused(c, "unknown sort", ("KeyError", "ValueError"), lambda: do(c, o, "select_and_sort", sort="modulus"), where)


def rayleigh(c):
    """converge_eigenpair returns a Rayleigh quotient and a unit vector"""
    i = c.i
    n = 3
    where = c.where_of(c.get(LO + ".converge_eigenpair"))
    B, M = np.empty((n, n), dtype=object), np.empty((n, n), dtype=object)
    d = dom(w0=(-1, 1))
    for k in np.ndindex(n, n):
        B[k], M[k] = sym("b%d_%d" % k), sym("a%d_%d" % k)
        d.add("b%d_%d" % k, (-1, 1))
        d.add("a%d_%d" % k, (("0.8", "1.5") if k[0] == k[1] else ("-0.2", "0.2")))
    e_, ee = vec(c, "e", n)
    for k in range(n):
        d.add("e%d" % k, ("0.2", 1))
    for it in (1, 2, 0):
        o = c.call(LO, n)
        i.setattr(o, "_B", i.np.new_nd(i, B.copy()), None)
        i.setattr(o, "_At", i.np.new_nd(i, M.copy()), None)
        w, v = i.np.iterate(i, do(c, o, "converge_eigenpair", sym("w0"), ee, niter=it), None)[1]
        v, w = nd(c, v), scal(c, w)
        for t in [w] + list(v):
            for s in tm.free_syms(t):
                if "exc:" in s:
                    d.add(s, [False])        # regular matrices
        c.pending = []
        nrm = sum((absv(x) * absv(x) for x in v), num(0))
        c.identity("%d iterations: unit vector" % it, nrm, ONE, d, where=where, n=8)
        mm = tm.lift(-1j) * M
        cj = lambda x: tm.app("conj", x)
        if it == 0:
            c.identity("no iteration: value kept", w, sym("w0"), d, where=where)
            continue
        c.identity("%d iterations: Rayleigh quotient of the returned vector" % it, w,
                   sum((cj(v[k]) * B[k, j] * v[j] for k in range(n) for j in range(n)), num(0))
                   / sum((cj(v[k]) * mm[k, j] * v[j] for k in range(n) for j in range(n)), num(0)), d, where=where, n=8,
                   rule="v*.B.v / v*.(-i.At).v")
        if it == 1:
            y = (B - sym("w0") * mm).dot(v)
            for k in range(1, n):
                c.identity("inverse iteration from the given estimate (%d)" % k, y[k] * e_[0], y[0] * e_[k], d, where=where, n=8, rule="(B + i.w.At).v parallel to the previous vector")


def run(c):
    for s in (basics, euler_history, untouched, spelled, refusals, orr_history, selection, rayleigh):
        c.section(s)
    c.assumptions.append("Grids of 3 to 5 points; eigenvalues themselves are the library's (the pencil handed over is decided by C28)")
