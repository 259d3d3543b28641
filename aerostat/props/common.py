"""Symbols and domains shared by the properties."""
from fractions import Fraction

from .. import terms as tm
from ..terms import add, mul, power, sqrt, sym, num, sin, cos, tan, asin, atan, atan2, log, absv, ite, lt, le, gt, ge, eq
from ..identity import Domain
from ..interp import Anchor, Ref, Gate, Func, Bound, Cls, ABSENT, RaiseSignal, ancestors

g = sym("gamma")
r = sym("r")
M = sym("M")
HALF = num(Fraction(1, 2))
DEG = tm.DEG          # degrees -> radians factor
RAD = tm.RAD
GAM = ("1.08", "1.67", "lin", "1.005", "2.5")


def n(x):
    return tm.lift(x) if not isinstance(x, float) else tm.fnum(x)


def sub(a, b):
    return add(n(a), mul(num(-1), n(b)))


def neg(a):
    return mul(num(-1), n(a))


def div(a, b):
    return mul(n(a), power(n(b), num(-1)))


def plus(*a):
    return add(*[n(x) for x in a])


def times(*a):
    return mul(*[n(x) for x in a])


def sq(a):
    return power(n(a), num(2))


def pw(a, b):
    return power(n(a), n(b))


def gm1(gam=g):
    return sub(gam, 1)


def gp1(gam=g):
    return add(gam, num(1))


def tt(m, gam=g):
    """total over static temperature"""
    return plus(1, times(HALF, gm1(gam), sq(m)))


def pt(m, gam=g):
    return pw(tt(m, gam), div(gam, gm1(gam)))


def sigma(m, gam=g):
    return div(pw(div(times(2, tt(m, gam)), gp1(gam)), div(gp1(gam), times(2, gm1(gam)))), m)


def sh_p(m, gam=g):
    return plus(1, times(div(times(2, gam), gp1(gam)), sub(sq(m), 1)))


def sh_r(m, gam=g):
    return div(times(gp1(gam), sq(m)), plus(2, times(gm1(gam), sq(m))))


def sh_m(m, gam=g):
    return sqrt(div(plus(1, times(HALF, gm1(gam), sq(m))), sub(times(gam, sq(m)), times(HALF, gm1(gam)))))


def nu(m, gam=g):
    """Prandtl-Meyer function in radians"""
    k = div(gp1(gam), gm1(gam))
    b = sqrt(sub(sq(m), 1))
    return sub(times(sqrt(k), atan(div(b, sqrt(k)))), atan(b))


def dom(**kw):
    d = Domain()
    for k, v in kw.items():
        d.add(k, v)
    return d


def gdom(**kw):
    return dom(gamma=GAM, **kw)


def isT(v):
    return isinstance(v, tm.T)


def scal(c, v):
    """numeric term of a scalar result"""
    if isinstance(v, tm.T):
        return v
    if isinstance(v, Gate):
        return ite(v.c, scal(c, v.a), scal(c, v.b))
    if v is None or isinstance(v, str):
        raise RaiseSignal("TypeError", "%r where a number is due" % (v,), None, c.last_where)
    t = c.i.np.scalar_of(c.i, v)
    if t is None:
        return c.i.top("not a number: %r" % (v,))
    return t


def numeric(v):
    if isinstance(v, Gate):
        return numeric(v.a) and numeric(v.b)
    return isinstance(v, (tm.T, int, float)) or (isinstance(v, Ref) and v.kind in ("nd", "arr"))


def attr(c, o, name):
    return scal(c, c.i.getattr(o, name, None))


def meth(c, o, name, *args, **kw):
    """Value of o.name(*args)."""
    f = c.i.getattr(o, name, None)
    v = c.call(f, *args, **kw)
    return scal(c, v) if isinstance(v, (tm.T, int, float)) or (isinstance(v, Ref) and v.kind in ("nd", "arr")) \
        or (isinstance(v, Gate) and numeric(v)) else v


def secant(i, f, args, kw, node):
    """The package's own solver, taken by its contract: f(x) = y (C31 decides the contract)."""
    a = dict(zip(["f", "y", "x", "tol"], args))
    a.update(kw)
    return i.np.make_root(i, a["f"], a["y"], a["x"], {"tol": a.get("tol")}, node, "secant")


SOLVER = "aerokit.aero.IterativeSolve.secant_solve"


def roots(c):
    c.i.opaque[SOLVER] = secant


def fn(c, mod):
    """f(name, *args) -> numeric term of a call of mod.name"""
    def f(name, *a, **k):
        return one(c, mod + "." + name, *a, **k)
    return f


def one(c, name, *a, **k):
    """numeric term of a call; with c.many, of one entry of a call with arrays"""
    if not c.many:
        return scal(c, c.call(name, *a, **k))
    v = c.call(name, *[c.spread(x) if isT(x) else x for x in a], **{q: c.spread(x) if isT(x) else x for q, x in k.items()})
    return entry(c, v)


def entry(c, v):
    from ..report import J
    if isinstance(v, Gate):
        return ite(v.c, entry(c, v.a), entry(c, v.b))
    if isinstance(v, Ref) and v.kind == "arr":
        return tm.subst(c.i.np.elem_of(c.i, v), {tm.IDX: J})
    v = scal(c, v)
    return tm.subst(v, {tm.IDX: J}) if isT(v) else v


def fdef(c, f):
    """Parameter names of an analysed function."""
    return [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]


def guesses(c, n0):
    return c.i.solves[n0:]


def same_function(c, name, a, b, rngs, fixed=None, rule="same value for the same arguments"):
    """two callables agree for generic arguments, with and without the optional ones"""
    fa, fb = c.get(a), c.get(b)
    where = c.where_of(fa)
    pa, pb = fdef(c, fa), fdef(c, fb)
    if fa is fb or getattr(fa, "node", 0) is getattr(fb, "node", 1):
        c.fact("%s is %s" % (a, b), True, "one definition under two names", where=where)
        return
    args, d = [], gdom()
    nreq = len(pa) - len(fa.defaults)
    for p in pa:
        args.append(sym(p))
        d.add(p, rngs.get(p, ("1.2", "3")) if p != "gamma" else GAM)
    c.identity("%s = %s" % (a, b), scal(c, c.call(fa, *args)), scal(c, c.call(fb, *args)), d, where=where, rule=rule)
    for k in range(nreq, len(pa)):
        c.identity("%s = %s (%s omitted)" % (a, b, ", ".join(pa[k:])), scal(c, c.call(fa, *args[:k])),
                   scal(c, c.call(fb, *args[:k])), d, where=where, rule=rule)


def exception_names(i, e):
    """names an except clause can use to catch it"""
    out = ancestors(e.exc)
    cls = e.value
    if isinstance(cls, Ref) and cls.kind == "obj":
        cls = i.payload(cls)["cls"]
    if isinstance(cls, Cls):
        for k in i.mro(cls):
            out |= ancestors(k.name.split(".")[-1])
    return out


def refused(c, name, want, thunk, where=None, rule="the call is refused with an exception"):
    """thunk certainly raises one of the exceptions `want`"""
    n0 = len(c.i.cond_raises)
    pend = list(c.pending)
    try:
        thunk()
    except RaiseSignal as e:
        ok = bool(set(want) & exception_names(c.i, e))
        c.pending = pend
        c.fact(name, ok, rule, where=where, detail="raises %s" % e.exc)
        return
    c.pending = pend
    c.fact(name, None if len(c.i.cond_raises) > n0 else False, rule, where=where, detail="no exception")


def known_items(i, v):
    """The entries of a list or dictionary, when the analysis knows all of them."""
    p = i.payload(v)
    if p.get("opaque"):
        raise RuntimeError("container with unknown entries (%s)" % p["opaque"])
    return p["items"]
