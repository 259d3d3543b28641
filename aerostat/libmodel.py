"""Further functions of the standard library and of numpy: those that only move entries about, or that a few
conditions and sums describe."""
import inspect
import itertools
import math

import numpy as _np

from . import terms as tm
from . import npmodel as M
from .interp import Ref, Gate, ABSENT, Bound, Cls, Ext, Unsupported, CondItem, Range, Endless
from .terms import T

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


# ---------------------------------------------------------------- structure
def _unbool(v):
    return True if v is tm.TRUE else False if v is tm.FALSE else v


def _plain_int(x):
    return isinstance(x, T) and x.op == "num" and x.args[0] == int(x.args[0])


def concrete(i, v):
    """an argument as numpy sees it, entries being terms; ABSENT when it has no definite shape"""
    if v is None or isinstance(v, (bool, str)):
        return v
    if type(v) is int:
        return v
    if isinstance(v, T):
        return v
    if isinstance(v, tuple) and all(type(x) is int for x in v):
        return v
    if isinstance(v, (tuple, Ref, Gate, Range)):
        l = M.lifted(i, v)
        if l is None:
            items = M.items_of(i, v, None) if isinstance(v, tuple) or isinstance(v, Ref) and v.kind == "list" else None
            if items is None:
                return ABSENT
            out = [concrete(i, x) for x in items]
            return ABSENT if any(x is ABSENT for x in out) else out
        if l.k == "a":
            return ABSENT
        if l.k == "s":
            return l.v
        if l.dtype == "int" and l.v.size and all(_plain_int(x) for x in l.v.reshape(-1)):
            return _np.array([int(x.args[0]) for x in l.v.reshape(-1)]).reshape(l.v.shape)
        return l.v
    return ABSENT


def given(i, r, dtype="float"):
    """a numpy result as a value of the interpreter"""
    if isinstance(r, _np.ndarray):
        if r.dtype != object:
            dtype = {"i": "int", "u": "int", "b": "bool"}.get(r.dtype.kind, "float")
        return M.unlift(i, M.L("n", M._Z(r), dtype=dtype))
    if isinstance(r, tuple):
        return tuple(given(i, x, dtype) for x in r)
    if isinstance(r, list):
        return i.alloc("list", items=tuple(given(i, x, dtype) for x in r))
    if isinstance(r, _np.generic):
        r = r.item()
    if isinstance(r, (T, int, bool, str)) or r is None:
        return r
    return tm.lift(r)


_STRUCT = """roll triu tril take repeat insert delete swapaxes moveaxis rollaxis expand_dims atleast_2d atleast_3d split
array_split hsplit vsplit pad diagflat rot90 vander tensordot einsum cross trapezoid diff cumsum cumprod ediff1d meshgrid
linalg.matrix_power linalg.multi_dot polymul polyadd polysub polyder polyint convolve tri ix_ resize dstack array_repr
ravel_multi_index unravel_index tril_indices triu_indices indices choose broadcast_shapes diagonal linalg.det inner""".split()


def structural(name):
    f = _np
    for part in name.split("."):
        f = getattr(f, part)

    def run(i, args, kw, node):
        if name == "linalg.det":
            return _det(i, args, node)
        a = [concrete(i, x) for x in args]
        k = {n: concrete(i, x) for n, x in kw.items()}
        if any(x is ABSENT for x in list(a) + list(k.values())):
            return i.top(name)
        try:
            r = f(*a, **k)
        except (ValueError, IndexError, TypeError, ZeroDivisionError) as e:
            if isinstance(e, (ValueError, IndexError)) and "object" not in str(e):
                i.raise_(type(e).__name__, str(e)[:80], node)
            return i.top("%s: %s" % (name, e))
        return given(i, r)
    return run


def _det(i, args, node):
    a = M._nd(i, args[0])
    if a is None or a.ndim != 2 or a.shape[0] != a.shape[1] or a.shape[0] > 4:
        return i.top("determinant")

    def det(m):
        n = len(m)
        if n == 1:
            return m[0][0]
        return tm.add(*[m[0][c] * (tm.ONE if c % 2 == 0 else tm.MINUS1) *
                        det([[x for k, x in enumerate(row) if k != c] for row in m[1:]]) for c in range(n)])
    return det(a.tolist())


for _n in _STRUCT:
    MODELS["numpy." + _n] = structural(_n)
if hasattr(_np, "trapz"):
    MODELS["numpy.trapz"] = structural("trapz")
MODELS["scipy.integrate.trapezoid"] = structural("trapezoid")
MODELS["scipy.linalg.det"] = structural("linalg.det")
_whole = MODELS["numpy.diff"]


def generic_length(name, fall):
    """entries by position when the length is known, one term otherwise"""
    def run(i, args, kw, node):
        l = M.lifted(i, args[0]) if args else None
        if l is not None and l.k == "a":
            return fall(i, args, kw, node)
        return MODELS_STRUCT[name](i, args, kw, node)
    return run


MODELS_STRUCT = dict(MODELS)
for _n in ("diff", "cumsum", "cumprod"):
    MODELS["numpy." + _n] = generic_length("numpy." + _n, (lambda nm: lambda i, a, k, n: M.reduce_(i, nm, a, k, n))(_n))


@model("numpy.gradient")
def _gradient(i, args, kw, node):
    f = M._nd(i, args[0])
    if f is None or f.ndim != 1 or f.size < 2 or kw or len(args) > 2:
        return i.top("gradient")
    h = M.lifted(i, args[1]) if len(args) > 1 else M.L("s", tm.ONE)
    if h is None or h.k == "a":
        return i.top("gradient")
    n = f.size
    if h.k == "s" or h.v.size == 1 and h.v.ndim == 0:
        step = h.v if h.k == "s" else h.v.item()
        x = [step * tm.num(k) for k in range(n)]
    else:
        x = list(h.v)
        if len(x) != n:
            i.raise_("ValueError", "when 1d, distances must match the length of the corresponding dimension", node)
    out = [(f[1] - f[0]) / (x[1] - x[0])]
    for k in range(1, n - 1):
        a, b = x[k] - x[k - 1], x[k + 1] - x[k]
        out.append((f[k + 1] * a * a - f[k - 1] * b * b + f[k] * (b * b - a * a)) / (a * b * (a + b)))
    out.append((f[-1] - f[-2]) / (x[-1] - x[-2]))
    return M.new_nd(i, _np.array(out, dtype=object))


@model("numpy.interp")
def _interp(i, args, kw, node):
    xp, fp = M._nd(i, M._arg(args, kw, 1, "xp")), M._nd(i, M._arg(args, kw, 2, "fp"))
    if xp is None and fp is None and len(args) == 3 and not kw:
        a, b = M.lifted(i, args[1]), M.lifted(i, args[2])
        if a is not None and b is not None and a.k == b.k == "a" and a.len is b.len and a.mask is None and b.mask is None and a.len is not None:
            return M.ew(i, lambda x: tm.app("interp", x, tm.lam(M.IDX, a.v), tm.lam(M.IDX, b.v), tm.lift(a.len)), [args[0]], node)
    if xp is None or fp is None or xp.size > 24 or kw.get("period") is not None:
        return M.opaque_call(i, "numpy.interp", args, kw, node)
    if xp.size != fp.size:
        i.raise_("ValueError", "fp and xp are not of the same length", node)
    left, right = M._arg(args, kw, 3, "left"), M._arg(args, kw, 4, "right")
    lo = fp[0] if left is None else M.scalar_of(i, left)
    hi = fp[-1] if right is None else M.scalar_of(i, right)

    def at(x):
        cur = tm.ite(tm.lt(xp[-1], x), hi, fp[-1])
        for k in range(xp.size - 2, -1, -1):
            seg = fp[k] + (fp[k + 1] - fp[k]) * (x - xp[k]) / (xp[k + 1] - xp[k])
            cur = tm.ite(tm.lt(x, xp[k + 1]), seg, cur)
        return tm.ite(tm.lt(x, xp[0]), lo, cur)
    return M.ew(i, at, [args[0] if args else kw["x"]], node)


@model("numpy.sinc")
def _sinc(i, args, kw, node):
    pi = M._CONSTS["math.pi"] if "math.pi" in M._CONSTS else M._CONSTS["numpy.pi"]
    return M.ew(i, lambda a: tm.ite(tm.eq(a, tm.ZERO), tm.ONE, tm.app("sin", pi * a) / (pi * a)), [args[0]], node)


@model("numpy.angle")
def _angle(i, args, kw, node):
    if len(args) > 1 or kw:
        return i.top("angle")
    return M.ew(i, lambda a: tm.atan2(M._im(a), M._re(a)), [args[0]], node)


@model("numpy.isin", "numpy.in1d")
def _isin(i, args, kw, node):
    s = M._nd(i, M._arg(args, kw, 1, "test_elements"))
    if s is None or set(kw) - {"test_elements", "invert"}:
        return i.top("isin")
    inv = kw.get("invert") is True

    def at(a):
        c = tm.orv(*[tm.eq(a, x) for x in s.reshape(-1)]) if s.size else tm.FALSE
        return tm.notv(c) if inv else c
    return M.ew(i, at, [args[0]], node, "logic")


@model("numpy.searchsorted", "numpy.digitize", "bisect.bisect", "bisect.bisect_left", "bisect.bisect_right")
def _searchsorted(i, args, kw, node):
    return i.top("position in a sorted sequence")


def _sorted_position(side, seq, at):
    def run(i, args, kw, node):
        s = M._nd(i, args[seq]) if len(args) > seq else None
        if s is None or s.ndim != 1 or len(args) != 2 or set(kw) - {"side", "right"}:
            return i.top("position in a sorted sequence")
        right = side == "right" or kw.get("side") == "right"
        if side == "digitize":
            right = kw.get("right") is not True

        def count(v):
            return tm.add(*[tm.ite(tm.le(x, v) if right else tm.lt(x, v), tm.ONE, tm.ZERO) for x in s]) if s.size else tm.ZERO
        return M.ew(i, count, [args[at]], node, "keep")
    return run


MODELS["numpy.searchsorted"] = _sorted_position("left", 0, 1)
MODELS["numpy.digitize"] = _sorted_position("digitize", 1, 0)
MODELS["bisect.bisect"] = MODELS["bisect.bisect_right"] = _sorted_position("right", 0, 1)
MODELS["bisect.bisect_left"] = _sorted_position("left", 0, 1)


@model("numpy.array_equal", "numpy.array_equiv")
def _array_equal(i, args, kw, node):
    from .context import unbool
    a, b = M._nd(i, args[0]), M._nd(i, args[1])
    if a is None or b is None or kw:
        return i.fresh("array_equal", True)
    if a.shape != b.shape:
        return False
    return unbool(tm.andv(*[tm.eq(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1))]) if a.size else tm.TRUE)


def _spaced(name):
    def run(i, args, kw, node):
        names = ("start", "stop", "num", "endpoint")
        got = {n: M._arg(args, kw, k, n) for k, n in enumerate(names)}
        n = 50 if got["num"] is None else M.as_int(i, got["num"])
        base = M._arg(args, kw, 4, "base") if name == "logspace" else None
        a, b = M.scalar_of(i, got["start"]), M.scalar_of(i, got["stop"])
        if n is None or set(kw) - set(names) - {"base"} or len(args) > 5:
            return i.top(name)
        div = n - 1 if got["endpoint"] in (None, True) else n
        ts = [tm.num(k) / tm.num(div) if div else tm.ZERO for k in range(n)]
        if name == "logspace":
            bs = tm.num(10) if base is None else M.scalar_of(i, base)
            out = [tm.power(bs, a + (b - a) * t) for t in ts]
        else:
            out = [a * tm.power(b / a, t) for t in ts]
        return M.new_nd(i, _np.array(out, dtype=object))
    return run


MODELS["numpy.logspace"], MODELS["numpy.geomspace"] = _spaced("logspace"), _spaced("geomspace")


@model("numpy.fromiter")
def _fromiter(i, args, kw, node):
    items = M.items_of(i, args[0], node)
    if items is None:
        return i.top("fromiter")
    return M.call_ext(i, "numpy.array", [i.alloc("list", items=tuple(items))] + list(args[1:2]),
                      {k: v for k, v in kw.items() if k == "dtype"}, node)


@model("numpy.fromfunction")
def _fromfunction(i, args, kw, node):
    shape = M.concrete_index(i, args[1])[0] if len(args) > 1 else None
    if not isinstance(shape, tuple) or set(kw) - {"dtype"}:
        return i.top("fromfunction")
    return i.call_value(args[0], [given(i, x.astype(object)) for x in _np.indices(shape)], {}, node)


@model("numpy.frompyfunc")
def _frompyfunc(i, args, kw, node):
    f = args[0]

    def run(ii, a, k, n):
        vs = [M._nd(ii, x) for x in a]
        if any(v is None for v in vs):
            return ii.top("frompyfunc")
        bc = _np.broadcast_arrays(*vs)
        out = _np.empty(bc[0].shape, dtype=object)
        for ix in _np.ndindex(*out.shape):
            r = ii.call_value(f, [b[ix] for b in bc], {}, n)
            out[ix] = M.scalar_of(ii, r)
        return M.unlift(ii, M.L("n", out))
    return run


@model("numpy.apply_along_axis")
def _along(i, args, kw, node):
    f, axis, arr = args[0], M.as_int(i, args[1]), M._nd(i, args[2])
    if arr is None or axis is None:
        return i.top("apply_along_axis")
    m = _np.moveaxis(arr, axis, -1)
    cells = {}
    for ix in _np.ndindex(*m.shape[:-1]):
        cells[ix] = M._nd(i, i.call_value(f, [M.new_nd(i, m[ix].copy())] + list(args[3:]), dict(kw), node))
        if cells[ix] is None:
            return i.top("apply_along_axis")
    shapes = {c.shape for c in cells.values()}
    if len(shapes) != 1:
        return i.top("apply_along_axis")
    sh = shapes.pop()
    out = _np.empty(m.shape[:-1] + sh, dtype=object)
    for ix, c in cells.items():
        out[ix] = c if sh else c.item()
    return M.unlift(i, M.L("n", _np.moveaxis(out, -1, axis) if sh else out))


@model("numpy.ndenumerate")
def _ndenumerate(i, args, kw, node):
    a = M._nd(i, args[0])
    if a is None:
        return i.alloc("list", items=(), opaque="ndenumerate")
    return i.alloc("list", items=tuple((tuple(ix), a[ix]) for ix in _np.ndindex(*a.shape)), iterator=True)


@model("numpy.ndindex")
def _ndindex(i, args, kw, node):
    ns = [M.as_int(i, x) for x in (args[0] if len(args) == 1 and isinstance(args[0], tuple) else args)]
    if any(n is None for n in ns):
        return i.alloc("list", items=(), opaque="ndindex")
    return i.alloc("list", items=tuple(_np.ndindex(*ns)), iterator=True)


@model("numpy.nditer")
def _nditer(i, args, kw, node):
    a = M._nd(i, args[0])
    if a is None or kw or len(args) > 1:
        raise Unsupported("nditer")
    return i.alloc("list", items=tuple(a.reshape(-1)), iterator=True)


@model("numpy.polyfit", "numpy.poly1d", "numpy.roots")
def _unknown(i, args, kw, node):
    return i.top("polynomial")


@model("numpy.median")
def _median(i, args, kw, node):
    a = M._nd(i, args[0])
    if a is None:
        return M.reduce_(i, "median", args, kw, node)
    if kw or len(args) > 1:
        return i.top("median")
    v = list(a.reshape(-1))
    n = len(v)
    at = lambda k: tm.app("nd_sorted", tm.num(k), *v)
    return at(n // 2) if n % 2 else (at(n // 2 - 1) + at(n // 2)) / tm.TWO


def _moment(root):
    def run(i, args, kw, node):
        a = M._nd(i, args[0])
        if a is None:
            return M.reduce_(i, "std" if root else "var", args, kw, node)
        ddof = M.as_int(i, kw.get("ddof", 0))
        axis = M._arg(args, kw, 1, "axis")
        ax = M.as_int(i, axis) if axis is not None else None
        if set(kw) - {"ddof", "axis"} or ddof is None or axis is not None and ax is None or len(args) > 2:
            return i.top("spread")

        def one(v):
            v = list(v)
            m = tm.add(*v) / tm.num(len(v))
            s = tm.add(*[tm.power(tm.absv(x - m), tm.TWO) for x in v]) / tm.num(len(v) - ddof)
            return tm.sqrt(s) if root else s
        if ax is None:
            return one(a.reshape(-1))
        m = _np.moveaxis(a, ax, -1)
        out = _np.empty(m.shape[:-1], dtype=object)
        for ix in _np.ndindex(*out.shape):
            out[ix] = one(m[ix])
        return M.unlift(i, M.L("n", out))
    return run


MODELS["numpy.std"], MODELS["numpy.var"] = _moment(True), _moment(False)


@model("numpy.ptp")
def _ptp(i, args, kw, node):
    return M.binop(i, M.reduce_(i, "max", args, kw, node), "-", M.reduce_(i, "min", args, kw, node), node)


@model("numpy.count_nonzero")
def _count(i, args, kw, node):
    a = M._nd(i, args[0])
    if a is None:
        return M.reduce_(i, "count_nonzero", args, kw, node)
    return M.reduce_(i, "sum", [M.unlift(i, M.L("n", M.nd_map(lambda x: tm.ite(tm.truthy(x), tm.ONE, tm.ZERO), a), dtype="int"))]
                     + list(args[1:]), kw, node)


@model("numpy.average")
def _average(i, args, kw, node):
    w = M._arg(args, kw, 2, "weights")
    if w is None:
        return M.reduce_(i, "mean", args, {k: v for k, v in kw.items() if k != "weights"}, node)
    if M._arg(args, kw, 1, "axis") is not None or set(kw) - {"weights"}:
        return i.top("average")
    top = M.reduce_(i, "sum", [M.binop(i, args[0] if not isinstance(args[0], tuple) and not (
        isinstance(args[0], Ref) and args[0].kind == "list") else M.call_ext(i, "numpy.array", [args[0]], {}, node), "*",
        M.call_ext(i, "numpy.array", [w], {}, node), node)], {}, node)
    return M.binop(i, top, "/", M.reduce_(i, "sum", [w], {}, node), node)


@model("numpy.sort")
def _sort(i, args, kw, node):
    a = M._nd(i, args[0])
    if a is None:
        return M.reduce_(i, "sort", args, kw, node)
    axis = M._arg(args, kw, 1, "axis", -1)
    if a.ndim == 0 or axis != -1 and a.ndim > 1 or set(kw) - {"axis", "kind"}:
        return i.top("sort")
    out = _np.empty(a.shape, dtype=object)
    for ix in _np.ndindex(*a.shape[:-1]):
        row = list(a[ix])
        for k in range(len(row)):
            out[ix + (k,)] = tm.app("nd_sorted", tm.num(k), *row)
    return M.new_nd(i, out)


@model("numpy.linalg.norm", "scipy.linalg.norm")
def _norm(i, args, kw, node):
    order = M._arg(args, kw, 1, "ord")
    axis = M._arg(args, kw, 2, "axis")
    a = M._nd(i, args[0])
    if a is None or set(kw) - {"ord", "axis"}:
        return i.top("norm") if kw or len(args) > 1 else M._norm(i, args, kw, node)
    if a.ndim == 0 and axis is None:
        a = a.reshape(1)

    def one(v):
        v = [tm.absv(x) for x in v]
        if order is None or order == 2 or order is tm.TWO:
            return tm.sqrt(tm.add(*[tm.power(x, tm.TWO) for x in v]))
        if order == 1 or order is tm.ONE:
            return tm.add(*v)
        if isinstance(order, T) and order.op == "sym" and "inf" in str(order.args[0]):
            r = v[0]
            for x in v[1:]:
                r = tm.maximum(r, x)
            return r
        return None
    if a.ndim > 1 and order not in (None, "fro") and axis is None:
        return i.top("matrix norm")
    if axis is None:
        r = one(list(a.reshape(-1))) if order != "fro" else tm.sqrt(tm.add(*[tm.power(tm.absv(x), tm.TWO) for x in a.reshape(-1)]))
        return i.top("norm") if r is None else r
    ax = M.as_int(i, axis)
    if ax is None:
        return i.top("norm")
    m = _np.moveaxis(a, ax, -1)
    out = _np.empty(m.shape[:-1], dtype=object)
    for ix in _np.ndindex(*out.shape):
        r = one(list(m[ix]))
        if r is None:
            return i.top("norm")
        out[ix] = r
    return M.unlift(i, M.L("n", out))


def round_to(v, d):
    return tm.app("rint", v) if d == 0 else tm.app("rounded", v, tm.num(d))


@model("numpy.round", "numpy.around", "numpy.round_")
def _round(i, args, kw, node):
    d = M.as_int(i, M._arg(args, kw, 1, "decimals", 0))
    if d is None:
        return i.top("round")
    return M.ew(i, lambda a: round_to(a, d), [args[0] if args else kw["a"]], node, "keep")


@model("numpy.fmod", "math.fmod")
def _fmod(i, args, kw, node):
    return M.ew(i, lambda a, b: a - b * tm.app("trunc", a / b), args[:2], node)


# ---------------------------------------------------------------- math
@model("math.hypot")
def _hypot(i, args, kw, node):
    return tm.sqrt(tm.add(*[M.scalar_of(i, a) * M.scalar_of(i, a) for a in args])) if args else tm.ZERO


@model("math.dist")
def _dist(i, args, kw, node):
    a, b = M._nd(i, args[0]), M._nd(i, args[1])
    if a is None or b is None:
        return i.top("dist")
    return tm.sqrt(tm.add(*[tm.power(x - y, tm.TWO) for x, y in zip(a, b)]))


@model("math.sumprod")
def _sumprod(i, args, kw, node):
    a, b = M._nd(i, args[0]), M._nd(i, args[1])
    if a is None or b is None:
        return i.top("sumprod")
    return tm.add(*[x * y for x, y in zip(a, b)])


def _whole_numbers(name):
    def run(i, args, kw, node):
        ns = [M.as_int(i, a) for a in args]
        if any(n is None for n in ns):
            return i.top(name)
        try:
            return getattr(math, name)(*ns)
        except ValueError as e:
            i.raise_("ValueError", str(e), node)
    return run


for _n in ("comb", "perm", "factorial", "gcd", "lcm", "isqrt"):
    MODELS["math." + _n] = _whole_numbers(_n)


# ---------------------------------------------------------------- itertools
def _list(i, items):
    return i.alloc("list", items=tuple(items), iterator=True)


def _opaque(i, why):
    return i.alloc("list", items=(), opaque=why)


def several(i, args, node):
    """the sequences as lists of one length, as zip sees them; None when one is unknown"""
    seqs = []
    for a in args:
        if isinstance(a, Endless):
            seqs.append(a)
            continue
        x = M.items_of(i, a, node)
        if x is None:
            return None
        seqs.append(x)
    n = min((len(x) for x in seqs if not isinstance(x, Endless)), default=None)
    if n is None:
        return None
    return [[x.at(k) for k in range(n)] if isinstance(x, Endless) else x for x in seqs]


def itool(name):
    def deco(f):
        def run(i, args, kw, node):
            try:
                r = f(i, args, kw, node)
            except _Unknown:
                r = None
            if r is None:
                return _opaque(i, name)
            return r if isinstance(r, Endless) else _list(i, r)
        MODELS["itertools." + name] = run
        return f
    return deco


class _Unknown(Exception):
    pass


def _items(i, v, node):
    r = M.items_of(i, v, node) if not isinstance(v, Endless) else None
    if r is None:
        raise _Unknown
    return r


def _ints(i, vs):
    out = [None if v is None else M.as_int(i, v) for v in vs]
    if any(o is None and v is not None for o, v in zip(out, vs)):
        raise _Unknown
    return out


@itool("chain")
def _chain(i, args, kw, node):
    return [x for a in args for x in _items(i, a, node)]


@itool("chain.from_iterable")
def _chain2(i, args, kw, node):
    return [x for a in _items(i, args[0], node) for x in _items(i, a, node)]


@itool("product")
def _product(i, args, kw, node):
    rep = M.as_int(i, kw.get("repeat", 1))
    if rep is None:
        raise _Unknown
    return itertools.product(*[_items(i, a, node) for a in args], repeat=rep)


for _n in ("combinations", "permutations", "combinations_with_replacement"):
    def _pick(i, args, kw, node, _n=_n):
        r = _ints(i, [M._arg(args, kw, 1, "r")])[0]
        seq = _items(i, args[0], node)
        return getattr(itertools, _n)(seq, len(seq) if r is None else r)
    itool(_n)(_pick)


@itool("accumulate")
def _accumulate(i, args, kw, node):
    f = M._arg(args, kw, 1, "func")
    seq = list(_items(i, args[0], node))
    init = kw.get("initial")
    if init is not None:
        seq = [init] + seq
    out = seq[:1]
    for x in seq[1:]:
        out.append(M.binop(i, out[-1], "+", x, node) if f is None else i.call_value(f, [out[-1], x], {}, node))
    return out


@itool("islice")
def _islice(i, args, kw, node):
    cut = slice(*_ints(i, args[1:]))
    if isinstance(args[0], Endless):
        if cut.stop is None:
            raise _Unknown
        return [args[0].at(k) for k in range(cut.stop)][cut]
    return _items(i, args[0], node)[cut]


@itool("pairwise")
def _pairwise(i, args, kw, node):
    s = _items(i, args[0], node)
    return list(zip(s, s[1:]))


@itool("batched")
def _batched(i, args, kw, node):
    s, n = _items(i, args[0], node), _ints(i, [args[1]])[0]
    return [tuple(s[k:k + n]) for k in range(0, len(s), n)]


@itool("zip_longest")
def _zip_longest(i, args, kw, node):
    return list(itertools.zip_longest(*[_items(i, a, node) for a in args], fillvalue=kw.get("fillvalue")))


@itool("starmap")
def _starmap(i, args, kw, node):
    return [i.call_value(args[0], list(_items(i, x, node)), {}, node) for x in _items(i, args[1], node)]


@itool("repeat")
def _repeat(i, args, kw, node):
    n = M._arg(args, kw, 1, "times")
    if n is None:
        return Endless(lambda k: args[0], args[0], 0)
    return [args[0]] * _ints(i, [n])[0]


@itool("count")
def _countfrom(i, args, kw, node):
    a, s = M._arg(args, kw, 0, "start", 0), M._arg(args, kw, 1, "step", 1)
    return Endless(lambda k: M.binop(i, a, "+", M.binop(i, k, "*", s, node), node), a, s)


@itool("cycle")
def _cycle(i, args, kw, node):
    s = _items(i, args[0], node)
    if not s:
        return []
    return Endless(lambda k: s[k % len(s)])


def chosen(i, pairs):
    """the values whose condition holds"""
    out = []
    for c, v in pairs:
        if c is tm.FALSE:
            continue
        out.append(v if c is tm.TRUE else CondItem(c, v))
    return out


@itool("compress")
def _compress(i, args, kw, node):
    ks = [i.assume_simplify(i.truth(k, node)) for k in _items(i, args[1], node)]
    return chosen(i, zip(ks, _items(i, args[0], node)))


@itool("takewhile")
def _takewhile(i, args, kw, node):
    out, on = [], tm.TRUE
    for x in _items(i, args[1], node):
        on = tm.andv(on, i.assume_simplify(i.truth(i.call_value(args[0], [x], {}, node), node)))
        out.append((on, x))
    return chosen(i, out)


@itool("dropwhile")
def _dropwhile(i, args, kw, node):
    out, off = [], tm.FALSE
    for x in _items(i, args[1], node):
        off = tm.orv(off, tm.notv(i.assume_simplify(i.truth(i.call_value(args[0], [x], {}, node), node))))
        out.append((off, x))
    return chosen(i, out)


@itool("filterfalse")
def _filterfalse(i, args, kw, node):
    return chosen(i, [(tm.notv(i.assume_simplify(i.truth(x if args[0] is None else i.call_value(args[0], [x], {}, node), node))), x)
                      for x in _items(i, args[1], node)])


@itool("groupby")
def _groupby(i, args, kw, node):
    return None


# ---------------------------------------------------------------- operator
def _simple(name, f):
    MODELS["operator." + name] = f


for _n, _o in {"floordiv": "//", "mod": "%", "matmul": "@", "and_": "&", "or_": "|", "xor": "^", "concat": "+", "iadd": "+",
               "imul": "*", "isub": "-", "itruediv": "/", "lshift": "<<", "rshift": ">>"}.items():
    _simple(_n, lambda i, a, k, n, o=_o: M.binop(i, a[0], o, a[1], n))
for _n, _o in {"neg": "-", "pos": "+", "invert": "~", "inv": "~"}.items():
    _simple(_n, lambda i, a, k, n, o=_o: M.unop(i, o, a[0], n))
_simple("abs", lambda i, a, k, n: M.call_builtin(i, "abs", a, k, n))
_simple("getitem", lambda i, a, k, n: M.getitem(i, a[0], a[1], n))
_simple("setitem", lambda i, a, k, n: M.setitem(i, a[0], a[1], a[2], n))
_simple("contains", lambda i, a, k, n: M.contains(i, a[0], a[1], n))
_simple("not_", lambda i, a, k, n: M.call_builtin(i, "bool", [_unbool(tm.notv(i.truth(a[0], n)))], {}, n))
_simple("truth", lambda i, a, k, n: M.call_builtin(i, "bool", a, {}, n))
_simple("index", lambda i, a, k, n: a[0])


@model("operator.itemgetter")
def _itemgetter(i, args, kw, node):
    def run(ii, a, k, n):
        got = [M.getitem(ii, a[0], x, n) for x in args]
        return got[0] if len(got) == 1 else tuple(got)
    return run


@model("operator.attrgetter")
def _attrgetter(i, args, kw, node):
    if not all(isinstance(x, str) for x in args):
        return i.top("attrgetter")

    def one(ii, o, name, n):
        for p in name.split("."):
            o = ii.getattr(o, p, n)
        return o

    def run(ii, a, k, n):
        got = [one(ii, a[0], x, n) for x in args]
        return got[0] if len(got) == 1 else tuple(got)
    return run


@model("operator.methodcaller")
def _methodcaller(i, args, kw, node):
    def run(ii, a, k, n):
        return ii.call_value(ii.getattr(a[0], args[0], n), list(args[1:]), dict(kw), n)
    return run


# ---------------------------------------------------------------- collections, dataclasses, enum, object
@model("collections.defaultdict")
def _defaultdict(i, args, kw, node):
    d = M.call_builtin(i, "dict", list(args[1:]), kw, node)
    if args and args[0] is not None:
        i.write(d, factory=args[0])
    return d


@model("collections.deque")
def _deque(i, args, kw, node):
    if len(args) > 1 or kw.get("maxlen") is not None:
        raise Unsupported("deque with a maximum length")
    return M.call_builtin(i, "list", args[:1], {}, node)


@model("collections.ChainMap", "collections.Counter", "collections.UserDict")
def _maps(i, args, kw, node):
    raise Unsupported("a special mapping")


@model("dataclasses.field")
def _field(i, args, kw, node):
    from .classes import Field
    if set(kw) - {"default", "default_factory", "init", "compare", "repr", "hash", "metadata"}:
        raise Unsupported("dataclass field option")
    return Field(kw.get("default", ABSENT), kw.get("default_factory"), kw.get("init") is not False, kw.get("compare") is not False)


def _fields_of(i, o, node):
    c = i.payload(o)["cls"] if isinstance(o, Ref) and o.kind == "obj" else o
    if not isinstance(c, Cls) or c.fields is None or c.tuple:
        i.raise_("TypeError", "not a dataclass", node)
    return c, c.fields


@model("dataclasses.replace", "copy.replace")
def _replace(i, args, kw, node):
    from .classes import Field
    c, fs = _fields_of(i, args[0], node)
    d = {n: i.getattr(args[0], n, node) for n, f in fs if not (isinstance(f, Field) and not f.init)}
    for k in kw:
        if k not in d:
            i.raise_("TypeError", "unexpected field %s" % k, node)
    d.update(kw)
    return i.new(c, [], d, node)


def _deep(i, v, node, made):
    if isinstance(v, Ref) and v.kind == "obj" and isinstance(i.payload(v)["cls"], Cls) and i.payload(v)["cls"].fields \
            and not i.payload(v)["cls"].tuple:
        return made([(n, _deep(i, i.getattr(v, n, node), node, made)) for n, _ in i.payload(v)["cls"].fields])
    return M.copy_value(i, v, True, {}, node)


@model("dataclasses.asdict")
def _asdict(i, args, kw, node):
    _fields_of(i, args[0], node)
    return _deep(i, args[0], node, lambda ps: i.alloc("dict", items=dict(ps)))


@model("dataclasses.astuple")
def _astuple(i, args, kw, node):
    _fields_of(i, args[0], node)
    return _deep(i, args[0], node, lambda ps: tuple(v for _, v in ps))


@model("dataclasses.fields")
def _fields(i, args, kw, node):
    _, fs = _fields_of(i, args[0], node)
    return tuple(i.alloc("obj", cls=M._result_cls(i), attrs={"name": n}) for n, _ in fs)


@model("dataclasses.is_dataclass")
def _is_dataclass(i, args, kw, node):
    o = args[0]
    c = i.payload(o)["cls"] if isinstance(o, Ref) and o.kind == "obj" else o
    return isinstance(c, Cls) and c.fields is not None and not c.tuple


@model("enum.auto")
def _auto(i, args, kw, node):
    from .classes import Auto
    return Auto()


@model("builtins.object.__setattr__", "object.__setattr__")
def _object_setattr(i, args, kw, node):
    if len(args) == 3 and isinstance(args[0], Ref) and args[0].kind == "obj" and isinstance(args[1], str):
        i.write(args[0], attrs={**i.payload(args[0])["attrs"], args[1]: args[2]})
        return None
    raise Unsupported("object.__setattr__")


@model("functools.singledispatch", "contextlib.ExitStack")
def _refused(i, args, kw, node):
    raise Unsupported("a library function the analysis does not follow")


@model("numpy.poly1d")
def _poly1d(i, args, kw, node):
    return i.top("poly1d")
