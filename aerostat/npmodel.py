"""Transfer functions for Python operators and for the libraries the repository uses."""
import ast
import re
import importlib
import importlib.util
import inspect
from fractions import Fraction

import numpy as _np

from . import terms as tm
from .terms import T, IDX
from . import interp as ip
from .interp import (Text, Ref, Gate, ABSENT, Func, Bound, Vectorized, Partial, Cls, Prop, Static, Mod, Ext, ExtMethod,
                     Str, Slice, Range, SuperProxy, CondItem, P, State, RaiseSignal, Unsupported, Endless, ELLIPSIS,
                     nd_map, nd_map2)

KNOWN_LIBS = {"numpy", "scipy", "math", "copy", "typing", "functools", "inspect", "matplotlib", "warnings", "os",
              "sys", "abc", "dataclasses", "collections", "itertools", "operator", "numbers", "cmath", "logging",
              "contextlib", "enum", "types", "re", "time", "json", "doctest", "__future__", "pathlib", "string",
              "pandas", "weakref", "threading", "io", "statistics", "fractions", "decimal", "random", "textwrap",
              "importlib", "traceback", "pickle", "hashlib", "struct", "datetime", "bisect", "heapq", "glob"}


def lib_exists(name):
    top = name.split(".")[0]
    if top in KNOWN_LIBS:
        return True
    try:
        import sys
        return top in sys.stdlib_module_names
    except Exception:
        return False


def canon(name):
    return name


class MapIter:
    """iteration over the positions of an array"""
    __slots__ = ("binder", "length")

    def __init__(self, binder, length):
        self.binder, self.length = binder, length


class Dummy:
    """an object whose methods do nothing the analysis cares about"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class ROOTRESULT:
    pass


_BUILTINS = ["abs", "min", "max", "sum", "len", "range", "float", "int", "str", "bool", "complex", "print", "isinstance",
             "issubclass", "hasattr", "getattr", "setattr", "delattr", "enumerate", "zip", "map", "filter", "list",
             "tuple", "dict", "set", "frozenset", "sorted", "reversed", "round", "pow", "divmod", "any", "all",
             "callable", "type", "id", "repr", "dir", "vars", "super", "property", "staticmethod", "classmethod",
             "object", "slice", "iter", "next", "open", "input", "locals", "globals", "format", "hash", "exit", "quit",
             "Exception", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "RuntimeError",
             "NotImplementedError", "ZeroDivisionError", "ArithmeticError", "AssertionError", "NameError",
             "StopIteration", "Warning", "UserWarning", "DeprecationWarning", "RuntimeWarning", "OverflowError",
             "LookupError", "ImportError", "BaseException", "FloatingPointError", "OSError", "NotImplemented",
             "__import__", "memoryview", "bytes", "bytearray", "chr", "ord", "FutureWarning", "KeyboardInterrupt",
             "ModuleNotFoundError", "UnboundLocalError", "Ellipsis", "oct", "hex", "bin", "eval", "exec", "compile"]
_BSET = set(_BUILTINS)
_EXC = {b for b in _BUILTINS if b.endswith("Error") or b.endswith("Exception") or b.endswith("Warning")}


def builtin(name):
    if name in _BSET:
        return Ext("builtins." + name)
    if name == "__file__":
        return Str("file")
    return None


# ------------------------------------------------------------------- lifting
class L:
    """A numeric value seen by the arithmetic: scalar, generic array or concrete array."""
    __slots__ = ("k", "v", "len", "dtype", "mask")

    def __init__(self, k, v, len_=None, dtype="float", mask=None):
        self.k, self.v, self.len, self.dtype, self.mask = k, v, len_, dtype, mask


def elem_of(i, ref):
    p = i.payload(ref)
    if p.get("base") is not None:
        e = elem_of(i, p["base"])
        return tm.subst(e, {IDX: IDX + p["off"]}) if p["off"] is not tm.ZERO else e
    return p["elem"]


def val_of(i, ref):
    p = i.payload(ref)
    if p.get("base") is not None:
        v = val_of(i, p["base"])[p["key"]]
        return v if isinstance(v, _np.ndarray) else _np.array(v, dtype=object)
    return p["val"]


def lifted(i, v):
    if isinstance(v, T):
        return L("s", v)
    if isinstance(v, bool):
        return L("s", tm.TRUE if v else tm.FALSE, dtype="bool")
    if isinstance(v, int):
        return L("s", tm.num(v), dtype="int")
    if isinstance(v, (float, complex)):
        return L("s", tm.lift(v))
    if isinstance(v, Ref):
        if v.kind == "arr":
            p = i.payload(v)
            return L("a", elem_of(i, v), p["len"], p["dtype"], p.get("mask"))
        if v.kind == "nd":
            return L("n", val_of(i, v), dtype=i.payload(v).get("dtype", "float"))
        if v.kind == "list":
            p = i.payload(v)
            if p.get("opaque"):
                return None
            return lift_seq(i, p["items"])
    if isinstance(v, tuple):
        return lift_seq(i, v)
    if isinstance(v, Gate):
        la, lb = lifted(i, v.a), lifted(i, v.b)
        if la is None or lb is None:
            return None
        return join_l(i, v.c, la, lb)
    if isinstance(v, Range):
        if all(isinstance(x, int) for x in (v.lo, v.hi, v.step)):
            return lift_seq(i, tuple(range(v.lo, v.hi, v.step)))
        return L("a", tm.lift(v.lo) + IDX * tm.lift(v.step), tm.lift(v.hi) - tm.lift(v.lo), "int")
    return None


def sink(i, node, name, args, kw):
    """a call that only shows something; what it was given, as it was then"""
    data = dict(func=name, args=list(args), kw=dict(kw))
    if name.endswith("plot"):
        data["seen"] = [None if isinstance(a, str) else lifted(i, a) for a in args[:2]]
    i.event("sink", node, **data)


def join_l(i, c, a, b):
    if a.k == "n" or b.k == "n":
        if a.k == "a" or b.k == "a":
            return None
        x = a.v if a.k == "n" else _np.array(a.v, dtype=object)
        y = b.v if b.k == "n" else _np.array(b.v, dtype=object)
        try:
            return L("n", nd_map2(lambda p, q: tm.ite(c, p, q), x, y))
        except ValueError:
            return None
    if a.k == "s" and b.k == "s":
        return L("s", tm.ite(c, a.v, b.v))
    arr = a if a.k == "a" else b
    return L("a", tm.ite(c, a.v, b.v), arr.len, arr.dtype if a.dtype == b.dtype else "float", arr.mask)


def lift_seq(i, items):
    ls = []
    for x in items:
        if isinstance(x, CondItem):
            return None
        l = lifted(i, x)
        if l is None:
            return None
        ls.append(l)
    if any(l.k == "a" for l in ls):
        return None
    shapes = {(() if l.k == "s" else l.v.shape) for l in ls}
    if len(shapes) > 1:
        return None
    if not ls:
        return L("n", _np.empty((0,), dtype=object))
    shape = shapes.pop()
    out = _np.empty((len(ls),) + shape, dtype=object)
    for k, l in enumerate(ls):
        out[k] = l.v
    dt = "int" if all(l.dtype == "int" for l in ls) else ("bool" if all(l.dtype == "bool" for l in ls) else "float")
    return L("n", out, dtype=dt)


def new_arr(i, elem, length, dtype="float", mask=None, **kw):
    if dtype == "int?" and isinstance(elem, T) and elem.op == "app" and elem.args[1:] == (IDX,):
        INT_APPS.add(elem.args[0])
    return i.alloc("arr", elem=tm.lift(elem), len=length, dtype=dtype, mask=mask, **kw)


def new_nd(i, val, dtype="float"):
    return i.alloc("nd", val=val, dtype=dtype)


def unlift(i, l):
    if l.k == "s":
        v = l.v
        if v is tm.TRUE:
            return True
        if v is tm.FALSE:
            return False
        if l.dtype == "int" and tm.is_int(v):
            return int(v.args[0])
        return v
    if l.k == "a":
        return new_arr(i, l.v, l.len, l.dtype, l.mask)
    if l.v.shape == ():
        v = l.v.item()
        return unlift(i, L("s", v, dtype=l.dtype)) if isinstance(v, T) else v
    return new_nd(i, l.v, l.dtype)


def scalar_of(i, v):
    """The value number of one element."""
    if isinstance(v, T):
        return v
    l = lifted(i, v)
    if l is None:
        return i.top("not a number: %r" % (v,))
    if l.k == "n":
        if l.v.size == 1:
            return l.v.reshape(-1)[0]
        return i.top("array of shape %s where a scalar is expected" % (l.v.shape,))
    return l.v


def length_of(i, v):
    l = lifted(i, v)
    if l is not None and l.k == "a":
        return l.len
    return None


def _dtype(op, a, b):
    if op in ("cmp", "logic"):
        return "bool"
    if op != "fn" and "complex" in (a.dtype, b.dtype):
        return "complex"
    ints = ("int", "int?", "bool")
    if a.dtype in ints and b.dtype in ints and op not in ("/", "fn"):
        return "int?" if "int?" in (a.dtype, b.dtype) else "int"
    return "float"


def ew(i, f, args, node, op="fn"):
    """Elementwise application of f to lifted arguments."""
    ls = []
    for v in args:
        l = v if isinstance(v, L) else lifted(i, v)
        if l is None:
            return i.top("elementwise operation on %r" % (v,))
        ls.append(l)
    if all(l.k == "s" for l in ls):
        dt = "float" if op == "fn" else (_dtype(op, ls[0], ls[-1]))
        return unlift(i, L("s", f(*[l.v for l in ls]), dtype=dt))
    arrs = [l for l in ls if l.k == "a"]
    nds = [l for l in ls if l.k == "n"]
    if nds and arrs:
        if all(n.v.size == 1 for n in nds):
            ls = [L("s", l.v.reshape(-1)[0]) if l.k == "n" else l for l in ls]
            nds = []
        else:
            return i.top("operation between a generic and a concrete array")
    if arrs:
        masks = {id(l.mask) for l in arrs}
        mask = arrs[0].mask
        if len(masks) > 1:
            ms = [l.mask for l in arrs]
            if any(m is None for m in ms) or len(set(ms)) > 1:
                i.event("misaligned", node, masks=ms)
                return i.top("arrays selected by different masks")
        dt = "float"
        if op != "fn":
            dt = _dtype(op, ls[0], ls[-1])
        return new_arr(i, f(*[l.v for l in ls]), arrs[0].len, dt, mask)
    vals = [l.v if l.k == "n" else _np.array(l.v, dtype=object) for l in ls]
    try:
        bc = _np.broadcast_arrays(*vals)
    except ValueError:
        i.raise_("ValueError", "operands could not be broadcast together %s" % ([v.shape for v in vals],), node)
    out = _np.empty(bc[0].shape, dtype=object)
    for ix in _np.ndindex(*out.shape):
        out[ix] = f(*[b[ix] for b in bc])
    dt = "float" if op == "fn" else _dtype(op, ls[0], ls[-1])
    return unlift(i, L("n", out, dtype=dt))


# ---------------------------------------------------------------- operators
def _fdiv(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return tm.num(a.args[0] // b.args[0])
    return tm.app("floor", a / b)


def _mod(a, b):
    return a - b * _fdiv(a, b)


_OPS = {"+": lambda a, b: tm.add(a, b), "-": lambda a, b: tm.add(a, tm.mul(tm.MINUS1, b)),
        "*": lambda a, b: tm.mul(a, b), "/": lambda a, b: tm.mul(a, tm.power(b, tm.MINUS1)),
        "**": lambda a, b: tm.power(a, b), "//": _fdiv, "%": _mod,
        "&": lambda a, b: tm.andv(a, b), "|": lambda a, b: tm.orv(a, b),
        "^": lambda a, b: tm.notv(tm.eq(tm.truthy(a), tm.truthy(b)))}

_DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "**": "pow", "//": "floordiv", "%": "mod", "@": "matmul",
           "&": "and", "|": "or"}


def texts(v):
    """A choice between known strings."""
    return isinstance(v, Gate) and all(isinstance(x, str) or texts(x) for x in (v.a, v.b))


def parts_of(v):
    """parts of a string value, None if unknown"""
    if isinstance(v, str):
        return (v,)
    return v.parts if isinstance(v, Text) else None


def slot(v, spec="", conv=""):
    """a value written into a text"""
    if isinstance(v, str) and conv != "r" and spec in ("", "s"):
        return (v,)
    if isinstance(v, Text) and conv != "r" and spec in ("", "s"):
        return v.parts
    if isinstance(v, int) and not isinstance(v, bool) and spec in ("", "s", "d", "i"):
        return (str(v),)
    return ((v, conv + spec),)


def whole(parts):
    t = Text(parts)
    return "".join(t.parts) if all(isinstance(p, str) for p in t.parts) else t


PERCENT = re.compile(r"%(?:\((\w*)\))?([-+ #0]*\d*(?:\.\d+)?)([diouxXeEfFgGcrsa%])")


def text_op(i, a, op, b):
    if op == "+":
        p, q = parts_of(a), parts_of(b)
        if p is not None and q is not None:
            return whole(p + q)
    if op == "%" and isinstance(a, str):
        if isinstance(b, tuple):
            vals = list(b)
        elif isinstance(b, Ref) and b.kind == "dict":
            return Str("string operation")
        else:
            vals = [b]
        out, pos = [], 0
        for m in PERCENT.finditer(a):
            out.append(a[pos:m.start()])
            pos = m.end()
            if m.group(3) == "%":
                out.append("%")
                continue
            if m.group(1) is not None or not vals:
                return Str("string operation")
            k = m.group(3)
            out += slot(vals.pop(0), m.group(2) + (k if k not in "sr" else ""), "r" if k == "r" else "")
        if vals:
            return Str("string operation")
        return whole(out + [a[pos:]])
    return Str("string operation")


def format_call(i, fmt, args, kw):
    """"...".format(...)"""
    import string
    out, auto = [], 0
    try:
        fields = list(string.Formatter().parse(fmt))
    except ValueError:
        return Str("string method")
    for lit, name, spec, conv in fields:
        out.append(lit)
        if name is None:
            continue
        if name == "":
            name, auto = str(auto), auto + 1
        if name.isdigit() and int(name) < len(args):
            v = args[int(name)]
        elif name in kw:
            v = kw[name]
        else:
            return Str("string method")
        if "{" in (spec or ""):
            return Str("string method")
        out += slot(v, spec or "", conv or "")
    return whole(out)


def binop(i, a, op, b, node):
    # Python containers and strings
    if isinstance(a, Gate) and texts(a) and (isinstance(b, str) or texts(b)):
        return i.branch(a.c, lambda: binop(i, a.a, op, b, node), lambda: binop(i, a.b, op, b, node))
    if isinstance(b, Gate) and texts(b) and isinstance(a, str):
        return i.branch(b.c, lambda: binop(i, a, op, b.a, node), lambda: binop(i, a, op, b.b, node))
    if isinstance(a, (str, Str)) or isinstance(b, (str, Str)):
        if op == "+" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == "*" and isinstance(a, str) and isinstance(b, int):
            return a * b
        if type(a) is str and type(b) is str and op not in ("+", "%"):
            i.raise_("TypeError", "unsupported operands for %s: text" % op, node)
        return text_op(i, a, op, b)
    if isinstance(a, Ref) and a.kind == "list" and op == "*" and isinstance(b, int):
        return i.alloc("list", items=i.payload(a)["items"] * b)
    if isinstance(b, Ref) and b.kind == "list" and op == "*" and isinstance(a, int):
        return i.alloc("list", items=i.payload(b)["items"] * a)
    if op == "+" and isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "list":
        pa, pb = i.payload(a), i.payload(b)
        if not pa.get("opaque") and not pb.get("opaque"):
            return i.alloc("list", items=pa["items"] + pb["items"])
        return i.alloc("list", items=(), opaque="concatenation")
    if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
        return a + b
    if isinstance(a, tuple) and isinstance(b, int) and op == "*":
        return a * b
    if op == "|" and isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "dict":
        d = dict(i.payload(a)["items"])
        d.update(i.payload(b)["items"])
        if i.payload(a).get("opaque") or i.payload(b).get("opaque"):
            return i.alloc("dict", items=d, opaque="union")
        return i.alloc("dict", items=d)
    if isinstance(a, Ref) and a.kind == "set" and op in ("|", "&", "-", "^") and isinstance(b, Ref) and b.kind == "set":
        r = set_items(i, a, op, b)
        return i.alloc("set", items=()  if r is None else r, opaque="set of values" if r is None else None)
    for x, y, pre in ((a, b, "__"), (b, a, "__r")):
        if isinstance(x, Ref) and x.kind == "obj" and op in _DUNDER:
            f = i.lookup_class(i.payload(x)["cls"], pre + _DUNDER[op] + "__")
            if f is not ABSENT:
                return i.call_value(Bound(f, x), [y], {}, node)
    # plain integers stay plain integers
    if type(a) is int and type(b) is int:
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "//" and b:
            return a // b
        if op == "%" and b:
            return a % b
        if op == "**" and b >= 0:
            return a ** b
        if op == "&":
            return a & b
        if op == "|":
            return a | b
        if op == "<<":
            return a << b
        if op == ">>":
            return a >> b
        if op == "^":
            return a ^ b
        if op in ("/", "//", "%") and b == 0:
            i.raise_("ZeroDivisionError", "division by zero", node)
    if isinstance(a, Gate) or isinstance(b, Gate):
        la, lb = lifted(i, a), lifted(i, b)
        if la is None or lb is None:
            g = a if isinstance(a, Gate) else b
            if a is g:
                return i.branch(g.c, lambda: binop(i, g.a, op, b, node), lambda: binop(i, g.b, op, b, node))
            return i.branch(g.c, lambda: binop(i, a, op, g.a, node), lambda: binop(i, a, op, g.b, node))
    if a is None or b is None:
        i.raise_("TypeError", "unsupported operand None for %s" % op, node)
    if op == "@":
        return matmul(i, a, b, node)
    if op not in _OPS:
        return i.top("operator %s" % op)
    if op == "**":
        la, lb = lifted(i, a), lifted(i, b)
        if la is not None and lb is not None and la.k == "a" and la.dtype == "int?" and type(b) is int and b < 0:
            i.raise_("ValueError", "integers to negative integer powers are not allowed", node)
    return ew(i, _OPS[op], [a, b], node, op)


def matmul(i, a, b, node):
    la, lb = lifted(i, a), lifted(i, b)
    if la is None or lb is None:
        return i.top("matrix product")
    if la.k == "n" and lb.k == "n":
        try:
            r = _np.dot(la.v, lb.v)
        except ValueError:
            i.raise_("ValueError", "matmul shapes %s %s" % (la.v.shape, lb.v.shape), node)
        if not isinstance(r, _np.ndarray):
            return r if isinstance(r, T) else tm.lift(r)
        return new_nd(i, nd_map(lambda x: x if isinstance(x, T) else tm.lift(x), r))
    if la.k == "n" and lb.k == "a":
        return i.top("matrix times generic array")
    return i.top("matrix product")


def set_items(i, a, op, b):
    """items of a set operation; None when it cannot be told which are equal"""
    pa, pb = i.payload(a), i.payload(b)
    x, y = pa["items"], pb["items"]
    if pa.get("opaque") or pb.get("opaque") or not all(type(v) in (int, str, bool) for v in x + y):
        return None
    if op == "|":
        return x + tuple(v for v in y if v not in x)
    if op == "&":
        return tuple(v for v in x if v in y)
    out = tuple(v for v in x if v not in y)
    return out if op == "-" else out + tuple(v for v in y if v not in x)


def inplace(i, cur, op, rhs, node):
    """cur op= rhs"""
    if isinstance(cur, Ref) and cur.kind == "set" and op in ("|", "&", "-", "^"):
        r = set_items(i, cur, op, rhs) if isinstance(rhs, Ref) and rhs.kind == "set" else None
        i.write(cur, **({"opaque": "set of values"} if r is None else {"items": r}))
        return cur
    if isinstance(cur, Ref) and cur.kind == "dict" and op == "|":
        call_method(i, cur, "update", [rhs], {}, node)
        return cur
    if isinstance(cur, Ref) and cur.kind == "list" and op == "*":
        if isinstance(rhs, int):
            i.write(cur, items=i.payload(cur)["items"] * rhs)
        else:
            i.write(cur, opaque="repeated")
        return cur
    if isinstance(cur, Ref) and cur.kind == "list" and op == "+":
        items = items_of(i, rhs, node)
        if items is None:
            i.write(cur, opaque="extended")
        else:
            i.write(cur, items=i.payload(cur)["items"] + tuple(items))
        return cur
    if isinstance(cur, Ref) and cur.kind in ("arr", "nd"):
        v = binop(i, cur, op, rhs, node)
        lc, lv = lifted(i, cur), lifted(i, v)
        if lc is not None and lv is not None and lc.k == lv.k and (lc.k == "a" or lc.v.shape == lv.v.shape) and not (
                cur.kind == "nd" and lc.v.shape == ()):
            if cur.kind == "arr":
                if i.payload(cur)["dtype"] == "int?" and lv.dtype not in _INTS and not integral(lv.v):
                    i.raise_("TypeError", "cannot cast the result of %s= to the integer type of the array" % op, node)
                store_elem(i, cur, lv.v)
            else:
                if is_complex(lv) and not is_complex(lc):
                    i.raise_("TypeError", "cannot cast the result of %s= from complex to the type of the array" % op, node)
                store_nd(i, cur, lv.v)
            return cur
        if cur.kind == "nd" and lc is not None and lv is not None and lv.k == "s" and lc.v.size == 1:
            store_nd(i, cur, _np.full(lc.v.shape, lv.v, dtype=object))
            return cur
        return v
    if isinstance(cur, Gate):
        cases = i.gate_cases(cur)
        if any(isinstance(x, Ref) and x.kind in ("arr", "nd") for _, x in cases):
            got = {}

            def side(k, x):
                got[k] = inplace(i, x, op, rhs, node)
                return got[k]
            r = i.branch(cur.c, lambda: side(0, cur.a), lambda: side(1, cur.b))
            return cur if got.get(0) is cur.a and got.get(1) is cur.b else r
    return binop(i, cur, op, rhs, node)


def store_elem(i, ref, elem):
    p = i.payload(ref)
    if p.get("base") is not None:
        off, n = p["off"], p["len"]
        base = p["base"]
        old = elem_of(i, base)
        e = tm.subst(elem, {IDX: IDX - off}) if off is not tm.ZERO else elem
        conds = []
        if off is not tm.ZERO:
            conds.append(tm.le(off, IDX))
        bl = i.payload(base)["len"]
        if not same_len(n, tm.lift(bl) - off):
            conds.append(tm.lt(IDX, off + tm.lift(n)))
        store_elem(i, base, tm.ite(tm.andv(*conds), e, old) if conds else e)
        return
    i.write(ref, elem=elem)


def same_len(a, b):
    return tm.lift(a) is tm.lift(b)


def store_nd(i, ref, val):
    p = i.payload(ref)
    if p.get("base") is not None:
        b = val_of(i, p["base"]).copy()
        b[p["key"]] = val
        store_nd(i, p["base"], b)
        return
    i.write(ref, val=val)


def unop(i, op, v, node):
    if isinstance(v, bool):
        return {"-": -int(v), "+": int(v), "~": ~int(v)}[op]
    if type(v) is int:
        return {"-": -v, "+": v, "~": ~v}[op]
    if isinstance(v, Ref) and v.kind == "obj":
        f = i.lookup_class(i.payload(v)["cls"], {"-": "__neg__", "+": "__pos__", "~": "__invert__"}[op])
        if f is not ABSENT:
            return i.call_value(Bound(f, v), [], {}, node)
    if v is None:
        i.raise_("TypeError", "bad operand None", node)
    l = lifted(i, v)
    if l is None:
        return i.top("unary operator")
    if op == "~":
        return ew(i, lambda a: tm.notv(tm.truthy(a)), [l], node, "logic")
    if op == "-":
        r = ew(i, lambda a: -a if not tm.is_bool(a) else tm.notv(a), [l], node, "*")
        return r
    return v


_CMPF = {"lt": tm.lt, "le": tm.le, "gt": tm.gt, "ge": tm.ge, "eq": tm.eq, "ne": tm.ne}


def compare(i, op, a, b, node):
    from .context import unbool
    if isinstance(a, Gate) and lifted(i, a) is None:
        return unbool(i.truth(i.branch(a.c, lambda: compare(i, op, a.a, b, node), lambda: compare(i, op, a.b, b, node))))
    if isinstance(b, Gate) and lifted(i, b) is None:
        return unbool(i.truth(i.branch(b.c, lambda: compare(i, op, a, b.a, node), lambda: compare(i, op, a, b.b, node))))
    simple = (str, bool, int, type(None), bytes)
    if isinstance(a, simple) and isinstance(b, simple):
        try:
            return {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b,
                    "eq": lambda: a == b, "ne": lambda: a != b}[op]()
        except TypeError:
            i.raise_("TypeError", "cannot compare %r and %r" % (a, b), node)
    if isinstance(a, (Str, str)) or isinstance(b, (Str, str)):
        if isinstance(a, Str) or isinstance(b, Str):
            return i.fresh("strcmp", True)
        return op == "ne"
    if op in ("eq", "ne"):
        if a is None or b is None:
            if isinstance(a, T) or isinstance(b, T):
                return op == "ne"
            return (a is b) == (op == "eq")
        if isinstance(a, (Cls, Ext, Func, Mod)) or isinstance(b, (Cls, Ext, Func, Mod)):
            r = a is b or a == b
            return r if op == "eq" else not r
    if isinstance(a, tuple) and isinstance(b, tuple) and op in ("lt", "gt", "le", "ge"):
        r = tm.lift((len(a) < len(b)) if op == "lt" else (len(a) > len(b)) if op == "gt" else
                    (len(a) <= len(b)) if op == "le" else (len(a) >= len(b)))
        for x, y in reversed(list(zip(a, b))):
            same = i.truth(compare(i, "eq", x, y, node), node)
            if same is not tm.TRUE:
                r = tm.ite(same, r, i.truth(compare(i, op[0] + "t", x, y, node), node))
        return unbool(r)
    if isinstance(a, tuple) and isinstance(b, tuple) and op in ("eq", "ne"):
        if len(a) != len(b):
            return op == "ne"
        r = tm.andv(*[i.truth(compare(i, "eq", x, y, node)) for x, y in zip(a, b)]) if a else tm.TRUE
        return unbool(r if op == "eq" else tm.notv(r))
    if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "list":
        x, y = i.payload(a), i.payload(b)
        if not x.get("opaque") and not y.get("opaque"):
            return compare(i, op, tuple(x["items"]), tuple(y["items"]), node)
    if isinstance(a, Ref) and a.kind == "obj":
        f = i.lookup_class(i.payload(a)["cls"], "__%s__" % op)
        if f is not ABSENT:
            return i.call_value(Bound(f, a), [b], {}, node)
        f = i.lookup_class(i.payload(a)["cls"], "__eq__") if op == "ne" else ABSENT
        if f is not ABSENT:
            return unbool(tm.notv(i.truth(i.call_value(Bound(f, a), [b], {}, node), node)))
        if op in ("eq", "ne") and isinstance(b, Ref):
            return (a == b) == (op == "eq")
        if op in ("eq", "ne"):
            return op == "ne"
    if a is None or b is None:
        i.raise_("TypeError", "comparison with None", node)
    return ew(i, _CMPF[op], [a, b], node, "cmp")


def logical(i, op, a, b, node):
    if isinstance(a, bool) and isinstance(b, bool):
        return (a and b) if op == "and" else (a or b)
    f = (lambda x, y: tm.andv(x, y)) if op == "and" else (lambda x, y: tm.orv(x, y))
    la, lb = lifted(i, a), lifted(i, b)
    if (la is not None and la.k != "s") or (lb is not None and lb.k != "s"):
        # `a < b < c` on arrays takes the truth of an array
        return f(i.truth(a, node), i.truth(b, node))
    from .context import unbool
    return unbool(f(i.truth(a, node), i.truth(b, node)))


# ---------------------------------------------------------------- subscripts
def hashkey(i, k):
    if isinstance(k, T):
        if tm.is_int(k):
            return int(k.args[0])
        return k
    if isinstance(k, (str, int, bool, tuple, type(None), bytes, Ref, Ext, Cls, Func)):
        return k
    if isinstance(k, Str):
        return k
    return k


def key_terms(i, k, node):
    """A mapping key as a tuple of terms (None: not a key made of plain values)."""
    if isinstance(k, tuple):
        out = [tm.sym("'tuple%d'" % len(k))]
        for x in k:
            r = key_terms(i, x, node)
            if r is None:
                return None
            out.extend(r)
        return tuple(out)
    if isinstance(k, str):
        return (tm.sym("'%s'" % k),)
    if isinstance(k, Ref) and k.kind in ("arr", "nd", "list", "dict", "set"):
        i.raise_("TypeError", "unhashable key", node)
    try:
        t = tm.lift(k)
    except TypeError:
        return None
    return None if t is None else (t,)


def as_int(i, k):
    if isinstance(k, bool):
        return int(k)
    if isinstance(k, int):
        return k
    if isinstance(k, T) and tm.is_int(k):
        return int(k.args[0])
    return None


def concrete_index(i, k):
    """A numpy index without symbols, or None."""
    if k is None or k is ELLIPSIS:
        return (k if k is None else Ellipsis, True)
    if isinstance(k, Slice):
        out = []
        for x in (k.lo, k.hi, k.step):
            if x is None:
                out.append(None)
            else:
                n = as_int(i, x)
                if n is None:
                    return (None, False)
                out.append(n)
        return (slice(*out), True)
    n = as_int(i, k)
    if n is not None and not isinstance(k, bool):
        return (n, True)
    if isinstance(k, tuple):
        out = []
        for x in k:
            v, ok = concrete_index(i, x)
            if not ok:
                return (None, False)
            out.append(v)
        return (tuple(out), True)
    if isinstance(k, Ext) and k.name == "numpy.newaxis":
        return (None, True)
    l = lifted(i, k)
    if l is not None and l.k == "n":
        flat = l.v.reshape(-1)
        if all(x in (tm.TRUE, tm.FALSE) for x in flat) and flat.size:
            return (nd_map(lambda x: x is tm.TRUE, l.v).astype(bool), True)
        if all(tm.is_int(x) for x in flat):
            return (_np.array([int(x.args[0]) for x in flat], dtype=int).reshape(l.v.shape), True)
    return (None, False)


def fractional(i, k):
    """an index that is certainly no integer"""
    if isinstance(k, tuple):
        return any(fractional(i, x) for x in k)
    if isinstance(k, Slice):
        return any(fractional(i, x) for x in (k.lo, k.hi, k.step))
    return isinstance(k, T) and k.op == "num" and not tm.is_int(k)


def getitem(i, o, k, node):
    if isinstance(o, (tuple, str)) or isinstance(o, Ref) and o.kind in ("list", "arr", "nd"):
        if fractional(i, k):
            i.raise_("IndexError", "index is not an integer", node)
    if isinstance(o, Gate):
        return i.branch(o.c, lambda: getitem(i, o.a, k, node), lambda: getitem(i, o.b, k, node))
    if isinstance(k, Gate):
        return i.branch(k.c, lambda: getitem(i, o, k.a, node), lambda: getitem(i, o, k.b, node))
    if isinstance(o, (tuple, str)):
        n = as_int(i, k)
        if n is not None:
            if not -len(o) <= n < len(o):
                i.raise_("IndexError", "index %d of %d" % (n, len(o)), node)
            return o[n]
        c, ok = concrete_index(i, k)
        if ok and isinstance(c, slice):
            return o[c]
        return i.top("sequence index")
    if isinstance(o, Ref):
        if o.kind == "list":
            p = i.payload(o)
            if p.get("opaque"):
                return i.top("element of an unknown list")
            n = as_int(i, k)
            if n is not None:
                if any(isinstance(x, CondItem) for x in p["items"]):
                    return i.top("element of a conditional list")
                if not -len(p["items"]) <= n < len(p["items"]):
                    i.raise_("IndexError", "list index %d of %d" % (n, len(p["items"])), node)
                return p["items"][n]
            c, ok = concrete_index(i, k)
            if ok and isinstance(c, slice):
                return i.alloc("list", items=tuple(p["items"][c]))
            if isinstance(k, T):
                # a list of numbers indexed by a value: select
                try:
                    vals = [tm.lift(x) for x in p["items"]]
                    if all(v is not None for v in vals) and vals:
                        cur = vals[-1]
                        for n in range(len(vals) - 2, -1, -1):
                            cur = tm.ite(tm.eq(tm.lift(k), tm.num(n)), vals[n], cur)
                        return cur
                except TypeError:
                    pass
            return i.top("list index")
        if o.kind == "dict":
            p = i.payload(o)
            kk = hashkey(i, k)
            try:
                if kk in p["items"]:
                    v = p["items"][kk]
                    if isinstance(v, Gate):
                        return i.resolve_absent(v, lambda: _nokey(i, kk, node), node)
                    return v
            except TypeError:
                pass
            if p.get("hist"):
                kt = key_terms(i, kk, node)
                return i.top("entry of an unknown mapping") if kt is None else tm.app("hist:%s#hist" % p["hist"], *kt)
            if p.get("opaque"):
                return i.top("entry of an unknown mapping") if not isinstance(kk, T) else tm.app("hist:get#hist", kk)
            if p.get("factory") is not None:
                v = i.call_value(p["factory"], [], {}, node)
                i.write(o, items={**i.payload(o)["items"], kk: v})
                return v
            if isinstance(kk, (Str,)):
                return i.top("entry under an unknown key")
            if isinstance(kk, T) and not kk.op == "num":
                return i.top("entry under a computed key")
            return _nokey(i, kk, node)
        if o.kind in SPACES:
            if not isinstance(k, str):
                return i.top("namespace")
            d = space_vars(i, o)
            if k not in d and i.payload(o).get("havoc") is not None:
                return i.getattr(Ref(o.oid, "obj"), k, node)
            return i.resolve_absent(d.get(k, ABSENT), lambda: _nokey(i, k, node), node)
        if o.kind == "arr":
            return arr_get(i, o, k, node)
        if o.kind == "nd":
            val = val_of(i, o)
            c, ok = concrete_index(i, k)
            if ok:
                try:
                    r = val[c]
                except IndexError:
                    i.raise_("IndexError", "index %r for shape %s" % (c, val.shape), node)
                if not isinstance(r, _np.ndarray):
                    return unlift(i, L("s", r, dtype=i.payload(o).get("dtype", "float")))
                basic = not any(isinstance(x, _np.ndarray) for x in (c if isinstance(c, tuple) else (c,)))
                if basic:
                    return i.alloc("nd", val=None, base=o, key=c, dtype=i.payload(o).get("dtype", "float"))
                return new_nd(i, r, i.payload(o).get("dtype", "float"))
            if val.ndim == 1 and isinstance(k, T):
                cur = val[-1]
                for n in range(len(val) - 2, -1, -1):
                    cur = tm.ite(tm.eq(k, tm.num(n)), val[n], cur)
                return cur
            l = lifted(i, k)
            if l is not None and l.k == "n" and l.v.shape == val.shape and all(tm.is_bool(x) for x in l.v.reshape(-1)):
                return selected(i, tuple(l.v.reshape(-1)), list(val.reshape(-1)))
            r = part_of(i, val, k)
            return i.top("array index") if r is None else r
        if o.kind == "obj":
            f = i.lookup_class(i.payload(o)["cls"], "__getitem__")
            if f is not ABSENT:
                return i.call_value(Bound(f, o), [k], {}, node)
            i.raise_("TypeError", "object is not subscriptable", node)
    if isinstance(o, T):
        if k is ELLIPSIS or k == () and isinstance(k, tuple):
            return o
        l = lifted(i, k)
        if l is not None and l.k == "s" and tm.is_bool(l.v):
            # numpy scalar selected by its own condition
            return new_arr(i, o, tm.ONE, "float", l.v)
        if o.op == "sym" and o.args[0].startswith("⊤"):
            return i.top("element of an unknown value")
        if o.op == "num" or o.op == "sym" and o.args[0].isidentifier():
            if not isinstance(k, bool) and l is not None and l.k == "s":
                i.raise_(i.caught("TypeError", "IndexError") or "TypeError", "a number is not subscriptable", node)
        if o.op in ("sym", "num"):
            exc = i.caught("TypeError", "IndexError")
            if exc:
                # the source is prepared for a plain number
                i.raise_(exc, "a number is not subscriptable", node)
        return i.top("subscript of a scalar")
    if isinstance(o, (Cls, Ext)):
        return o        # generic types such as Union[int, None]
    if o is None:
        i.raise_("TypeError", "None is not subscriptable", node)
    if isinstance(o, (Str, Dummy)):
        return i.top("subscript")
    return i.top("subscript of %r" % (o,))


def _nokey(i, k, node):
    i.raise_("KeyError", repr(k), node)


def norm_index(i, k, length):
    """T index, negative constants counted from the end"""
    t = tm.lift(k) if not isinstance(k, Ref) else None
    if t is None:
        return None
    if t.op == "num" and t.args[0] < 0:
        return tm.lift(length) + t
    return t


def arr_get(i, o, k, node):
    p = i.payload(o)
    e = elem_of(i, o)
    if isinstance(k, tuple) and len(k) == 1:
        k = k[0]
    if isinstance(k, Slice):
        if k.step is not None and as_int(i, k.step) != 1:
            if as_int(i, k.step) == -1 and k.lo is None and k.hi is None:
                n = tm.lift(p["len"])
                return new_arr(i, tm.subst(e, {IDX: n - tm.ONE - IDX}), p["len"], p["dtype"])
            return i.top("strided slice")
        n = tm.lift(p["len"])
        lo = tm.ZERO if k.lo is None else norm_index(i, k.lo, n)
        hi = n if k.hi is None else norm_index(i, k.hi, n)
        if lo is None or hi is None:
            return i.top("slice bound")
        if p.get("mask") is not None:
            return i.top("slice of a selection")
        return i.alloc("arr", elem=None, base=o, off=lo, len=hi - lo, dtype=p["dtype"], mask=None)
    if k is ELLIPSIS or isinstance(k, tuple) and not k:
        return o
    if isinstance(k, (int, T)) and not isinstance(k, bool) and not (isinstance(k, T) and tm.is_bool(k)):
        if p.get("mask") is not None:
            return i.top("position in a selection")
        ix = norm_index(i, k, p["len"])
        return tm.subst(e, {IDX: ix})
    l = lifted(i, k)
    if l is not None and l.k in ("a", "s"):
        if l.dtype == "bool" or tm.is_bool(l.v):
            m = tm.truthy(l.v)
            if p.get("mask") is not None and p["mask"] is not m:
                return i.top("selection of a selection")
            return new_arr(i, e, p["len"], p["dtype"], m)
        if l.k == "a":
            return new_arr(i, tm.subst(e, {IDX: l.v}), l.len, p["dtype"], l.mask)
    return i.top("array index")


def setitem(i, o, k, v, node):
    if isinstance(o, Ref) and o.kind in ("list", "arr", "nd") and fractional(i, k):
        i.raise_("IndexError", "index is not an integer", node)
    if isinstance(o, Gate):
        i.branch(o.c, lambda: setitem(i, o.a, k, v, node), lambda: setitem(i, o.b, k, v, node))
        return
    if isinstance(o, Ref):
        if o.kind == "list":
            p = i.payload(o)
            items = list(p["items"])
            known = not p.get("opaque") and not any(isinstance(x, CondItem) for x in items)
            if isinstance(k, Slice):
                cut, ok = concrete_index(i, k)
                new = items_of(i, v, node) if ok and known else None
                if new is None:
                    i.write(o, opaque="stored at unknown places")
                    return
                try:
                    items[cut] = new
                except ValueError as e:
                    i.raise_("ValueError", str(e), node)
                i.write(o, items=tuple(items))
                return
            n = as_int(i, k)
            if n is not None and not p.get("opaque") and 0 <= n < len(items) and not any(
                    isinstance(x, CondItem) for x in items[:n + 1]):
                known = True
            if n is not None and known:
                if not -len(items) <= n < len(items):
                    i.raise_("IndexError", "list index", node)
                items[n] = v
                i.write(o, items=tuple(items))
            else:
                i.write(o, opaque="stored at an unknown index")
            return
        if o.kind == "dict":
            d = dict(i.payload(o)["items"])
            kk = hashkey(i, k)
            if isinstance(kk, Str):
                i.write(o, opaque="stored under an unknown key")
                return
            try:
                d[kk] = v
            except TypeError:
                i.raise_("TypeError", "unhashable key", node)
            h = i.payload(o).get("hist")
            if h:
                kt = key_terms(i, kk, node)
                if kt is not None:
                    i.hist_stores.setdefault(h, []).append((kt, v))
            i.write(o, items=d)
            return
        if o.kind in SPACES:
            if not isinstance(k, str):
                raise Unsupported("store under a computed name")
            d = dict(space_vars(i, o))
            d[k] = v
            space_put(i, o, d, node)
            return
        if o.kind == "arr":
            arr_set(i, o, k, v, node)
            return
        if o.kind == "nd":
            nd_set(i, o, k, v, node)
            return
        if o.kind == "obj":
            f = i.lookup_class(i.payload(o)["cls"], "__setitem__")
            if f is not ABSENT:
                i.call_value(Bound(f, o), [k, v], {}, node)
                return
            i.raise_("TypeError", "object does not support item assignment", node)
    if isinstance(o, tuple) or isinstance(o, str):
        i.raise_("TypeError", "item assignment on a sequence that cannot change", node)
    if isinstance(o, T) and not (o.op == "sym" and o.args[0].startswith("⊤")) and o.op != "app":
        i.raise_("TypeError", "item assignment on a scalar", node)
    i.event("unknown-store", node, name="[]")


def arr_set(i, o, k, v, node):
    p = i.payload(o)
    e = elem_of(i, o)
    l = lifted(i, v)
    if l is None:
        store_elem(i, o, i.top("stored value"))
        return
    if p["dtype"] in ("int", "int?") and l.dtype not in _INTS:
        l = L(l.k, nd_map(lambda x: cast(x, l.dtype, p["dtype"]), l.v) if l.k == "n" else cast(l.v, l.dtype, p["dtype"]), l.len,
              p["dtype"], l.mask)
        v = unlift(i, l) if l.k == "s" else v
    if isinstance(k, tuple) and len(k) == 1:
        k = k[0]
    if isinstance(k, Slice):
        if k.step is not None and as_int(i, k.step) != 1:
            store_elem(i, o, i.top("strided store"))
            return
        n = tm.lift(p["len"])
        lo = tm.ZERO if k.lo is None else norm_index(i, k.lo, n)
        hi = None if k.hi is None else norm_index(i, k.hi, n)
        if l.k == "n":
            val = l.v.reshape(-1)[0] if l.v.size == 1 else i.top("stored shape")
        else:
            val = l.v
        if l.k == "a":
            if l.mask is not None:
                val = i.top("selection stored in a slice")
            elif lo is not tm.ZERO:
                val = tm.subst(val, {IDX: IDX - lo})
        conds = []
        if lo is not tm.ZERO:
            conds.append(tm.le(lo, IDX))
        if hi is not None:
            conds.append(tm.lt(IDX, hi))
        store_elem(i, o, tm.ite(tm.andv(*conds), val, e) if conds else val)
        return
    if k is ELLIPSIS:
        store_elem(i, o, l.v if l.k != "n" else i.top("stored shape"))
        return
    kl = lifted(i, k)
    if kl is None:
        store_elem(i, o, i.top("store at an unknown index"))
        return
    if kl.dtype == "bool" or (kl.k in ("a", "s") and tm.is_bool(kl.v)):
        m = tm.truthy(kl.v)
        if l.k == "a" and l.mask is not m:
            if l.mask is None or l.mask is not m:
                i.event("misaligned", node, masks=[l.mask, m])
                val = i.top("values selected by another mask")
        else:
            val = l.v if l.k != "n" else (l.v.reshape(-1)[0] if l.v.size == 1 else i.top("stored shape"))
        if l.k == "a" and l.mask is m:
            val = l.v
        store_elem(i, o, tm.ite(m, val, e))
        return
    if kl.k == "s":
        ix = norm_index(i, kl.v, p["len"])
        val = scalar_of(i, v)
        store_elem(i, o, tm.ite(tm.eq(IDX, ix), val, e))
        return
    store_elem(i, o, i.top("scattered store"))


def nd_set(i, o, k, v, node):
    val = val_of(i, o)
    l = lifted(i, v)
    to = i.payload(o).get("dtype", "float")
    if l is not None and to in ("int", "int?") and l.dtype not in _INTS:
        f = lambda x: cast(x, l.dtype, to)
        l = L(l.k, nd_map(f, l.v) if l.k == "n" else f(l.v), l.len, to, l.mask)
    if l is not None and l.k == "a" and l.mask is None:
        # values put one after the other at the places whose condition holds
        kl = lifted(i, k)
        if kl is not None and kl.k == "n" and kl.v.shape == val.shape and all(tm.is_bool(x) for x in kl.v.reshape(-1)):
            out, before = val.copy(), tm.ZERO
            for ix in _np.ndindex(*val.shape):
                out[ix] = tm.ite(kl.v[ix], tm.subst(l.v, {IDX: before}), val[ix])
                before = before + tm.ite(kl.v[ix], tm.ONE, tm.ZERO)
            store_nd(i, o, out)
            return
    if l is None or l.k == "a":
        store_nd(i, o, nd_map(lambda x: i.top("stored value"), val))
        return
    c, ok = concrete_index(i, k)
    if ok:
        new = val.copy()
        try:
            if l.k == "s":
                new[c] = l.v
            else:
                new[c] = l.v if l.v.shape != () else l.v.item()
        except IndexError:
            i.raise_("IndexError", "index %r for shape %s" % (c, val.shape), node)
        except ValueError as e:
            i.raise_("ValueError", "could not broadcast: %s" % e, node)
        store_nd(i, o, new)
        return
    kl = lifted(i, k)
    if kl is not None and kl.k == "n" and kl.v.shape == val.shape and all(tm.is_bool(x) for x in kl.v.reshape(-1)):
        vv = l.v if l.k == "n" else _np.array(l.v, dtype=object)
        try:
            vb = _np.broadcast_to(vv, val.shape)
        except ValueError:
            store_nd(i, o, nd_map(lambda x: i.top("masked store"), val))
            return
        out = _np.empty(val.shape, dtype=object)
        for ix in _np.ndindex(*val.shape):
            out[ix] = tm.ite(kl.v[ix], vb[ix], val[ix])
        store_nd(i, o, out)
        return
    if kl is not None and kl.k == "s" and tm.is_bool(kl.v):
        vv = l.v if l.k == "n" else _np.array(l.v, dtype=object)
        out = nd_map2(lambda a, b: tm.ite(kl.v, b, a), val, _np.broadcast_to(vv, val.shape) if vv.size == 1 else vv)
        store_nd(i, o, out)
        return
    store_nd(i, o, nd_map(lambda x: i.top("store at an unknown index"), val))


def dict_pop(i, o, k, default, has_default, node):
    d = dict(i.payload(o)["items"])
    kk = hashkey(i, k)
    if kk in d:
        v = d.pop(kk)
        i.write(o, items=d)
        return v
    if i.payload(o).get("opaque"):
        return i.top("popped")
    if has_default:
        return default
    return _nokey(i, kk, node)


SPACES = {"objdict": "attrs", "moddict": "vars"}


def space_vars(i, o):
    """names bound in an object, module or function"""
    return i.state.heap[o.oid][SPACES[o.kind]]


def space_put(i, o, d, node):
    if o.kind == "moddict":
        old = space_vars(i, o)
        for k, v in d.items():
            if old.get(k, ABSENT) is not v:
                for m in i.modules.values():
                    if m.oid == o.oid:
                        i.setattr(m, k, v, node)
    i.state.heap[o.oid] = i.state.heap[o.oid].with_(**{SPACES[o.kind]: d})


def contains(i, c, x, node):
    if isinstance(c, Ref) and c.kind in SPACES:
        if not isinstance(x, str):
            return i.fresh("contains", True)
        d = space_vars(i, c)
        if x not in d and i.payload(c).get("havoc") is not None:
            return i.fresh("contains", True)
        return i.present(d[x]) if x in d else tm.FALSE
    if isinstance(c, Gate):
        return tm.ite(c.c, contains(i, c.a, x, node), contains(i, c.b, x, node))
    if isinstance(x, Gate):
        return tm.ite(x.c, contains(i, c, x.a, node), contains(i, c, x.b, node))
    if isinstance(c, str):
        if isinstance(x, str):
            return tm.TRUE if x in c else tm.FALSE
        return i.fresh("contains", True)
    if isinstance(c, Ref) and c.kind == "dict":
        p = i.payload(c)
        k = hashkey(i, x)
        if isinstance(k, Str):
            return i.fresh("contains", True)
        if k in p["items"]:
            return i.present(p["items"][k])
        if p.get("hist"):
            kt = key_terms(i, k, node)
            return i.fresh("hist:has#hist", True) if kt is None else tm.app("?hist:%s#hist" % p["hist"], *kt)
        if p.get("opaque"):
            return tm.app("?hist:has#hist", k) if isinstance(k, T) else i.fresh("hist:has#hist", True)
        if isinstance(k, T) and k.op != "num" and p["items"]:
            return tm.orv(*[tm.eq(k, tm.lift(q)) for q in p["items"] if tm.lift(q) is not None] or [tm.FALSE])
        return tm.FALSE
    items = items_of(i, c, node)
    if items is None:
        return i.fresh("contains", True)
    out = []
    for y in items:
        if isinstance(y, CondItem):
            return i.fresh("contains", True)
        r = compare(i, "eq", x, y, node)
        out.append(i.truth(r, node))
    return tm.orv(*out) if out else tm.FALSE


def items_of(i, v, node, want=None):
    """All elements of a finite sequence, or None."""
    if isinstance(v, Endless):
        return None
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, str):
        return list(v)
    if isinstance(v, Range):
        if all(isinstance(x, int) for x in (v.lo, v.hi, v.step)) and v.step:
            return list(range(v.lo, v.hi, v.step))
        return None
    if isinstance(v, Ref):
        p = i.state.heap.get(v.oid)
        if v.kind in ("list", "set"):
            if p.get("opaque") or any(isinstance(x, CondItem) for x in p["items"]):
                return None
            if p.get("iterator"):
                i.write(v, items=())
            return list(p["items"])
        if v.kind == "dict":
            return None if p.get("opaque") else list(p["items"])
        if v.kind == "nd":
            val = val_of(i, v)
            if val.ndim == 0:
                i.raise_("TypeError", "iteration over a 0-d array", node)
            out = []
            for k in range(val.shape[0]):
                r = val[k]
                out.append(unlift(i, L("s", r, dtype=p.get("dtype", "float"))) if not isinstance(r, _np.ndarray)
                           else i.alloc("nd", val=None, base=v, key=k, dtype=p.get("dtype", "float")))
            return out
        if v.kind == "arr" and want is not None:
            return [getitem(i, v, k, node) for k in range(want)]
        if v.kind == "obj":
            f = i.lookup_class(p["cls"], "__iter__")
            if f is not ABSENT:
                return items_of(i, i.call_value(Bound(f, v), [], {}, node), node)
    if v is None:
        i.raise_("TypeError", "None is not iterable", node)
    if isinstance(v, T) and not (v.op == "sym" and v.args[0].startswith("⊤")) and v.op != "app":
        i.raise_("TypeError", "a number is not iterable", node)
    return None


def pairs_of(i, v, node):
    """The entries a dictionary gets from a mapping or an iterable of pairs, or None."""
    if isinstance(v, Ref) and v.kind == "dict":
        return None if i.payload(v).get("opaque") else dict(i.payload(v)["items"])
    if isinstance(v, Ref) and v.kind in SPACES:
        d = space_vars(i, v)
        return None if any(i.present(x) is not tm.TRUE for x in d.values()) else dict(d)
    items = items_of(i, v, node)
    if items is None:
        return None
    out = {}
    for it in items:
        kv = items_of(i, it, node)
        if kv is None:
            return None
        if len(kv) != 2:
            i.raise_("ValueError", "dictionary update sequence element", node)
        out[hashkey(i, kv[0])] = kv[1]
    return out


def iterate(i, v, node):
    if isinstance(v, MapIter):
        return ("map", v.binder, v.length)
    if isinstance(v, Ref) and v.kind == "arr":
        if i.payload(v).get("mask") is not None:
            return None
        return ("map", elem_of(i, v), i.payload(v)["len"])
    if isinstance(v, Range):
        if all(isinstance(x, int) for x in (v.lo, v.hi, v.step)):
            n = len(range(v.lo, v.hi, v.step))
            return ("items", range(v.lo, v.hi, v.step)) if n <= 5000 else ("range", v)
        if tm.lift(v.lo) is tm.ZERO and v.step == 1:
            return ("map", IDX, v.hi)
        return ("range", v)
    items = items_of(i, v, node)
    if items is None:
        return None
    return ("items", items)


# ---------------------------------------------------------------- attributes
def value_attr(i, v, name, node):
    if isinstance(v, T):
        if v.op == "sym" and v.args[0].startswith("⊤"):
            return i.top("attribute %s of an unknown value" % name)
        if name in ("real", "imag"):
            return ew(i, lambda a: _re(a) if name == "real" else _im(a), [v], node)
        if name == "T":
            return v
        if name in ("size",):
            return 1
        if name == "ndim":
            return 0
        if name == "shape":
            return ()
        if name == "dtype":
            return Str("dtype")
        return ExtMethod(v, name)
    if isinstance(v, Ref) and v.kind == "arr":
        p = i.payload(v)
        if name == "size":
            return p["len"]
        if name == "shape":
            return (p["len"],)
        if name == "ndim":
            return 1
        if name == "T":
            return v
        if name in ("real", "imag"):
            return ew(i, lambda a: _re(a) if name == "real" else _im(a), [v], node)
        if name == "dtype":
            return DType(p["dtype"])
        return ExtMethod(v, name)
    if isinstance(v, Ref) and v.kind == "nd":
        val = val_of(i, v)
        if name == "size":
            return val.size
        if name == "shape":
            return tuple(val.shape)
        if name == "ndim":
            return val.ndim
        if name == "T":
            return new_nd(i, val.T.copy())
        if name in ("real", "imag"):
            return ew(i, lambda a: _re(a) if name == "real" else _im(a), [v], node)
        if name == "dtype":
            return DType(i.payload(v).get("dtype", "float"))
        if name == "flat":
            return v
        return ExtMethod(v, name)
    if isinstance(v, int):
        if name == "real":
            return v
        if name == "imag":
            return 0
        return ExtMethod(v, name)
    if v is None:
        i.raise_("AttributeError", "None has no attribute %s" % name, node)
    if isinstance(v, (Bound,)) and name == "__func__":
        return v.func
    if isinstance(v, (Bound,)) and name == "__name__":
        return v.func.qual.split(".")[-1] if isinstance(v.func, Func) else Str("name")
    if isinstance(v, Prop):
        return ExtMethod(v, name)
    return ExtMethod(v, name)


def _re(a):
    if a.op in ("num",):
        return a
    return tm.app("real", a)


def _im(a):
    if a.op in ("num",):
        return tm.ZERO
    return tm.app("imag", a)


_CONSTS = {"numpy.pi": tm.PI, "math.pi": tm.PI, "numpy.e": tm.exp(tm.ONE), "math.e": tm.exp(tm.ONE),
           "numpy.inf": tm.INF, "math.inf": tm.INF, "numpy.nan": tm.NAN, "math.nan": tm.NAN, "numpy.Inf": tm.INF,
           "math.tau": tm.TWO * tm.PI, "numpy.infty": tm.INF, "cmath.pi": tm.PI, "scipy.constants.pi": tm.PI}


def ext_attr(i, e, name):
    full = e.name + "." + name
    full = {"numpy.absolute": "numpy.abs"}.get(full, full)
    if full in _CONSTS:
        return _CONSTS[full]
    if full == "numpy.newaxis":
        return None
    if e.name == "numpy.finfo()":
        if name == "eps":
            return tm.fnum(2.220446049250313e-16)
        if name in ("tiny", "smallest_normal"):
            return tm.fnum(2.2250738585072014e-308)
        if name == "max":
            return tm.fnum(1.7976931348623157e308)
    if full.startswith("sys.float_info.epsilon"):
        return tm.fnum(2.220446049250313e-16)
    return Ext(full)


# ---------------------------------------------------------------- functions
def _log10(a):
    return tm.log(a) / tm.log(tm.num(10))


_UN = {
    "sqrt": tm.sqrt, "exp": tm.exp, "log": tm.log, "sin": tm.sin, "cos": tm.cos, "tan": tm.tan,
    "arcsin": tm.asin, "arccos": tm.acos, "arctan": tm.atan, "asin": tm.asin, "acos": tm.acos, "atan": tm.atan,
    "sinh": tm.sinh, "cosh": tm.cosh, "tanh": tm.tanh, "arcsinh": lambda a: tm.app("asinh", a),
    "arccosh": lambda a: tm.app("acosh", a), "arctanh": lambda a: tm.app("atanh", a),
    "asinh": lambda a: tm.app("asinh", a), "acosh": lambda a: tm.app("acosh", a), "atanh": lambda a: tm.app("atanh", a),
    "abs": tm.absv, "fabs": tm.absv, "absolute": tm.absv, "square": lambda a: tm.power(a, tm.TWO),
    "radians": lambda a: a * tm.DEG, "deg2rad": lambda a: a * tm.DEG,
    "degrees": lambda a: a * tm.RAD, "rad2deg": lambda a: a * tm.RAD,
    "log10": _log10, "log2": lambda a: tm.log(a) / tm.log(tm.TWO), "log1p": lambda a: tm.log(tm.ONE + a),
    "expm1": lambda a: tm.exp(a) - tm.ONE, "reciprocal": lambda a: tm.power(a, tm.MINUS1),
    "negative": lambda a: -a, "positive": lambda a: a, "sign": tm.sign,
    "cbrt": lambda a: tm.sign(a) * tm.power(tm.absv(a), tm.num(Fraction(1, 3))),
    "floor": tm.floor, "ceil": lambda a: tm.app("ceil", a), "trunc": lambda a: tm.app("trunc", a),
    "rint": lambda a: tm.app("rint", a), 
    "conj": lambda a: tm.app("conj", a), "conjugate": lambda a: tm.app("conj", a), "real": _re, "imag": _im,
    "isnan": lambda a: tm.app("?isnan", a), "isfinite": lambda a: tm.notv(tm.app("?isnan", a)),
    "isinf": lambda a: tm.FALSE, "logical_not": lambda a: tm.notv(tm.truthy(a)), "invert": lambda a: tm.notv(tm.truthy(a)),
    "exp2": lambda a: tm.power(tm.TWO, a), "gamma": lambda a: tm.app("gammafn", a), "spacing": lambda a: tm.app("spacing", a),
    "real_if_close": lambda a: a, "signbit": lambda a: tm.lt(a, tm.ZERO), "heaviside": None,
}
del _UN["heaviside"]
_BIN = {
    "power": tm.power, "float_power": tm.power, "pow": tm.power, "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b, "divide": lambda a, b: a / b,
    "true_divide": lambda a, b: a / b, "arctan2": tm.atan2, "atan2": tm.atan2,
    "hypot": lambda a, b: tm.sqrt(a * a + b * b), "maximum": tm.maximum, "minimum": tm.minimum,
    "fmax": tm.maximum, "fmin": tm.minimum, "mod": _mod, "remainder": _mod, "fmod": _mod, "floor_divide": _fdiv,
    "logical_and": lambda a, b: tm.andv(a, b), "logical_or": lambda a, b: tm.orv(a, b),
    "logical_xor": lambda a, b: tm.notv(tm.eq(tm.truthy(a), tm.truthy(b))),
    "bitwise_and": lambda a, b: tm.andv(a, b), "bitwise_or": lambda a, b: tm.orv(a, b),
    "greater": tm.gt, "greater_equal": tm.ge, "less": tm.lt, "less_equal": tm.le, "equal": tm.eq, "not_equal": tm.ne,
    "copysign": lambda a, b: tm.absv(a) * tm.ite(tm.lt(b, tm.ZERO), tm.MINUS1, tm.ONE),
    "heaviside": lambda a, b: tm.ite(tm.lt(a, tm.ZERO), tm.ZERO, tm.ite(tm.eq(a, tm.ZERO), b, tm.ONE)),
    "nextafter": lambda a, b: a, "ldexp": lambda a, b: a * tm.power(tm.TWO, b),
}
_BOOLF = {"logical_and", "logical_or", "logical_xor", "logical_not", "isnan", "isfinite", "isinf", "greater",
          "greater_equal", "less", "less_equal", "equal", "not_equal", "bitwise_and", "bitwise_or", "signbit", "invert"}
_RED = {"min": "amin", "amin": "amin", "max": "amax", "amax": "amax", "sum": "asum", "mean": "amean", "prod": "aprod",
        "argmin": "argmin", "argmax": "argmax", "any": "?any", "all": "?all", "median": "amedian", "std": "astd",
        "var": "avar", "ptp": "aptp", "nanmin": "amin", "nanmax": "amax", "count_nonzero": "count", "average": "amean",
        "argsort": "argsort", "sort": "sorted", "unique": "unique", "cumsum": "cumsum", "trapz": "trapz", "diff": "diff",
        "nansum": "asum", "gradient": "gradient", "cumprod": "cumprod", "linalg.norm": "norm"}
_LEAF = ("numpy", "math", "cmath", "scipy", "numpy.linalg", "np")


_SIGS = {}


def _signature(name):
    """the interface of a library function: (least, most, required, accepted) or None when it is not known"""
    if name in _SIGS:
        return _SIGS[name]
    r = None
    top, _, leaf = name.rpartition(".")
    if name == "numpy.where":
        r = (1, 3, ["condition"], None)
    elif top in ("numpy", "scipy.optimize", "scipy.linalg", "numpy.linalg", "math"):
        try:
            f = getattr(importlib.import_module(top), leaf)
            if isinstance(f, _np.ufunc):
                r = (f.nin, f.nargs, [], None)
            elif not isinstance(f, type):
                ps = inspect.signature(f).parameters.values()
                if not any(p.kind == p.VAR_POSITIONAL for p in ps):
                    pos = [p for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
                    names = None if any(p.kind == p.VAR_KEYWORD for p in ps) else {p.name for p in ps}
                    r = (0, len(pos), [p.name for p in pos if p.default is p.empty], names)
        except (ImportError, AttributeError, TypeError, ValueError):
            r = None
    _SIGS[name] = r
    return r


def check_signature(i, name, args, kw, node):
    """a call which the library refuses whatever the values: too few or too many arguments"""
    s = _signature(name)
    if s is None:
        return
    least, most, required, names = s
    if len(args) > most:
        i.raise_("TypeError", "%s() takes at most %d arguments, %d given" % (name, most, len(args)), node)
    if len(args) < least or any(k >= len(args) and n not in kw for k, n in enumerate(required)):
        i.raise_("TypeError", "%s() is missing an argument" % name, node)
    if names is not None and set(kw) - names:
        i.raise_("TypeError", "%s() got an unexpected keyword argument %s" % (name, sorted(set(kw) - names)[0]), node)
    if name == "numpy.where" and len(args) == 2 and not kw:
        i.raise_("ValueError", "where() takes one or three arguments", node)


def call_ext(i, name, args, kw, node):
    i.call_sites += 1
    check_signature(i, name, args, kw, node)
    top, _, leaf = name.rpartition(".")
    if top == "builtins":
        return call_builtin(i, leaf, args, kw, node)
    uf = getattr(_np, leaf, None) if top == "numpy" else None
    if isinstance(uf, _np.ufunc):
        kw = dict(kw)
        if len(args) == uf.nin + 1:
            kw["out"] = args[uf.nin]
            args = args[:uf.nin]
        if set(kw) - {"out", "where", "dtype", "casting"} or "dtype" in kw and _dt(i, kw["dtype"], "?") != "float" \
                or kw.get("where") is not None and kw["where"] is not True and kw.get("out") is None:
            return i.top("%s with options" % name)
        kw.pop("dtype", None)
        kw.pop("casting", None)
    out = kw.pop("out", None) if top in ("numpy", "numpy.ma") else None
    where = kw.pop("where", None) if out is not None or (top == "numpy" and leaf in _UN) else None
    r = _call_ext(i, name, top, leaf, args, kw, node)
    if out is not None and out is not None:
        tgt = out[0] if isinstance(out, tuple) else out
        if tgt is None:
            return r
        if isinstance(tgt, Ref):
            if where is not None:
                m = lifted(i, where)
                old = lifted(i, tgt)
                new = lifted(i, r)
                if None not in (m, old, new) and old.k in ("a", "s") and new.k in ("a", "s") and m.k in ("a", "s"):
                    store_elem(i, tgt, tm.ite(tm.truthy(m.v), new.v, old.v))
                else:
                    setitem(i, tgt, Slice(None, None, None), i.top("masked ufunc"), node)
                return tgt
            if tgt.kind == "nd" and val_of(i, tgt).shape == ():
                setitem(i, tgt, (), r, node)
            else:
                setitem(i, tgt, Slice(None, None, None), r, node)
            return tgt
    return r


def _arg(args, kw, k, name, default=None):
    if k < len(args):
        return args[k]
    return kw.get(name, default)


_FOLD = {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min", "logical_and": "all", "logical_or": "any"}


_KEEP = {"square", "abs", "absolute", "negative", "positive", "sign", "conj", "conjugate", "add", "subtract", "multiply",
         "maximum", "minimum", "fmax", "fmin", "power", "mod", "remainder", "floor_divide"}


def _rule(leaf):
    """how the number type of a result follows from those of the arguments"""
    return "logic" if leaf in _BOOLF else "keep" if leaf in _KEEP else "fn"


def ufunc_method(i, op, meth, args, kw, node):
    """reduce, accumulate and outer of a binary element-wise function"""
    def two(a, b):
        return ew(i, _BIN[op], [a, b], node, _rule(op))
    if meth == "outer":
        a, b = _nd(i, args[0]), _nd(i, args[1])
        if a is None or b is None:
            return ABSENT
        x = unlift(i, L("n", a.reshape(a.shape + (1,) * b.ndim)))
        y = unlift(i, L("n", b.reshape((1,) * a.ndim + b.shape)))
        return two(x, y)
    axis = _arg(args, kw, 1, "axis", 0)
    if set(kw) - {"axis"} or len(args) > 2:
        return ABSENT
    v = args[0]
    if isinstance(v, Ref) and v.kind == "nd" and val_of(i, v).ndim > 1 and axis != 0:
        return ABSENT
    items = items_of(i, v, node)
    if items is None:
        return reduce_(i, _FOLD[op], [v], {}, node) if op in _FOLD and meth == "reduce" and isinstance(v, Ref) and v.kind == "arr" else ABSENT
    if axis not in (0, None) or not items:
        return ABSENT
    acc = items[0]
    if op in ("logical_and", "logical_or") and len(items) == 1:
        acc = two(acc, acc)
    out = [acc]
    for x in items[1:]:
        acc = two(acc, x)
        out.append(acc)
    if meth == "reduce":
        return acc
    return call_ext(i, "numpy.array", [i.alloc("list", items=tuple(out))], {}, node)


def _call_ext(i, name, top, leaf, args, kw, node):
    from .libmodel import MODELS
    f = MODELS.get(name)
    if f is not None:
        return f(i, args, kw, node)
    if top in ("numpy", "math", "cmath", "operator", "scipy", "numpy.lib.scimath", "scipy.special"):
        if leaf in _UN and len(args) >= 1 and (top != "math" or leaf not in ("gamma",)) and not (
                leaf == "log" and len(args) == 2):
            if top == "math" and isinstance(args[0], Ref) and args[0].kind == "arr":
                i.event("math-on-array", node, func=name)
            return ew(i, _UN[leaf], [args[0]], node, _rule(leaf))
        if top == "math" and leaf == "log" and len(args) == 2:
            return ew(i, lambda a, b: tm.log(a) / tm.log(b), args[:2], node)
        if leaf in _BIN and len(args) >= 2:
            if top == "math" and any(isinstance(a, Ref) and a.kind == "arr" for a in args):
                i.event("math-on-array", node, func=name)
            return ew(i, _BIN[leaf], args[:2], node, _rule(leaf))
        if top == "operator":
            ops = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "pow": "**"}
            if leaf in ops:
                return binop(i, args[0], ops[leaf], args[1], node)
            if leaf in ("lt", "le", "gt", "ge", "eq", "ne"):
                return compare(i, leaf, args[0], args[1], node)
    if top == "numpy" and leaf in _RED:
        return reduce_(i, leaf, args, kw, node)
    if top.startswith("numpy.") and top[6:] in _BIN and leaf in ("reduce", "outer", "accumulate"):
        r = ufunc_method(i, top[6:], leaf, args, kw, node)
        if r is not ABSENT:
            return r
    f = _EXT.get(name)
    if f is not None:
        return f(i, args, kw, node)
    if name.startswith("scipy.optimize."):
        return solver(i, leaf, args, kw, node)
    if name.startswith("matplotlib.") or name.startswith("warnings.") or name.startswith("logging."):
        sink(i, node, name, args, kw)
        return Dummy(name)
    if name.startswith("numpy.errstate") or name.startswith("contextlib."):
        return Dummy(name)
    if name.startswith("typing.") or name.startswith("collections.abc"):
        return Ext(name + "()")
    if name in ("numpy.set_printoptions", "numpy.seterr", "numpy.random.seed", "sys.setrecursionlimit",
                "os.environ.update", "numpy.seterrcall"):
        i.event("process-state", node, func=name)
        return Dummy(name)
    return opaque_call(i, name, args, kw, node)


def flatten(i, v):
    """Deterministic list of terms describing a value; None if it cannot be described."""
    if isinstance(v, T):
        return [v]
    if v is None:
        return [tm.sym("None")]
    if isinstance(v, (bool, int, float, complex)):
        return [tm.lift(v)]
    if isinstance(v, str):
        return [tm.sym("str:" + v)]
    if isinstance(v, Ref):
        if v.kind == "arr":
            return [tm.lam(IDX, elem_of(i, v))]
        if v.kind == "nd":
            val = val_of(i, v)
            return [tm.num(d) for d in val.shape] + list(val.reshape(-1))
        if v.kind == "list":
            p = i.payload(v)
            if p.get("opaque"):
                return None
            return flatten(i, tuple(p["items"]))
        if v.kind == "dict":
            out = []
            for k, x in i.payload(v)["items"].items():
                f = flatten(i, x)
                if f is None:
                    return None
                out += [tm.sym("key:%s" % (k,))] + f
            return out
        return None
    if isinstance(v, tuple):
        out = []
        for x in v:
            if isinstance(x, CondItem):
                return None
            f = flatten(i, x)
            if f is None:
                return None
            out += f
        return out
    if isinstance(v, Gate):
        l = lifted(i, v)
        if l is not None:
            return flatten(i, unlift(i, l))
        return None
    if isinstance(v, (Ext, Cls)):
        return [tm.sym("name:%s" % v.name)]
    if isinstance(v, Slice):
        return flatten(i, (v.lo, v.hi, v.step))
    return None


def opaque_call(i, name, args, kw, node):
    i.event("may-raise", node, func=name)
    ts = []
    for a in list(args) + [kw[k] for k in sorted(kw)]:
        f = flatten(i, a)
        if f is None:
            return i.top("result of %s" % name)
        ts += f
    return tm.app("ext:" + name, *ts)


def opaque_nd(i, name, shape, args, node, kw=None):
    """An opaque library result of known shape, entry by entry a function of all arguments."""
    ts = []
    for a in args:
        f = flatten(i, a)
        if f is None:
            return i.top("result of %s" % name)
        ts += f
    out = _np.empty(shape, dtype=object)
    for ix in _np.ndindex(*shape):
        out[ix] = tm.app("ext:%s%s" % (name, list(ix)), *ts)
    return unlift(i, L("n", out))


# -- reductions
def _lenargs(l):
    n = tm.lift(l.len) if l.len is not None else None
    return () if n is None else (n,)


_AXIS = {"amin", "amax", "asum", "amean", "aprod", "?any", "?all", "sorted", "argsort", "cumsum", "cumprod", "argmin", "argmax"}


def reduce_(i, leaf, args, kw, node):
    f = _RED[leaf]
    v = args[0] if args else kw.get("a", kw.get("x"))
    axis = _arg(args, kw, 1, "axis")
    dt = kw.get("dtype")
    if set(kw) - {"a", "x", "axis", "keepdims", "dtype", "kind"} or dt is not None and _dt(i, dt, "?") != "float" or len(args) > 2 \
            or isinstance(axis, tuple) or f not in _AXIS and len(args) > 1:
        return i.top("reduction %s with options" % leaf)
    if isinstance(v, MapIter):
        v = new_arr(i, scalar_of(i, v.binder), v.length)
    l = lifted(i, v)
    if l is None:
        return i.top("reduction %s" % leaf)
    if l.k == "s":
        if f == "?any" or f == "?all":
            from .context import unbool
            return unbool(tm.truthy(l.v))
        if f in ("amin", "amax", "asum", "amean", "aprod", "amedian", "sorted", "cumsum"):
            return unlift(i, l)
        if f in ("astd", "avar", "aptp", "argmin", "argmax", "argsort"):
            return 0
        if f == "norm":
            return tm.absv(l.v)
        return tm.app(f, l.v)
    if l.k == "a":
        body = l.v
        if l.mask is not None:
            return tm.app(f + "_sel", tm.lam(IDX, body), tm.lam(IDX, l.mask), *_lenargs(l))
        if f in ("sorted", "cumsum", "diff", "gradient", "argsort", "unique", "cumprod"):
            n = binop(i, l.len, "-", 1, node) if f == "diff" and l.len is not None else l.len
            return new_arr(i, tm.app("arr_" + f, tm.lam(IDX, body), IDX, *_lenargs(l)), n)
        if not any(x is IDX for x in tm.walk(body)) and f in ("amin", "amax", "amean", "amedian"):
            return body
        if not any(x is IDX for x in tm.walk(body)) and f in ("?any", "?all"):
            return tm.truthy(body)
        return tm.app(f, tm.lam(IDX, body), *_lenargs(l))
    val = l.v
    if f in ("?any", "?all"):
        from .context import unbool
        if axis is not None:
            ax = as_int(i, axis)
            if ax is None:
                return i.top("reduction along an unknown axis")
            m = _np.moveaxis(val, ax, 0)
            out = _np.empty(m.shape[1:], dtype=object)
            for ix in _np.ndindex(*out.shape):
                ts = [tm.truthy(m[(k,) + ix]) for k in range(m.shape[0])]
                out[ix] = tm.orv(*ts) if f == "?any" else tm.andv(*ts)
            return unlift(i, L("n", out, dtype="bool"))
        ts = [tm.truthy(x) for x in val.reshape(-1)]
        return unbool(tm.orv(*ts) if f == "?any" else tm.andv(*ts)) if ts else f == "?all"
    ax = as_int(i, axis) if axis is not None else None
    fold = {"asum": tm.add, "aprod": tm.mul, "amin": tm.minimum, "amax": tm.maximum}.get(f)
    if f == "amean":
        s = reduce_(i, "sum", [v] + ([axis] if axis is not None else []), {}, node)
        n = val.size if ax is None else val.shape[ax]
        if kw.get("keepdims") is True:
            return i.top("mean with kept dimensions")
        return binop(i, s, "/", n, node)
    if f == "norm":
        return tm.sqrt(tm.add(*[x * x for x in val.reshape(-1)]))
    if fold is None:
        if f in ("cumsum",) and val.ndim == 1:
            out, acc = [], tm.ZERO
            for x in val:
                acc = acc + x
                out.append(acc)
            return new_nd(i, _np.array(out, dtype=object))
        if f in ("argsort", "sorted") and val.ndim == 1:
            return new_nd(i, _np.array([tm.app("nd_" + f, tm.num(k), *val) for k in range(val.size)] or [], dtype=object),
                          "int" if f == "argsort" else l.dtype)
        if f in ("argmin", "argmax") and (axis is None or val.ndim == 1) and not kw.get("keepdims"):
            return tm.app(f, *val.reshape(-1))
        return i.top("reduction %s" % leaf)
    keep = kw.get("keepdims") is True
    if ax is None:
        xs = list(val.reshape(-1))
        if not xs:
            return tm.ZERO if f == "asum" else tm.ONE
        cur = xs[0]
        for x in xs[1:]:
            cur = fold(cur, x)
        if keep:
            return new_nd(i, _np.array(cur, dtype=object).reshape((1,) * val.ndim), l.dtype)
        return unlift(i, L("s", cur, dtype=l.dtype))
    moved = _np.moveaxis(val, ax, 0)
    out = _np.empty(moved.shape[1:], dtype=object)
    for ix in _np.ndindex(*out.shape):
        cur = moved[(0,) + ix]
        for k in range(1, moved.shape[0]):
            cur = fold(cur, moved[(k,) + ix])
        out[ix] = cur
    if keep:
        out = _np.expand_dims(out, ax)
    return unlift(i, L("n", out))


# -- solvers
class SolveRecord:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def make_root(i, fn, y, guess, options, node, kind, extra=(), bracket=None):
    """x with fn(x) = y, as a value number."""
    lg = lifted(i, guess) if guess is not None else None
    i.fresh_n += 1
    bv = tm.sym("@r%d" % i.fresh_n)
    isarr = lg is not None and lg.k == "a"
    ly0 = lifted(i, y) if y is not None else None
    if any(q is not None and q.k == "n" and (q.v.size > 1 or q.v.ndim > 1) for q in (lg, ly0)):
        return grid_root(i, fn, ly0, lg, options, node, kind, extra)
    arg = new_arr(i, bv, lg.len) if isarr and kind != "secant" else bv
    nev = len(i.events)
    snap = i.state.fork()
    r = i.call_value(fn, [arg] + list(extra), {}, node)
    lr = lifted(i, r)
    lyv = lifted(i, y) if y is not None else L("s", tm.ZERO)
    if lr is None or lyv is None:
        res = i.top("residual")
        lr = lr or L("s", res)
        lyv = lyv or L("s", tm.ZERO)
    if kind == "secant" and (lr.k == "a" or lr.k == "n" and lr.v.size > 1):
        i.event("array-truth", node, arr=r)       # the vectorized solver compares one value at a time
    rt = lr.v if lr.k != "n" else (lr.v.reshape(-1)[0] if lr.v.size == 1 else i.top("vector residual"))
    yt = lyv.v if lyv.k != "n" else (lyv.v.reshape(-1)[0] if lyv.v.size == 1 else i.top("vector target"))
    i.state = snap     # a residual evaluation is not part of the history
    residual = tm.lam(bv, rt - yt)
    gt = None
    if lg is not None:
        gt = lg.v if lg.k != "n" else (lg.v.reshape(-1)[0] if lg.v.size == 1 else i.top("vector guess"))
    if gt is None and bracket is not None:
        gt = (scalar_of(i, bracket[0]) + scalar_of(i, bracket[1])) / tm.TWO
    if gt is None:
        gt = i.top("no initial guess")
    rec = SolveRecord(kind=kind, residual=residual, guess=gt, options=options, where=i.where(node),
                      func=i.callstack[-1].name if i.callstack else "<module>", bracket=bracket,
                      guess_is_array=isarr, residual_is_array=(lr.k == "a" or lyv.k == "a"), raw_guess=guess,
                      pc=tm.andv(*i.pc) if i.pc else tm.TRUE)
    i.solves.append(rec)
    rec.evaluations = len(i.events) - nev
    root = tm.app("root", residual, gt)
    rec.root = root
    if isarr:
        return new_arr(i, root, lg.len)
    if rec.residual_is_array and kind == "secant":
        return new_arr(i, root, lr.len if lr.k == "a" else lyv.len)
    if rec.residual_is_array:
        i.event("solver-shape", node, func=rec.func)
        return new_arr(i, root, lr.len if lr.k == "a" else lyv.len)
    return root


def grid_root(i, fn, ly, lg, options, node, kind, extra):
    """entries of an array of unknowns, each with its own equation"""
    y = ly.v if ly is not None else tm.ZERO
    if lg is None or lg.k == "a" or ly is not None and ly.k == "a":
        return i.top("shape of the unknown")
    shape = _np.broadcast(_np.asarray(lg.v, dtype=object), _np.asarray(y, dtype=object)).shape
    i.fresh_n += 1
    bv = _np.empty(shape, dtype=object)
    for ix in _np.ndindex(*shape):
        bv[ix] = tm.sym("@r%d_%s" % (i.fresh_n, "_".join(map(str, ix))))
    one = kind == "secant"
    if one:
        bv[...] = tm.sym("@r%d" % i.fresh_n)
    elif lg.k != "n" or lg.v.shape != shape:
        return i.top("shape of the unknown")
    snap = i.state.fork()
    nev = len(i.events)
    r = i.call_value(fn, [bv.reshape(-1)[0] if one else new_nd(i, bv)] + list(extra), {}, node)
    lr = lifted(i, r)
    i.state = snap
    if lr is None or lr.k == "a":
        return i.top("residual")
    if one and lr.k == "n" and lr.v.size > 1:
        i.event("array-truth", node, arr=r)
    if not one and (lr.k != "n" or lr.v.shape != shape):
        return i.top("shape of the residual")
    out = _np.empty(shape, dtype=object)
    B = lambda v: _np.broadcast_to(_np.asarray(v, dtype=object), shape)
    rv = B(lr.v if not one or lr.k != "n" else lr.v.reshape(-1)[0])
    gv, yv = B(lg.v), B(y)
    for ix in _np.ndindex(*shape):
        res = rv[ix] - yv[ix]
        others = {b.args[0] for b in bv.reshape(-1)} - {bv[ix].args[0]}
        if others & set(tm.free_syms(res)):
            return i.top("coupled equations")
        lam = tm.lam(bv[ix], res)
        rec = SolveRecord(kind=kind, residual=lam, guess=gv[ix], options=options, where=i.where(node),
                          func=i.callstack[-1].name if i.callstack else "<module>", bracket=None,
                          guess_is_array=True, residual_is_array=True, raw_guess=gv[ix], pc=tm.andv(*i.pc) if i.pc else tm.TRUE)
        rec.evaluations = len(i.events) - nev
        i.solves.append(rec)
        out[ix] = rec.root = tm.app("root", lam, gv[ix])
    return new_nd(i, out)


def solver(i, leaf, args, kw, node):
    i.event("may-raise", node, func=leaf)
    args = list(args)
    if leaf == "newton":
        names = ["func", "x0", "fprime", "args", "tol", "maxiter", "fprime2", "x1", "rtol", "full_output", "disp"]
    elif leaf == "fsolve":
        names = ["func", "x0", "args", "fprime", "full_output", "col_deriv", "xtol", "maxfev"]
    elif leaf in ("brentq", "brenth", "bisect", "ridder", "toms748"):
        names = ["f", "a", "b", "args", "xtol", "rtol", "maxiter", "full_output", "disp"]
    elif leaf == "root_scalar":
        names = ["f", "args", "method", "bracket", "fprime", "fprime2", "x0", "x1", "xtol", "rtol", "maxiter", "options"]
    elif leaf == "root":
        names = ["fun", "x0", "args", "method", "jac", "tol"]
    else:
        return opaque_call(i, "scipy.optimize." + leaf, args, kw, node)
    d = dict(zip(names, args))
    for k, v in kw.items():
        if k in d:
            i.raise_("TypeError", "multiple values for %s" % k, node)
        if k not in names:
            i.raise_("TypeError", "%s() got an unexpected keyword argument %s" % (leaf, k), node)
        d[k] = v
    fn = next((d.pop(k) for k in ("func", "f", "fun") if k in d), None)
    if fn is None or isinstance(fn, (T, bool, int, float, complex, str, tuple)) or (
            isinstance(fn, Ref) and fn.kind in ("arr", "nd", "list", "dict")):
        i.raise_("TypeError", "%s() is given no function" % leaf, node)
    extra = d.pop("args", ())
    if extra is None:
        extra = ()
    if not isinstance(extra, tuple):
        extra = (extra,)
    bracket = None
    if "a" in d:
        bracket = (d.pop("a"), d.pop("b"))
    elif d.get("bracket") is not None:
        its = items_of(i, d.pop("bracket"), node)
        bracket = tuple(its) if its else None
    x0 = d.pop("x0", None)
    opts = {}
    for k, v in d.items():
        opts[k] = v
    r = make_root(i, fn, None, x0, opts, node, leaf, extra, bracket)
    if opts.get("fprime") not in (None,):
        i.solves[-1].fprime = opts["fprime"]
    if leaf == "root_scalar":
        o = i.alloc("obj", cls=_result_cls(i), attrs={"root": r, "converged": i.fresh("converged", True)})
        return o
    if leaf == "root":
        o = i.alloc("obj", cls=_result_cls(i), attrs={"x": new_nd(i, _np.array([scalar_of(i, r)], dtype=object)),
                                                        "success": i.fresh("converged", True)})
        return o
    if leaf == "fsolve":
        x = new_nd(i, _np.array([scalar_of(i, r)], dtype=object)) if not (isinstance(r, Ref) and r.kind == "arr") else r
        if opts.get("full_output") not in (None, False, 0):
            return (x, i.top("infodict"), i.fresh("ier"), Str("mesg"))
        return x
    if opts.get("full_output") not in (None, False, 0):
        return (r, i.alloc("obj", cls=_result_cls(i), attrs={"converged": i.fresh("converged", True), "root": r}))
    return r


def _result_cls(i):
    if not hasattr(i, "_rescls"):
        fr = i.alloc("class", vars={}, parent=None, module="scipy", is_class=True)
        i._rescls = Cls("OptimizeResult", "scipy", [], fr.oid, None)
    if i._rescls.oid not in i.state.heap:
        i.state.heap[i._rescls.oid] = P("class", vars={}, parent=None, module="scipy", is_class=True)
    return i._rescls


# -- numpy constructors and friends
def _shape(i, v):
    """('n', tuple) concrete, ('a', T) one symbolic axis, or None"""
    if isinstance(v, bool):
        return None
    n = as_int(i, v)
    if n is not None:
        return ("n", (n,))
    if isinstance(v, T):
        return ("a", v)
    items = items_of(i, v, None) if not isinstance(v, (Gate, Str)) and v is not None else None
    if items is None:
        return None
    dims = [as_int(i, x) for x in items]
    if all(d is not None for d in dims):
        return ("n", tuple(dims))
    if len(items) == 1 and isinstance(items[0], T):
        return ("a", items[0])
    return None


def _filled(val):
    def f(i, args, kw, node):
        s = _shape(i, args[0] if args else kw.get("shape"))
        dt = _arg(args, kw, 1, "dtype")
        dtype = _dt(i, dt, "float")
        v = val
        if s is None:
            return i.top("array of unknown shape")
        if s[0] == "a":
            return new_arr(i, v, s[1], stored(dtype))
        out = _np.empty(s[1], dtype=object)
        out.fill(v)
        return new_nd(i, out, stored(dtype))
    return f


class DType(Str):
    """The number type of an array."""
    __slots__ = ("dt",)

    def __init__(self, dt):
        Str.__init__(self, "dtype")
        self.dt = dt


_INTS = ("int", "int?", "bool", "intdtype")


def stored(dt):
    """the number type of an array made with a named integer type"""
    return "int" if dt == "intdtype" else dt


def cast(v, a, b):
    """element of number type a stored as number type b"""
    if b in ("int", "int?", "intdtype") and a not in _INTS and not integral(v):
        return tm.app("trunc", v)
    return v


INT_APPS = set()      # functions that stand for the entries of integer arrays


_MODULI = ("abs", "real", "imag", "angle", "norm")


def with_i(v):
    """a term with the imaginary unit in it, outside a modulus or a real part"""
    todo, seen = [v], set()
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t is tm.I:
            return True
        if t.op == "app" and t.args[0] in _MODULI or t.op in ("lt", "le", "eq"):
            continue
        if t.op == "ite":
            todo += t.args[1:]
            continue
        todo += [a for a in t.args if isinstance(a, T)]
    return False


def is_complex(l):
    """array or number of complex type, by its type or by the way its entries are computed"""
    if l.dtype == "complex":
        return True
    if l.dtype in _INTS:
        return False
    return any(with_i(t) for t in (l.v.flat if l.k == "n" else [l.v]))


def _iscomplexobj(i, args, kw, node):
    l = lifted(i, args[0] if args else kw.get("x"))
    if l is None:
        return i.top("iscomplexobj")
    return is_complex(l)


def _isrealobj(i, args, kw, node):
    r = _iscomplexobj(i, args, kw, node)
    return not r if isinstance(r, bool) else r


def integral(v):
    """an integer, by the way it is computed"""
    if v.op == "num":
        return v.args[0] == int(v.args[0])
    if v.op == "sym":
        return v is IDX
    if v.op in ("add", "mul"):
        return all(integral(a) for a in v.args)
    if v.op == "pow":
        return integral(v.args[0]) and tm.is_int(v.args[1]) and v.args[1].args[0] >= 0
    if v.op == "ite":
        return integral(v.args[1]) and integral(v.args[2])
    if v.op == "app":
        return v.args[0] in INT_APPS or v.args[0] in ("trunc", "floor", "ceil", "rint") or (
            v.args[0] in ("abs", "max", "min") and all(integral(a) for a in v.args[1:]))
    return tm.is_bool(v)


def _dt(i, dt, default):
    if dt is None:
        return default
    if isinstance(dt, DType):
        return dt.dt
    if isinstance(dt, Ext):
        n = dt.name.split(".")[-1]
        if n.startswith("complex"):
            return "complex"
        if n.startswith("float") or n in ("double", "longdouble"):
            return "float"
        if n.startswith("int") or n.startswith("uint"):
            return "intdtype"
        if n.startswith("bool"):
            return "bool"
    if isinstance(dt, str):
        if dt.startswith(("complex", "c")):
            return "complex"
        if dt.startswith(("float", "f", "d")):
            return "float"
        if dt.startswith(("int", "i", "u")):
            return "intdtype"
    return default


def _full(i, args, kw, node):
    s = _shape(i, args[0] if args else kw.get("shape"))
    v = scalar_of(i, _arg(args, kw, 1, "fill_value"))
    if s is None:
        return i.top("array of unknown shape")
    if s[0] == "a":
        return new_arr(i, v, s[1])
    out = _np.empty(s[1], dtype=object)
    out.fill(v)
    return new_nd(i, out)


def _like(val):
    def f(i, args, kw, node):
        a = args[0] if args else kw.get("a")
        v = val
        if val == "full":
            v = scalar_of(i, _arg(args, kw, 1, "fill_value"))
        dt = kw.get("dtype", args[1] if len(args) > 1 and val != "full" else None)
        l = lifted(i, a)
        if l is None:
            return i.top("array like %r" % (a,))
        inh = l.dtype
        dtype = _dt(i, dt, inh)
        if l.k == "a":
            return new_arr(i, v, l.len, dtype)
        shape = l.v.shape if l.k == "n" else ()
        out = _np.empty(shape, dtype=object)
        out.fill(v)
        return new_nd(i, out, dtype if l.k == "n" else "float")
    return f


def _asarray(copy):
    def f(i, args, kw, node):
        a = args[0] if args else kw.get("object", kw.get("a"))
        dt = _arg(args, kw, 1, "dtype")
        if isinstance(a, MapIter):
            return new_arr(i, scalar_of(i, a.binder), a.length)
        if isinstance(a, Gate):
            l = lifted(i, a)
            if l is None:
                return i.branch(a.c, lambda: f(i, [a.a] + list(args[1:]), kw, node),
                                lambda: f(i, [a.b] + list(args[1:]), kw, node))
            return new_arr(i, l.v, l.len, _dt(i, dt, l.dtype), l.mask) if l.k == "a" else (
                new_nd(i, l.v if l.k == "n" else _np.array(l.v, dtype=object)))
        if isinstance(a, Ref) and a.kind == "arr":
            p = i.payload(a)
            if not copy or kw.get("copy") is False:
                if dt is None:
                    return a
                if cast(tm.IDX, p["dtype"], _dt(i, dt, p["dtype"])) is not tm.IDX:
                    return array_method(i, a, p, "astype", [dt], {}, node)
                return i.alloc("arr", elem=None, base=a, off=tm.ZERO, len=p["len"], dtype=_dt(i, dt, p["dtype"]),
                               mask=p.get("mask"))
            return new_arr(i, cast(elem_of(i, a), p["dtype"], _dt(i, dt, p["dtype"])), p["len"], _dt(i, dt, p["dtype"]), p.get("mask"))
        if isinstance(a, Ref) and a.kind == "nd":
            if not copy:
                return a
            was = i.payload(a).get("dtype", "float")
            to = _dt(i, dt, was)
            return new_nd(i, nd_map(lambda x: cast(x, was, to), val_of(i, a).copy()), stored(to))
        if isinstance(a, Ref) and a.kind == "list" and i.payload(a).get("opaque"):
            return i.alloc("obj", cls=_result_cls(i), attrs={"fromlist": a})
        if isinstance(a, Ref) and a.kind == "list" and any(isinstance(x, CondItem) for x in i.payload(a)["items"]):
            return i.alloc("obj", cls=_result_cls(i), attrs={"fromlist": a})
        l = lifted(i, a)
        if l is None:
            items = items_of(i, a, node) if isinstance(a, (tuple, Ref)) else None
            if items:
                # a stack of generic arrays is kept as a list of rows
                return i.alloc("list", items=tuple(items))
            return i.top("array of %r" % (a,))
        if l.k == "s":
            return new_nd(i, _np.array(cast(l.v, l.dtype, _dt(i, dt, l.dtype)), dtype=object), stored(_dt(i, dt, l.dtype)))
        if l.k == "a":
            return new_arr(i, cast(l.v, l.dtype, _dt(i, dt, l.dtype)), l.len, stored(_dt(i, dt, l.dtype)))
        to = _dt(i, dt, l.dtype)
        return new_nd(i, nd_map(lambda x: cast(x, l.dtype, to), l.v), stored(to))
    return f


def _atleast(i, args, kw, node):
    a = args[0]
    l = lifted(i, a)
    if l is not None and l.k == "s":
        return new_nd(i, _np.array([l.v], dtype=object))
    if l is not None and l.k == "n" and l.v.shape == ():
        return new_nd(i, l.v.reshape(1))
    return a


def positions(i, conds):
    """places whose condition holds, in order"""
    r = selected(i, conds, [tm.num(j) for j in range(len(conds))])
    i.write(r, dtype="int")
    return r


def positions_of(i, k):
    """the conditions a vector of places was made from, or None"""
    if not (isinstance(k, Ref) and k.kind == "arr") or i.payload(k).get("mask") is not None:
        return None
    t = elem_of(i, k)
    if not (isinstance(t, T) and t.op == "app" and t.args[0] == "csel" and t.args[1] is IDX):
        return None
    n = int(t.args[2].args[0])
    flags, vals = t.args[3:3 + n], t.args[3 + n:]
    if tuple(vals) != tuple(tm.num(j) for j in range(n)):
        return None
    return [tm.eq(f, tm.ONE) for f in flags]


def _diag_indices(i, args, kw, node):
    n = as_int(i, args[0])
    d = as_int(i, _arg(args, kw, 1, "ndim", 2))
    if n is None or d is None:
        return i.top("indices of the diagonal")
    return tuple(new_nd(i, _np.array([tm.num(j) for j in range(n)], dtype=object), "int") for _ in range(d))


def _where(i, args, kw, node):
    if len(args) == 1:
        l = lifted(i, args[0])
        if l is not None and l.k == "a":
            return (new_arr(i, tm.truthy(l.v), l.len, "bool", l.mask),)
        if l is not None and l.k == "n" and all(x in (tm.TRUE, tm.FALSE) for x in l.v.reshape(-1)):
            idx = _np.nonzero(nd_map(lambda x: x is tm.TRUE, l.v).astype(bool))
            return tuple(new_nd(i, _np.array([tm.num(int(q)) for q in ix], dtype=object), "int") for ix in idx)
        if l is not None and l.k == "n" and l.v.ndim == 1:
            return (positions(i, [tm.truthy(x) for x in l.v]),)
        return (i.top("positions"),)
    return ew(i, lambda c, a, b: tm.ite(tm.truthy(c), a, b), args[:3], node, "fn")


def _select(i, args, kw, node):
    conds = items_of(i, args[0], node)
    vals = items_of(i, args[1], node)
    default = _arg(args, kw, 2, "default", 0)
    if conds is None or vals is None:
        return i.top("select")
    cur = default
    for c, v in reversed(list(zip(conds, vals))):
        cur = ew(i, lambda cc, a, b: tm.ite(tm.truthy(cc), a, b), [c, v, cur], node)
    return cur


def _piecewise(i, args, kw, node):
    x = args[0]
    conds = items_of(i, args[1], node)
    funs = items_of(i, args[2], node)
    if conds is None or funs is None:
        return i.top("piecewise")
    cur = 0
    if len(funs) == len(conds) + 1:
        f = funs[-1]
        cur = i.call_value(f, [x] + list(args[3:]), dict(kw), node) if _callable(f) else f
    for c, f in reversed(list(zip(conds, funs))):
        v = i.call_value(f, [x] + list(args[3:]), dict(kw), node) if _callable(f) else f
        cur = ew(i, lambda cc, a, b: tm.ite(tm.truthy(cc), a, b), [c, v, cur], node)
    l = lifted(i, x)
    if l is not None and l.k == "a" and l.dtype == "int?":
        r = lifted(i, cur)
        if r is None or r.k != "a":
            return i.top("piecewise of an integer array")
        return new_arr(i, cast(r.v, "float", "int?"), r.len, "int?", r.mask)
    return cur


def _callable(f):
    return isinstance(f, (Func, Bound, Partial, Cls, Ext, Vectorized)) or (callable(f) and not isinstance(f, T))


def _clip(i, args, kw, node):
    x = args[0]
    lo = _arg(args, kw, 1, "a_min", kw.get("min"))
    hi = _arg(args, kw, 2, "a_max", kw.get("max"))
    if lo is not None:
        x = ew(i, tm.maximum, [x, lo], node)
    if hi is not None:
        x = ew(i, tm.minimum, [x, hi], node)
    return x


def _linspace(i, args, kw, node):
    a, b = scalar_of(i, _arg(args, kw, 0, "start")), scalar_of(i, _arg(args, kw, 1, "stop"))
    n = _arg(args, kw, 2, "num", 50)
    end = kw.get("endpoint", True)
    nt = tm.lift(n) if not isinstance(n, Ref) else i.top("num")
    den = nt - tm.ONE if end is not False else nt
    k = as_int(i, n) if not isinstance(n, Ref) else None
    if k is not None and 0 < k <= 64:
        d = max(1, k - 1 if end is not False else k)
        return new_nd(i, _np.array([a + (b - a) * tm.num(j) / tm.num(d) for j in range(k)], dtype=object))
    return new_arr(i, a + (b - a) * IDX / den, nt)


def _arange(i, args, kw, node):
    vs = [as_int(i, a) for a in args]
    if all(v is not None for v in vs):
        r = list(range(*vs))
        return new_nd(i, _np.array([tm.num(x) for x in r] or [], dtype=object), "int")
    ts = [tm.lift(a) if not isinstance(a, Ref) else None for a in args]
    if any(t is None for t in ts):
        return i.top("arange")
    lo, hi, st = (tm.ZERO, ts[0], tm.ONE) if len(ts) == 1 else (ts[0], ts[1], ts[2] if len(ts) > 2 else tm.ONE)
    return new_arr(i, lo + IDX * st, (hi - lo) / st, "int")


def _nd(i, v):
    l = lifted(i, v)
    if l is None or l.k == "a":
        return None
    return l.v if l.k == "n" else _np.array(l.v, dtype=object)


def _Z(a):
    return nd_map(lambda x: x if isinstance(x, T) else tm.lift(x), _np.asarray(a, dtype=object))


def _ndfun(f):
    def g(i, args, kw, node):
        vs = []
        for a in args:
            n = _nd(i, a)
            if n is None:
                c = as_int(i, a)
                if c is None:
                    return i.top("array function")
                n = c
            vs.append(n)
        try:
            r = f(vs, {k: as_int(i, v) if as_int(i, v) is not None else v for k, v in kw.items()})
        except (ValueError, IndexError) as e:
            i.raise_("ValueError", str(e)[:80], node)
        return unlift(i, L("n", _Z(r)))
    return g


def _eye(i, args, kw, node):
    n = as_int(i, args[0])
    m = as_int(i, args[1]) if len(args) > 1 and args[1] is not None else n
    if n is None:
        return i.top("identity of unknown size")
    k = kw.get("k", 0)
    out = _np.empty((n, m), dtype=object)
    out.fill(tm.ZERO)
    for a in range(n):
        if 0 <= a + k < m:
            out[a, a + k] = tm.ONE
    return new_nd(i, out)


def _diag(i, args, kw, node):
    v = _nd(i, args[0])
    if v is None or v.ndim not in (1, 2) or len(args) > 1 or kw:
        return i.top("diagonal")
    if v.ndim == 1:
        n = len(v)
        out = _np.empty((n, n), dtype=object)
        out.fill(tm.ZERO)
        for a in range(n):
            out[a, a] = v[a]
        return new_nd(i, out)
    return new_nd(i, v.diagonal().copy())


def _kron(vs, kw):
    a, b = vs
    out = _np.empty((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), dtype=object)
    for p in range(a.shape[0]):
        for q in range(a.shape[1]):
            for r in range(b.shape[0]):
                for s in range(b.shape[1]):
                    out[p * b.shape[0] + r, q * b.shape[1] + s] = a[p, q] * b[r, s]
    return out


def _tile(i, args, kw, node):
    v = _nd(i, args[0])
    s = _shape(i, args[1])
    if v is None:
        l = lifted(i, args[0])
        return i.top("tile")
    if s is None or s[0] != "n":
        return i.top("tile")
    return unlift(i, L("n", _np.tile(v, s[1])))


def _block(i, args, kw, node):
    def conv(x):
        if isinstance(x, Ref) and x.kind == "list":
            return [conv(y) for y in i.payload(x)["items"]]
        n = _nd(i, x)
        if n is None:
            raise Unsupported("block of unknown parts")
        return n
    try:
        return unlift(i, L("n", _Z(_np.block(conv(args[0])))))
    except ValueError as e:
        i.raise_("ValueError", str(e)[:80], node)


def _stack(fn):
    def g(i, args, kw, node):
        items = items_of(i, args[0], node)
        if items is None:
            return i.top("stack")
        ls = [lifted(i, x) for x in items]
        if any(l is None for l in ls):
            return i.top("stack")
        if any(l.k == "a" for l in ls):
            if fn in ("concatenate", "hstack", "append"):
                return concat_arr(i, ls)
            return i.alloc("list", items=tuple(items))
        vs = [l.v if l.k == "n" else _np.array(l.v, dtype=object) for l in ls]
        ax = as_int(i, _arg(args, kw, 1, "axis", 0) or 0) or 0
        try:
            if fn == "concatenate":
                r = _np.concatenate(vs, axis=ax)
            elif fn == "stack":
                r = _np.stack(vs, axis=ax)
            else:
                r = getattr(_np, fn)(vs)
        except ValueError as e:
            i.raise_("ValueError", str(e)[:80], node)
        return unlift(i, L("n", _Z(r)))
    return g


def concat_arr(i, ls):
    off = tm.ZERO
    cur = None
    parts = []
    for l in ls:
        if l.k == "a":
            parts.append((off, l.v, tm.lift(l.len)))
            off = off + tm.lift(l.len)
        elif l.k == "s":
            parts.append((off, l.v, tm.ONE))
            off = off + tm.ONE
        else:
            for x in l.v.reshape(-1):
                parts.append((off, x, tm.ONE))
                off = off + tm.ONE
    for o, e, n in reversed(parts):
        e2 = tm.subst(e, {IDX: IDX - o}) if o is not tm.ZERO else e
        cur = e2 if cur is None else tm.ite(tm.lt(IDX, o + n), e2, cur)
    return new_arr(i, cur, off)


def _fill_diagonal(i, args, kw, node):
    o, v = args[0], args[1]
    val = val_of(i, o).copy() if isinstance(o, Ref) and o.kind == "nd" else None
    if val is None:
        return None
    l = lifted(i, v)
    n = min(val.shape)
    for k in range(n):
        val[k, k] = l.v if l.k == "s" else l.v.reshape(-1)[k % l.v.size]
    store_nd(i, o, val)
    return None


def _toeplitz(i, args, kw, node):
    c = _nd(i, args[0])
    r = _nd(i, args[1]) if len(args) > 1 else c
    if c is None or r is None:
        return i.top("toeplitz")
    out = _np.empty((len(c), len(r)), dtype=object)
    for a in range(len(c)):
        for b in range(len(r)):
            out[a, b] = c[a - b] if a >= b else r[b - a]
    return new_nd(i, out)


def _size(i, args, kw, node):
    v = args[0]
    if isinstance(v, Gate):
        return i.branch(v.c, lambda: _size(i, [v.a], kw, node), lambda: _size(i, [v.b], kw, node))
    l = lifted(i, v)
    if l is None:
        return i.top("size")
    if l.k == "s":
        return 1
    return l.len if l.k == "a" else l.v.size


def _ndim(i, args, kw, node):
    l = lifted(i, args[0])
    if l is None:
        return i.top("ndim")
    return 0 if l.k == "s" else (1 if l.k == "a" else l.v.ndim)


def _shapef(i, args, kw, node):
    l = lifted(i, args[0])
    if l is None:
        return i.top("shape")
    return () if l.k == "s" else ((l.len,) if l.k == "a" else tuple(l.v.shape))


def _isscalar(i, args, kw, node):
    v = args[0]
    if isinstance(v, Gate):
        l = lifted(i, v)
        return l is not None and l.k == "s"
    return isinstance(v, (T, int, float, str))


def _copy(deep):
    def f(i, args, kw, node):
        return copy_value(i, args[0], deep, {}, node)
    return f


def copy_value(i, v, deep, memo, node):
    if isinstance(v, Gate):
        return Gate(v.c, copy_value(i, v.a, deep, memo, node), copy_value(i, v.b, deep, memo, node))
    if isinstance(v, tuple):
        return tuple(copy_value(i, x, deep, memo, node) for x in v) if deep else v
    if not isinstance(v, Ref):
        return v
    if v.oid in memo:
        return memo[v.oid]
    p = i.payload(v)
    if v.kind == "obj":
        hook = i.lookup_class(p["cls"], "__deepcopy__" if deep else "__copy__")
        if hook is not ABSENT:
            return i.call_value(Bound(hook, v), [i.alloc("dict", items={})] if deep else [], {}, node)
        o = i.alloc("obj", cls=p["cls"], attrs={})
        memo[v.oid] = o
        at = {k: (copy_value(i, x, True, memo, node) if deep else x) for k, x in p["attrs"].items()}
        i.write(o, attrs=at)
        if p.get("havoc") is not None:
            i.write(o, havoc=p["havoc"])
        return o
    if v.kind == "dict":
        o = i.alloc("dict", items={})
        memo[v.oid] = o
        i.write(o, items={k: (copy_value(i, x, True, memo, node) if deep else x) for k, x in p["items"].items()})
        if p.get("opaque"):
            i.write(o, opaque=p["opaque"])
        return o
    if v.kind in ("list", "set"):
        o = i.alloc(v.kind, items=())
        memo[v.oid] = o
        i.write(o, items=tuple((copy_value(i, x, True, memo, node) if deep and not isinstance(x, CondItem) else x)
                               for x in p["items"]))
        if p.get("opaque"):
            i.write(o, opaque=p["opaque"])
        return o
    if v.kind == "arr":
        o = new_arr(i, elem_of(i, v), p["len"], p["dtype"], p.get("mask"))
        memo[v.oid] = o
        return o
    if v.kind == "nd":
        o = new_nd(i, val_of(i, v).copy(), p.get("dtype", "float"))
        memo[v.oid] = o
        return o
    return v


def _polyval(i, args, kw, node):
    cs = items_of(i, args[0], node)
    if cs is None:
        return i.top("polynomial")
    x = args[1]
    cur = cs[0]
    for c in cs[1:]:
        cur = binop(i, binop(i, cur, "*", x, node), "+", c, node)
    return cur


def _npoly(i, args, kw, node):
    # numpy.polynomial.polynomial.polyval(x, c): ascending coefficients
    cs = items_of(i, args[1], node)
    if cs is None:
        return i.top("polynomial")
    cur = cs[-1]
    for c in reversed(cs[:-1]):
        cur = binop(i, binop(i, cur, "*", args[0], node), "+", c, node)
    return cur


def _isclose(i, args, kw, node):
    rtol = _arg(args, kw, 2, "rtol", tm.fnum(1e-5))
    atol = _arg(args, kw, 3, "atol", tm.fnum(1e-8))
    return ew(i, lambda a, b, r, t: tm.le(tm.absv(a - b), t + r * tm.absv(b)), [args[0], args[1], rtol, atol], node, "cmp")


def _mathisclose(i, args, kw, node):
    rtol = kw.get("rel_tol", tm.fnum(1e-9))
    atol = kw.get("abs_tol", tm.ZERO)
    return ew(i, lambda a, b, r, t: tm.le(tm.absv(a - b), tm.maximum(r * tm.maximum(tm.absv(a), tm.absv(b)), t)),
              [args[0], args[1], rtol, atol], node, "cmp")


def _partial(i, args, kw, node):
    return Partial(args[0], list(args[1:]), dict(kw))


def _vectorize(i, args, kw, node):
    return Vectorized(args[0])


def _isinstance(i, args, kw, node):
    v, c = args
    if isinstance(v, Gate):
        from .context import unbool
        return unbool(tm.ite(v.c, tm.lift(_isinstance(i, [v.a, c], kw, node)), tm.lift(_isinstance(i, [v.b, c], kw, node))))
    cs = list(c) if isinstance(c, tuple) else [c]
    res = False
    maybe = None
    for k in cs:
        if isinstance(k, Cls):
            if isinstance(v, Ref) and v.kind == "obj":
                res = res or k in i.mro(i.payload(v)["cls"])
            continue
        if isinstance(k, tuple):
            res = i.np.logical(i, "or", res, _isinstance(i, [v, k], kw, node), node)
            continue
        n = k.name if isinstance(k, Ext) else str(k)
        leaf = n.split(".")[-1]
        if leaf == "object":
            return True
        if isinstance(v, Ref) and v.kind == "obj":
            cls = i.payload(v)["cls"]
            res = res or k in i.mro(cls) or any(leaf in ip.ancestors(b.name.split(".")[-1]) for b in i.mro(cls)
                                                if isinstance(b, Ext)) or getattr(cls, "tuple", False) and leaf in ("tuple", "Sequence", "Iterable")
        elif isinstance(v, Ref):
            res = res or {"list": leaf in ("list", "Sequence", "Iterable", "Collection"),
                          "dict": leaf in ("dict", "Mapping", "Iterable", "MutableMapping", "Collection"),
                          "set": leaf in ("set", "Iterable"),
                          "arr": leaf in ("ndarray", "Iterable"), "nd": leaf in ("ndarray", "Iterable")}.get(v.kind, False)
        elif isinstance(v, bool):
            res = res or leaf in ("bool", "int", "Integral", "Number", "Real", "bool_")
        elif isinstance(v, int):
            res = res or leaf in ("int", "Integral", "Number", "Real")
        elif isinstance(v, T):
            if v.op == "sym" and v.args[0].startswith("⊤"):
                return i.fresh("isinstance", True)
            res = res or leaf in ("float", "Number", "Real", "floating", "float64", "number", "generic", "Complex")
            if leaf in ("int", "integer", "Integral") and not tm.is_num(v) and not res:
                maybe = i.fresh("isint:%s" % tm.show(v, 30), True)
        elif isinstance(v, (str, Str)):
            res = res or leaf in ("str", "Sequence", "Iterable")
        elif isinstance(v, tuple):
            res = res or leaf in ("tuple", "Sequence", "Iterable")
        elif v is None:
            res = res or leaf == "NoneType"
        elif _callable(v):
            res = res or leaf in ("Callable", "FunctionType")
    return maybe if res is False and maybe is not None else res


def a_set(i, items):
    """a set of the items; of unknown contents when two of them may be equal"""
    out = []
    for x in items:
        if any(type(x) is type(y) and x == y for y in out):
            continue
        out.append(x)
    if len(out) > 1 and not all(isinstance(x, (int, str, bool, Ref, Cls, Ext, Func)) or x is None for x in out):
        return i.alloc("set", items=(), opaque="set of values")
    return i.alloc("set", items=tuple(out))


def in_order(i, items, kw, node):
    """the items sorted, when their order is known or they are numbers"""
    key, rev = kw.get("key"), kw.get("reverse", False)
    if not isinstance(rev, bool) or any(isinstance(x, CondItem) for x in items):
        return None
    keys = [x if key is None else i.call_value(key, [x], {}, node) for x in items]

    def plain(k):
        if isinstance(k, (int, str)):
            return k
        if isinstance(k, T) and k.op == "num":
            return k.args[0]
        if isinstance(k, tuple) and all(plain(x) is not None for x in k):
            return tuple(plain(x) for x in k)
        return None
    ps = [plain(k) for k in keys]
    if all(p is not None for p in ps):
        try:
            return [x for _, x in sorted(zip(ps, items), key=lambda t: t[0], reverse=rev)]
        except TypeError:
            i.raise_("TypeError", "items cannot be ordered", node)
    if all(isinstance(p, tuple) or isinstance(k, tuple) for p, k in zip(ps, keys)):
        firsts = [plain(k[0]) for k in keys if k]
        if len(firsts) == len(keys) and None not in firsts and len(set(firsts)) == len(firsts):
            return [x for _, x in sorted(zip(firsts, items), key=lambda t: t[0], reverse=rev)]
    if key is None and all(isinstance(x, (T, int)) for x in items):
        ts = [tm.lift(x) for x in items]
        out = [tm.app("nd_sorted", tm.num(k), *ts) for k in range(len(ts))]
        return out[::-1] if rev else out
    return None


def call_builtin(i, n, args, kw, node):
    if n in _EXC:
        c = Cls(n, "builtins", [Ext("builtins." + n)], _result_cls(i).oid, None)
        return i.alloc("obj", cls=c, attrs={"args": tuple(args)})
    if n == "abs":
        if type(args[0]) is int:
            return abs(args[0])
        return ew(i, tm.absv, [args[0]], node)
    if n in ("min", "max"):
        items = list(args)
        if len(args) == 1:
            if isinstance(args[0], Ref) and args[0].kind == "arr":
                return reduce_(i, n, args, {}, node)
            items = items_of(i, args[0], node)
            if items is None:
                return i.top(n)
        if not items and "default" in kw:
            return kw["default"]
        if not items:
            i.raise_("ValueError", "%s() of an empty sequence" % n, node)
        key = kw.get("key")
        if key is not None and items:
            best, bk = items[0], i.call_value(key, [items[0]], {}, node)
            for x in items[1:]:
                xk = i.call_value(key, [x], {}, node)
                c = i.truth(compare(i, "lt" if n == "min" else "gt", xk, bk, node), node)
                if c is not tm.FALSE:
                    best = x if c is tm.TRUE else i.merge(c, x, best)
                    bk = xk if c is tm.TRUE else i.merge(c, xk, bk)
            return best
        if set(kw) - {"default", "key"}:
            return i.top(n + " with options")
        if all(type(x) is int for x in items):
            return min(items) if n == "min" else max(items)
        for x in items:
            if isinstance(x, Ref) and x.kind in ("arr",):
                i.event("array-truth", node, arr=x)
        cur = scalar_of(i, items[0])
        for x in items[1:]:
            y = scalar_of(i, x)
            # python keeps the first on ties
            cur = (tm.ite(tm.lt(y, cur), y, cur) if n == "min" else tm.ite(tm.lt(cur, y), y, cur))
        return cur
    if n == "sum":
        if isinstance(args[0], Ref) and args[0].kind == "arr" or isinstance(args[0], MapIter):
            return reduce_(i, "sum", args[:1], {}, node)
        cur = args[1] if len(args) > 1 else kw.get("start", 0)
        items = items_of(i, args[0], node)
        if items is None:
            v = args[0]
            if isinstance(v, Ref) and v.kind == "list" and not i.payload(v).get("opaque"):
                for x in i.payload(v)["items"]:
                    c = tm.TRUE
                    while isinstance(x, CondItem):
                        c, x = tm.andv(c, x.c), x.v
                    cur = i.branch(c, lambda: binop(i, cur, "+", x, node), lambda: cur)
                return cur
            return i.top("sum")
        for x in items:
            cur = binop(i, cur, "+", x, node)
        return cur
    if n == "len":
        v = args[0]
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, Gate):
            return i.branch(v.c, lambda: call_builtin(i, n, [v.a], kw, node), lambda: call_builtin(i, n, [v.b], kw, node))
        if isinstance(v, Ref):
            p = i.payload(v)
            if v.kind == "arr":
                return p["len"]
            if v.kind == "nd":
                val = val_of(i, v)
                if val.ndim == 0:
                    i.raise_("TypeError", "len() of unsized object", node)
                return val.shape[0]
            if v.kind == "obj":
                f = i.lookup_class(p["cls"], "__len__")
                if f is not ABSENT:
                    return i.call_value(Bound(f, v), [], {}, node)
                return i.top("len")
            if p.get("opaque"):
                return i.fresh("len")
            if any(isinstance(x, CondItem) for x in p["items"]):
                t = tm.ZERO
                for x in p["items"]:
                    q = tm.TRUE
                    while isinstance(x, CondItem):
                        q, x = tm.andv(q, x.c), x.v
                    t = t + tm.ite(q, tm.ONE, tm.ZERO)
                return t
            return len(p["items"])
        if isinstance(v, T) and not (v.op == "sym" and v.args[0].startswith("⊤")) and v.op != "app":
            i.raise_("TypeError", "len() of a number", node)
        return i.fresh("len")
    if n == "range":
        vs = [as_int(i, a) if as_int(i, a) is not None else a for a in args]
        if len(vs) == 1:
            return Range(0, vs[0], 1)
        return Range(vs[0], vs[1], vs[2] if len(vs) > 2 else 1)
    if n == "float":
        v = args[0] if args else 0
        if isinstance(v, str):
            try:
                return tm.fnum(float(v))
            except ValueError:
                i.raise_("ValueError", "float(%r)" % v, node)
        if isinstance(v, Ref) and v.kind == "arr":
            i.event("array-truth", node, arr=v)
        return tm.lift(scalar_of(i, v))
    if n == "int":
        v = args[0] if args else 0
        if isinstance(v, T):
            if v.op == "num":
                return int(v.args[0])
            return tm.app("trunc", v)
        if isinstance(v, (int, bool)):
            return int(v)
        if type(v) is str and len(args) == 1:
            try:
                return int(v)
            except ValueError:
                i.raise_("ValueError", "invalid literal for int(): %r" % v, node)
        return i.top("int()")
    if n == "bool":
        from .context import unbool
        return unbool(i.truth(args[0], node)) if args else False
    if n == "complex":
        if len(args) == 2:
            return scalar_of(i, args[0]) + scalar_of(i, args[1]) * tm.I
        return scalar_of(i, args[0])
    if n == "str":
        v = args[0] if args else ""
        if isinstance(v, Str) and not isinstance(v, Text) or v is None:
            return Str("str()")
        return whole(slot(v)) if not isinstance(v, bool) else str(v)
    if n in ("print",):
        i.event("print", node, args=list(args))
        return None
    if n == "isinstance":
        return _isinstance(i, args, kw, node)
    if n in ("hasattr", "getattr", "setattr", "delattr") and len(args) > 1 and texts(args[1]):
        g = args[1]
        return i.branch(g.c, lambda: call_builtin(i, n, [args[0], g.a] + list(args[2:]), kw, node),
                        lambda: call_builtin(i, n, [args[0], g.b] + list(args[2:]), kw, node))
    if n == "hasattr":
        from .context import unbool
        if isinstance(args[1], str):
            return unbool(i.hasattr(args[0], args[1], node))
        return i.fresh("hasattr", True)
    if n == "getattr":
        if not isinstance(args[1], str):
            return i.top("getattr of a computed name")
        if len(args) == 3:
            from .context import unbool
            has = i.hasattr(args[0], args[1], node)
            return i.branch(has, lambda: i.getattr(args[0], args[1], node), lambda: args[2])
        return i.getattr(args[0], args[1], node)
    if n == "setattr":
        if not isinstance(args[1], str):
            raise Unsupported("attribute set under a computed name")
        i.setattr(args[0], args[1], args[2], node)
        return None
    if n == "delattr":
        o = args[0]
        if isinstance(o, Ref) and o.kind == "obj" and isinstance(args[1], str):
            at = dict(i.payload(o)["attrs"])
            at.pop(args[1], None)
            i.write(o, attrs=at)
        return None
    if n == "callable":
        return _callable(args[0]) or (isinstance(args[0], Ref) and args[0].kind == "obj" and
                                      i.lookup_class(i.payload(args[0])["cls"], "__call__") is not ABSENT)
    if n == "enumerate":
        it = iterate(i, args[0], node)
        start = args[1] if len(args) > 1 else kw.get("start", 0)
        if it is None:
            return i.alloc("list", items=(), opaque="enumerate")
        if it[0] == "map":
            return MapIter((binop(i, IDX, "+", start, node) if start else IDX, it[1]), it[2])
        if it[0] == "items":
            return i.alloc("list", items=tuple((binop(i, start, "+", k, node), x) for k, x in enumerate(it[1])), iterator=True)
        return i.alloc("list", items=(), opaque="enumerate")
    if n == "zip":
        if any(isinstance(a, Endless) for a in args):
            args = list(args)
            n0 = None
            for k, a in enumerate(args):
                if not isinstance(a, Endless):
                    t = iterate(i, a, node)
                    if t is None or t[0] != "items":
                        return i.alloc("list", items=(), opaque="zip")
                    args[k] = tuple(t[1])
                    n0 = len(args[k]) if n0 is None else min(n0, len(args[k]))
            if n0 is None:
                return i.alloc("list", items=(), opaque="zip")
            args = [tuple(a.at(k) for k in range(n0)) if isinstance(a, Endless) else a for a in args]
        its = [iterate(i, a, node) for a in args]
        if all(t is not None and t[0] == "items" for t in its):
            if kw.get("strict") is True and len({len(t[1]) for t in its}) > 1:
                i.raise_("ValueError", "zip() arguments of different lengths", node)
            return i.alloc("list", items=tuple(zip(*[list(t[1]) for t in its])), iterator=True)
        if all(t is not None and t[0] == "map" for t in its):
            return MapIter(tuple(t[1] for t in its), its[0][2])
        return i.alloc("list", items=(), opaque="zip")
    if n == "map":
        its = [iterate(i, a, node) for a in args[1:]]
        if all(t is not None and t[0] == "items" for t in its):
            return i.alloc("list", items=tuple(i.call_value(args[0], list(x), {}, node)
                                               for x in zip(*[list(t[1]) for t in its])), iterator=True)
        if all(t is not None and t[0] == "map" for t in its):
            return MapIter(i.call_value(args[0], [t[1] for t in its], {}, node), its[0][2])
        return i.alloc("list", items=(), opaque="map")
    if n in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter", "filter"):
        if not args:
            return () if n == "tuple" else i.alloc("set" if n in ("set", "frozenset") else "list", items=())
        if n == "filter":
            items = items_of(i, args[1], node)
            if items is None:
                return i.alloc("list", items=(), opaque="filter")
            from .libmodel import chosen
            return i.alloc("list", items=tuple(chosen(i, [
                (i.assume_simplify(i.truth(x if args[0] is None else i.call_value(args[0], [x], {}, node), node)), x)
                for x in items])), iterator=True)
        if n == "iter" and len(args) > 1:
            raise Unsupported("iter with a sentinel")
        v = args[0]
        if n in ("iter", "list", "tuple") and isinstance(v, Ref) and v.kind == "list" and n == "iter" and i.payload(v).get("iterator"):
            return v
        if n in ("list", "sorted", "iter") and isinstance(v, Ref) and v.kind == "list" and not i.payload(v).get("opaque") \
                and any(isinstance(x, CondItem) for x in i.payload(v)["items"]) and n != "sorted":
            return i.alloc("list", items=i.payload(v)["items"], iterator=True) if n == "iter" else i.alloc("list", items=i.payload(v)["items"])
        if isinstance(v, MapIter):
            return new_arr(i, scalar_of(i, v.binder), v.length) if not isinstance(v.binder, tuple) else v
        if isinstance(v, Ref) and v.kind == "arr":
            return new_arr(i, elem_of(i, v), i.payload(v)["len"], i.payload(v)["dtype"])
        items = items_of(i, v, node)
        if items is None:
            return i.alloc("list", items=(), opaque=n)
        if n == "reversed":
            items = list(reversed(items))
        if n == "sorted":
            out = in_order(i, items, kw, node)
            if out is None:
                return i.alloc("list", items=(), opaque="sorted")
            items = out
        if n == "tuple":
            return tuple(items)
        if n in ("set", "frozenset"):
            return a_set(i, items)
        return i.alloc("list", items=tuple(items), iterator=True) if n in ("iter", "reversed") else i.alloc("list", items=tuple(items))
    if n == "dict":
        d = {}
        if args:
            v = args[0]
            if isinstance(v, Ref) and v.kind == "dict":
                d.update(i.payload(v)["items"])
                if i.payload(v).get("opaque"):
                    d.update(kw)
                    return i.alloc("dict", items=d, opaque=i.payload(v).get("opaque"))
            else:
                new = pairs_of(i, v, node)
                if new is None:
                    return i.alloc("dict", items=dict(kw), opaque="dict()")
                d.update(new)
        d.update(kw)
        return i.alloc("dict", items=d)
    if n == "round":
        if type(args[0]) is int:
            return args[0]
        d = as_int(i, args[1]) if len(args) > 1 and args[1] is not None else 0
        return i.top("round") if d is None else ew(i, lambda a: tm.app("rint", a) if d == 0 else tm.app("rounded", a, tm.num(d)),
                                                   [args[0]], node, "keep")
    if n == "pow":
        return binop(i, args[0], "**", args[1], node)
    if n == "divmod":
        return (binop(i, args[0], "//", args[1], node), binop(i, args[0], "%", args[1], node))
    if n in ("any", "all"):
        v = args[0]
        if isinstance(v, MapIter):
            return tm.app("?" + n, tm.lam(IDX, tm.truthy(scalar_of(i, v.binder))))
        if isinstance(v, Ref) and v.kind == "arr":
            return reduce_(i, n, [v], {}, node)
        items = items_of(i, v, node)
        if items is None:
            return i.fresh(n, True)
        ts = [i.truth(x, node) for x in items]
        from .context import unbool
        if not ts:
            return n == "all"
        return unbool(tm.orv(*ts) if n == "any" else tm.andv(*ts))
    if n == "type":
        v = args[0]
        if isinstance(v, Ref) and v.kind == "obj":
            return i.payload(v)["cls"]
        if isinstance(v, T):
            return Ext("builtins.float")
        if isinstance(v, int):
            return Ext("builtins.int")
        if isinstance(v, str):
            return Ext("builtins.str")
        if isinstance(v, Ref):
            return Ext({"arr": "numpy.ndarray", "nd": "numpy.ndarray", "list": "builtins.list",
                        "dict": "builtins.dict"}.get(v.kind, "builtins.object"))
        return i.top("type")
    if n == "format" and args:
        i.event("format", node, args=list(args))
        if len(args) == 1 or isinstance(args[1], str):
            return whole(slot(args[0], args[1] if len(args) > 1 else ""))
    if n in ("repr", "format", "chr", "hex"):
        return Str(n)
    if n in ("id", "hash"):
        return i.fresh(n)
    if n == "vars" and len(args) == 1 and (isinstance(args[0], Mod) or isinstance(args[0], Ref) and args[0].kind == "obj"):
        return Ref(args[0].oid, "moddict" if isinstance(args[0], Mod) else "objdict")
    if n in ("dir", "vars"):
        return i.alloc("list", items=(), opaque="names")
    if n == "slice":
        a = list(args) + [None] * 3
        return Slice(None, a[0], None) if len(args) == 1 else Slice(a[0], a[1], a[2])
    if n == "object":
        return i.alloc("obj", cls=Ext("builtins.object"), attrs={})
    if n == "property":
        return Prop(args[0])
    if n == "staticmethod":
        return Static(args[0], "static")
    if n == "classmethod":
        return Static(args[0], "class")
    if n == "next":
        v = args[0]
        if isinstance(v, Ref) and v.kind == "list":
            p = i.payload(v)
            if not p.get("opaque") and not any(isinstance(x, CondItem) for x in p["items"][:1]):
                if not p.get("iterator"):
                    i.raise_("TypeError", "list object is not an iterator", node)
                if p["items"]:
                    i.write(v, items=p["items"][1:])
                    return p["items"][0]
                if len(args) > 1:
                    return args[1]
                i.raise_("StopIteration", "", node)
        if isinstance(v, Ref) and v.kind == "obj":
            f = i.lookup_class(i.payload(v)["cls"], "__next__")
            if f is not ABSENT:
                return i.call_value(Bound(f, v), [], {}, node)
        raise Unsupported("next() of an unknown iterator")
    if n in ("exit", "quit"):
        i.raise_("SystemExit", "exit()", node)
    if n == "issubclass":
        a, b = args
        if isinstance(a, Cls):
            bs = b if isinstance(b, tuple) else (b,)
            return any(x in i.mro(a) for x in bs)
        return i.fresh("issubclass", True)
    if n == "open":
        i.event("io", node, func="open")
        return Dummy("file")
    if n in ("eval", "exec", "compile", "__import__"):
        i.event("dynamic", node, func=n)
        return i.top(n)
    if n == "super":
        raise Unsupported("super()")
    return i.top("builtin %s" % n)


def call_vectorized(i, f, args, kw, node):
    """np.vectorize: the function applied to every element"""
    h = i.opaque.get(getattr(f.func, "name", None))
    if h is not None:
        return h(i, f.func, args, kw, node)
    length = None
    for a in list(args) + list(kw.values()):
        n = length_of(i, a)
        if n is not None:
            length = n
    nds = [a for a in list(args) + list(kw.values()) if isinstance(a, Ref) and a.kind == "nd"]
    if nds and length is None:
        keys = [None] * len(args) + list(kw)
        vals = list(args) + list(kw.values())
        arrs = [val_of(i, a) if isinstance(a, Ref) and a.kind == "nd" else None for a in vals]
        try:
            shape = _np.broadcast_shapes(*[x.shape for x in arrs if x is not None])
        except ValueError:
            i.raise_("ValueError", "operands could not be broadcast", node)
        arrs = [None if x is None else _np.broadcast_to(x, shape) for x in arrs]
        out = _np.empty(shape, dtype=object)
        for ix in _np.ndindex(*shape):
            at = [v if x is None else x[ix] for v, x in zip(vals, arrs)]
            r = i.call_value(f.func, at[:len(args)], dict(zip(keys[len(args):], at[len(args):])), node)
            if isinstance(r, tuple):
                return i.top("vectorized call with several results")
            out[ix] = scalar_of(i, r)
        return new_nd(i, out)

    def conv(a):
        if isinstance(a, Ref) and a.kind == "arr":
            return elem_of(i, a)
        if isinstance(a, Gate):
            l = lifted(i, a)
            if l is not None and l.k in ("a", "s"):
                return l.v
        return a
    r = i.call_value(f.func, [conv(a) for a in args], {k: conv(a) for k, a in kw.items()}, node)
    if length is None:
        return r
    if isinstance(r, tuple):
        return tuple(new_arr(i, scalar_of(i, x), length) for x in r)
    return new_arr(i, scalar_of(i, r), length)


def call_opaque(i, f, args, kw, node):
    name = f.args[0] if f.op == "sym" else "value"
    if str(name).startswith("⊤"):
        return i.top("call of an unknown value")
    ts = []
    for a in args:
        x = flatten(i, a)
        if x is None:
            return i.top("call of %s" % name)
        ts += x
    i.event("callback", node, name=name)
    if len(args) == 1 and isinstance(args[0], Ref):
        l = lifted(i, args[0])
        if l is not None and l.k == "a":
            return new_arr(i, tm.app("call:%s" % name, l.v), l.len)
        if l is not None and l.k == "n":
            return ew(i, lambda a: tm.app("call:%s" % name, a), [args[0]], node)
    return tm.app("call:%s" % name, *ts)


def call_method(i, o, name, args, kw, node):
    i.call_sites += 1
    if isinstance(o, Gate):
        return i.branch(o.c, lambda: call_method(i, o.a, name, args, kw, node),
                        lambda: call_method(i, o.b, name, args, kw, node))
    for n, a in enumerate(args):
        if isinstance(o, str) and texts(a):
            return i.branch(a.c, lambda: call_method(i, o, name, list(args[:n]) + [a.a] + list(args[n + 1:]), kw, node),
                            lambda: call_method(i, o, name, list(args[:n]) + [a.b] + list(args[n + 1:]), kw, node))
    if isinstance(o, str):
        if all(isinstance(a, (str, int)) for a in args) and not kw:
            try:
                r = getattr(o, name)(*args)
            except Exception as e:
                i.raise_(type(e).__name__, str(e), node)
            if isinstance(r, list):
                return i.alloc("list", items=tuple(r))
            if isinstance(r, (str, bool, int, tuple)):
                return r
            return Str("string method")
        if name == "join":
            items = items_of(i, args[0], node)
            if items is not None and all(isinstance(x, str) for x in items):
                return o.join(items)
            if items is not None and all(parts_of(x) is not None for x in items):
                out = []
                for n, x in enumerate(items):
                    out += ([o] if n else []) + list(parts_of(x))
                return whole(out)
        if name == "format":
            return format_call(i, o, args, kw)
        return Str("string method")
    if isinstance(o, Str):
        if name in ("split", "splitlines"):
            return i.alloc("list", items=(), opaque="split")
        return Str("string method") if name not in ("startswith", "endswith", "isdigit") else i.fresh("strtest", True)
    if isinstance(o, Ref):
        p = i.payload(o)
        if o.kind == "list":
            return list_method(i, o, p, name, args, kw, node)
        if o.kind == "dict":
            return dict_method(i, o, p, name, args, kw, node)
        if o.kind in SPACES:
            at = dict(space_vars(i, o))
            if name == "update":
                new = pairs_of(i, args[0], node) if args else {}
                if new is None:
                    raise Unsupported("namespace updated by an unknown mapping")
                at.update(new)
                at.update(kw)
                space_put(i, o, at, node)
                return None
            if name in ("get", "pop", "setdefault") and isinstance(args[0], str):
                dflt = args[1] if len(args) > 1 else None
                has = i.present(at[args[0]]) if args[0] in at else tm.FALSE
                v = i.branch(has, lambda: at[args[0]], lambda: dflt if name != "pop" or len(args) > 1 else _nokey(i, args[0], node))
                if name == "pop":
                    at.pop(args[0], None)
                    space_put(i, o, at, node)
                elif name == "setdefault":
                    at[args[0]] = v
                    space_put(i, o, at, node)
                return v
            if name in ("keys", "items", "values", "copy"):
                if any(i.present(x) is not tm.TRUE for x in at.values()):
                    return i.alloc("dict" if name == "copy" else "list", items={} if name == "copy" else (), opaque="namespace")
                if name == "copy":
                    return i.alloc("dict", items=at)
                return i.alloc("list", items=tuple(at if name == "keys" else (at.items() if name == "items" else at.values())))
            if name == "clear":
                space_put(i, o, {}, node)
                return None
            return i.top("object dict")
        if o.kind == "set":
            items = p["items"]
            if name == "add":
                if not p.get("opaque") and args[0] not in items:
                    i.write(o, items=items + (args[0],))
                return None
            if name == "clear":
                i.write(o, items=(), opaque=None)
                return None
            if name in ("discard", "remove"):
                if not p.get("opaque") and name == "remove" and args[0] not in items:
                    if all(type(x) in (int, str) for x in items + (args[0],)):
                        i.raise_("KeyError", "not in set", node)
                    i.write(o, opaque="set of values")
                i.write(o, items=tuple(x for x in items if x != args[0]))
                return None
            ops = {"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^", "update": "|",
                   "intersection_update": "&", "difference_update": "-", "symmetric_difference_update": "^",
                   "issubset": "-", "issuperset": "-", "isdisjoint": "&"}
            if name == "copy":
                return i.alloc("set", items=items, opaque=p.get("opaque"))
            if name in ops:
                cur = o if "update" in name else i.alloc("set", items=items, opaque=p.get("opaque"))
                for a in args:
                    more = items_of(i, a, node)
                    b = i.alloc("set", items=(), opaque="set of values") if more is None else a_set(i, more)
                    r = set_items(i, b, ops[name], cur) if name == "issuperset" else set_items(i, cur, ops[name], b)
                    i.write(cur, **({"items": (), "opaque": "set of values"} if r is None else {"items": r}))
                if name[:2] == "is":
                    return i.fresh(name, True) if i.payload(cur).get("opaque") else not i.payload(cur)["items"]
                return None if cur is o else cur
            i.write(o, opaque="set method")
            return i.top("set method")
        if o.kind in ("arr", "nd"):
            return array_method(i, o, p, name, args, kw, node)
    if isinstance(o, T):
        if o.op == "sym" and o.args[0].startswith("⊤"):
            return i.top("method %s of an unknown value" % name)
        if name in ("item", "copy", "tolist", "squeeze", "astype", "flatten", "ravel", "reshape", "__float__", "view"):
            return o
        if name in ("sum", "min", "max", "mean"):
            return o
        if name in ("conj", "conjugate"):
            return tm.app("conj", o)
        if name in ("any", "all"):
            return tm.truthy(o)
        if name == "is_integer":
            return tm.eq(o, tm.floor(o))
        if name == "round":
            return _call_ext(i, "numpy.round", "numpy", "round", [o] + list(args), kw, node)
        if name == "argmin" or name == "argmax":
            return 0
        if name in ("clip",):
            return _clip(i, [o] + list(args), kw, node)
        if name == "as_integer_ratio":
            return i.top(name)
        i.event("scalar-method", node, name=name)
        return i.top("method %s of a number" % name)
    if isinstance(o, int):
        if name in ("item", "copy", "conjugate", "__float__"):
            return o
        if name == "bit_length":
            return o.bit_length()
        return i.top("method of an integer")
    if isinstance(o, tuple):
        if name in ("index", "count"):
            return place(i, o, name, args, node)
    if isinstance(o, Dummy):
        sink(i, node, o.name + "." + name, args, kw)
        return Dummy(o.name + "." + name)
    if isinstance(o, Vectorized):
        return i.top("vectorize attribute")
    if o is None:
        i.raise_("AttributeError", "None has no attribute %s" % name, node)
    if isinstance(o, (Func, Bound)) and name == "__call__":
        return i.call_value(o, args, kw, node)
    if isinstance(o, Ref) and o.kind == "obj":
        return i.top("library method %s" % name)
    return i.top("method %s" % name)


def place(i, items, name, args, node):
    """list.index and list.count"""
    at = []
    cut = [as_int(i, a) for a in args[1:3]] + [None, None]
    lo, hi, _ = slice(cut[0], cut[1]).indices(len(items))
    for k, x in enumerate(items):
        if not lo <= k < hi:
            continue
        c = True if ip.same_value(x, args[0]) else i.truth(compare(i, "eq", x, args[0], node), node)
        if c in (True, tm.TRUE):
            at.append(k)
        elif c is not tm.FALSE:
            return i.top("%s of an item that may be there" % name)
        if at and name == "index":
            return k
    if name == "count":
        return len(at)
    i.raise_("ValueError", "not in list", node)


def list_method(i, o, p, name, args, kw, node):
    items = p["items"]
    if name == "append":
        i.write(o, items=items + (args[0],))
        return None
    if name == "extend":
        more = items_of(i, args[0], node)
        if more is None:
            i.write(o, opaque="extended")
        else:
            i.write(o, items=items + tuple(more))
        return None
    if name == "copy":
        return copy_value(i, o, False, {}, node)
    if p.get("opaque"):
        if name in ("pop", "index", "count", "popleft"):
            return i.top("element of an unknown list")
        return None
    if name in ("insert", "reverse", "index", "count", "remove", "sort", "popleft", "rotate") and any(
            isinstance(x, CondItem) for x in items):
        i.write(o, opaque=name)
        return i.top("list with conditional items")
    if name == "appendleft":
        i.write(o, items=(args[0],) + items)
        return None
    if name == "popleft":
        if not items:
            i.raise_("IndexError", "pop from an empty deque", node)
        i.write(o, items=items[1:])
        return items[0]
    if name == "extendleft":
        more = items_of(i, args[0], node)
        if more is None:
            i.write(o, opaque="extended")
        else:
            i.write(o, items=tuple(reversed(more)) + items)
        return None
    if name == "rotate":
        k = as_int(i, args[0]) if args else 1
        if k is None:
            i.write(o, opaque="rotate")
        elif items:
            k %= len(items)
            i.write(o, items=items[-k:] + items[:-k] if k else items)
        return None
    if name == "insert":
        k = as_int(i, args[0])
        l = list(items)
        if k is None:
            i.write(o, opaque="insert")
        else:
            l.insert(k, args[1])
            i.write(o, items=tuple(l))
        return None
    if name == "pop":
        k = as_int(i, args[0]) if args else -1
        if k is None or any(isinstance(x, CondItem) for x in items):
            i.write(o, opaque="pop")
            return i.top("pop")
        l = list(items)
        if not -len(l) <= k < len(l):
            i.raise_("IndexError", "pop from an empty list" if not l else "pop index out of range", node)
        v = l.pop(k)
        i.write(o, items=tuple(l))
        return v
    if name == "clear":
        i.write(o, items=())
        return None
    if name == "reverse":
        i.write(o, items=tuple(reversed(items)))
        return None
    if name == "sort":
        out = in_order(i, list(items), kw, node)
        if out is None:
            i.write(o, opaque="sorted")
        else:
            i.write(o, items=tuple(out))
        return None
    if name in ("index", "count"):
        return place(i, items, name, args, node)
    if name == "remove":
        k = place(i, items, "index", args, node)
        if isinstance(k, int):
            i.write(o, items=items[:k] + items[k + 1:])
        else:
            i.write(o, opaque="remove")
        return None
    if name == "tolist":
        return o
    return i.top("list method %s" % name)


def dict_method(i, o, p, name, args, kw, node):
    d = p["items"]
    if name == "get":
        k = hashkey(i, args[0])
        dflt = args[1] if len(args) > 1 else kw.get("default")
        if isinstance(k, Str):
            return i.top("entry under an unknown key")
        has = contains(i, o, args[0], node)
        return i.branch(has, lambda: getitem(i, o, args[0], node), lambda: dflt)
    if name == "items":
        if p.get("opaque"):
            return i.alloc("list", items=(), opaque="items")
        return i.alloc("list", items=tuple((k, v) for k, v in d.items()))
    if name == "keys":
        if p.get("opaque"):
            return i.alloc("list", items=(), opaque="keys")
        return i.alloc("list", items=tuple(d))
    if name == "values":
        if p.get("opaque"):
            return i.alloc("list", items=(), opaque="values")
        return i.alloc("list", items=tuple(d.values()))
    if name == "pop":
        return dict_pop(i, o, args[0], args[1] if len(args) > 1 else None, len(args) > 1, node)
    if name == "update":
        new = pairs_of(i, args[0], node) if args else {}
        nd = dict(d)
        nd.update(new or {})
        nd.update(kw)
        if new is None:
            i.write(o, items=nd, opaque="update")
        else:
            i.write(o, items=nd)
        return None
    if name == "setdefault":
        k = hashkey(i, args[0])
        has = contains(i, o, args[0], node)

        def put():
            v = args[1] if len(args) > 1 else None
            setitem(i, o, args[0], v, node)
            return v
        return i.branch(has, lambda: getitem(i, o, args[0], node), put)
    if name == "copy":
        return copy_value(i, o, False, {}, node)
    if name == "clear":
        i.write(o, items={}, opaque=None)
        return None
    return i.top("dict method %s" % name)


def array_method(i, o, p, name, args, kw, node):
    from .libmodel import MODELS
    if name in ("std", "var", "ptp", "cumsum", "cumprod", "repeat", "take", "swapaxes", "diagonal", "choose", "searchsorted"):
        return call_ext(i, "numpy." + name, [o] + list(args), kw, node)
    if name == "trace" and not args and not kw:
        return call_ext(i, "numpy.trace", [o], {}, node)
    if name == "transpose" and args and o.kind == "nd":
        ax = [as_int(i, a) for a in (args[0] if len(args) == 1 and isinstance(args[0], tuple) else args)]
        return new_nd(i, val_of(i, o).transpose(ax).copy()) if None not in ax else i.top("transpose")
    if name in _RED and name not in ("sort", "diff", "unique", "gradient"):
        return reduce_(i, name, [o] + list(args), kw, node)
    if name == "copy":
        return copy_value(i, o, False, {}, node)
    if name == "astype":
        l = lifted(i, o)
        dt = _dt(i, args[0] if args else kw.get("dtype"), "float")
        to = "int" if dt == "intdtype" else dt
        if l.k == "a":
            return new_arr(i, cast(l.v, l.dtype, dt), l.len, to, l.mask)
        return new_nd(i, nd_map(lambda x: cast(x, l.dtype, dt), l.v) if to == "int" or to == "int?" else l.v.copy(), to)
    if name in ("item",):
        l = lifted(i, o)
        if l.k == "n":
            if args:
                return getitem(i, o, args[0], node)
            if l.v.size != 1:
                i.raise_("ValueError", "item() of an array of size %d" % l.v.size, node)
            return l.v.reshape(-1)[0]
        return l.v
    if name in ("flatten", "ravel", "squeeze", "view", "conj", "conjugate", "transpose"):
        l = lifted(i, o)
        if l.k == "a":
            return o if name not in ("flatten", "conj", "conjugate") else new_arr(i, l.v, l.len, l.dtype, l.mask)
        if name == "transpose":
            return new_nd(i, l.v.T.copy())
        if name == "squeeze":
            return unlift(i, L("n", _np.squeeze(l.v)))
        if name in ("conj", "conjugate"):
            return ew(i, lambda a: tm.app("conj", a), [o], node)
        return new_nd(i, l.v.reshape(-1).copy()) if name != "view" else o
    if name == "reshape":
        l = lifted(i, o)
        s = _shape(i, args[0] if len(args) == 1 else tuple(args))
        if l.k == "n" and s is not None and s[0] == "n":
            try:
                return new_nd(i, l.v.reshape(s[1]), l.dtype)
            except ValueError as e:
                i.raise_("ValueError", str(e), node)
        if l.k == "a":
            return o
        return i.top("reshape")
    if name == "tolist":
        l = lifted(i, o)
        if l.k == "n" and l.v.ndim == 1:
            return i.alloc("list", items=tuple(l.v))
        return o
    if name == "fill":
        l = lifted(i, o)
        v = scalar_of(i, args[0])
        if l.k == "a":
            store_elem(i, o, v)
        else:
            store_nd(i, o, nd_map(lambda x: v, l.v))
        return None
    if name == "sort":
        l = lifted(i, o)
        if l.k == "a":
            store_elem(i, o, tm.app("arr_sorted", tm.lam(IDX, l.v), IDX, *_lenargs(l)))
        else:
            store_nd(i, o, nd_map(lambda x: i.top("sorted"), l.v))
        return None
    if name == "clip":
        return _clip(i, [o] + list(args), kw, node)
    if name == "dot":
        return matmul(i, o, args[0], node)
    if name == "diagonal":
        return new_nd(i, val_of(i, o).diagonal().copy()) if o.kind == "nd" else i.top("diagonal")
    if name == "round":
        return _call_ext(i, "numpy.round", "numpy", "round", [o] + list(args), kw, node)
    if name == "nonzero":
        return _where(i, [o], {}, node)
    if name == "__len__":
        return call_builtin(i, "len", [o], {}, node)
    return i.top("array method %s" % name)


def _meshless(name):
    def f(i, args, kw, node):
        return opaque_call(i, name, args, kw, node)
    return f


def cheb_terms(x, deg):
    """T_0(x) .. T_deg(x)"""
    out = [tm.ONE, x]
    while len(out) <= deg:
        out.append(tm.TWO * x * out[-1] - out[-2])
    return out[:deg + 1]


def _chebvander(i, args, kw, node):
    x, deg = _nd(i, args[0]), as_int(i, _arg(args, kw, 1, "deg"))
    if x is None or deg is None or x.ndim > 1:
        return opaque_call(i, "chebvander", args, kw, node)
    x = x.reshape(-1)
    out = _np.empty((x.size, deg + 1), dtype=object)
    for r in range(x.size):
        out[r, :] = cheb_terms(x[r], deg)
    return new_nd(i, out)


def _chebval(i, args, kw, node):
    c = _nd(i, _arg(args, kw, 1, "c"))
    if c is None or c.ndim != 1:
        return opaque_call(i, "chebval", args, kw, node)
    def at(x):
        return tm.add(*[a * b for a, b in zip(c, cheb_terms(x, len(c) - 1))])
    return ew(i, at, [_arg(args, kw, 0, "x")], node)


def _system(i, name, args, kw, node):
    a, b = _nd(i, _arg(args, kw, 0, "a")), _nd(i, _arg(args, kw, 1, "b"))
    if a is None or b is None or a.ndim != 2:
        return None
    m, n = a.shape
    if name == "linsolve" and m != n or b.shape[0] != m:
        i.raise_("ValueError", "system of shape %s with %s" % (a.shape, b.shape), node)
    head = [tm.num(m), tm.num(n)] + list(a.reshape(-1))
    cols = b.reshape(m, -1)
    out = _np.empty((n, cols.shape[1]), dtype=object)
    for c in range(cols.shape[1]):
        for k in range(n):
            out[k, c] = tm.app(name, tm.num(k), *(head + list(cols[:, c])))
    return new_nd(i, out.reshape((n,) + b.shape[1:]))


def _solve(i, args, kw, node):
    i.event("may-raise", node, func="solve")
    r = _system(i, "linsolve", args, kw, node)
    if r is None:
        return opaque_call(i, "numpy.linalg.solve", args, kw, node)
    return r


def _lstsq(i, args, kw, node):
    r = _system(i, "lsqsolve", args, kw, node)
    if r is None:
        r = opaque_call(i, "numpy.linalg.lstsq", args[:2], {}, node)
    return (r, i.top("residuals"), i.top("rank"), i.top("singular values"))


def _chebfit(i, args, kw, node):
    v = _chebvander(i, [args[0], _arg(args, kw, 2, "deg")], {}, node)
    return _lstsq(i, [v, args[1]], {}, node)[0]


def _inv(i, args, kw, node):
    a = _nd(i, args[0])
    if a is None or a.ndim != 2:
        return opaque_call(i, "numpy.linalg.inv", args, kw, node)
    i.event("may-raise", node, func="inv")
    return _system(i, "linsolve", [args[0], new_nd(i, _np.array(
        [[tm.ONE if r == c else tm.ZERO for c in range(a.shape[0])] for r in range(a.shape[0])], dtype=object))], {}, node)


def _eig(vectors):
    def f(i, args, kw, node):
        """generalised eigenvalues: entries are functions of the pencil"""
        a = _nd(i, _arg(args, kw, 0, "a"))
        second = _arg(args, kw, 1, "b")
        b = _nd(i, second) if second is not None else None
        if a is None or (second is not None and b is None) or a.ndim != 2 or a.shape[0] != a.shape[1]:
            return opaque_call(i, "scipy.linalg.eig", args, kw, node)
        n = a.shape[0]
        if b is None:
            b = _np.array([[tm.ONE if r == c else tm.ZERO for c in range(n)] for r in range(n)], dtype=object)
        if b.shape != a.shape:
            i.raise_("ValueError", "wrong b dimensions", node)
        ts = [tm.num(n)] + list(a.reshape(-1)) + list(b.reshape(-1))
        vals = new_nd(i, _np.array([tm.app("eigval", tm.num(k), *ts) for k in range(n)], dtype=object), "complex")
        vec = _np.empty((n, n), dtype=object)
        for r in range(n):
            for c in range(n):
                vec[r, c] = tm.app("eigvec", tm.num(r), tm.num(c), *ts)
        return (vals, new_nd(i, vec, "complex")) if vectors else vals
    return f


def selected(i, conds, vals):
    """entries whose condition holds, in order"""
    n = len(conds)
    flags = [tm.ite(c, tm.ONE, tm.ZERO) for c in conds]
    return new_arr(i, tm.app("csel", IDX, tm.num(n), *(flags + list(vals))), tm.add(*flags) if flags else tm.ZERO)


def _norm(i, args, kw, node):
    l = lifted(i, args[0])
    if l is not None and l.k == "n":
        return tm.sqrt(tm.add(*[tm.power(tm.absv(x), tm.TWO) for x in l.v.reshape(-1)]))
    if l is not None and l.k == "s":
        return tm.absv(l.v)
    return opaque_call(i, "numpy.linalg.norm", args, kw, node)


def _vdot(i, args, kw, node):
    a, b = _nd(i, args[0]), _nd(i, args[1])
    if a is None or b is None or a.size != b.size:
        return i.top("vdot")
    return tm.add(*[tm.app("conj", x) * y for x, y in zip(a.reshape(-1), b.reshape(-1))])


def _nantonum(i, args, kw, node):
    v = kw.get("nan", 0)
    copy = _arg(args, kw, 1, "copy")
    copy = True if copy is None else i.truth(copy, node)
    if copy is not True and copy is not tm.TRUE and isinstance(args[0], Ref) and args[0].kind in ("arr", "nd"):
        x = args[0]
        keep = tm.TRUE if copy is tm.TRUE else tm.FALSE if copy is False or copy is tm.FALSE else copy
        r = ew(i, lambda a, b: tm.ite(tm.andv(tm.app("?isnan", a), tm.notv(keep)), b, a), [x, v], node)
        setitem(i, x, Slice(None, None, None), r, node)
        return x if keep is tm.FALSE else _nantonum(i, [x], {"nan": v}, node)
    return ew(i, lambda a, b: tm.ite(tm.app("?isnan", a), b, a), [args[0], v], node)


def _broadcast(i, args, kw, node):
    ln = None
    for a in args:
        n = length_of(i, a)
        if n is not None:
            ln = n
    if ln is None:
        return i.alloc("list", items=tuple(args))
    return i.alloc("list", items=tuple(new_arr(i, scalar_of(i, a), ln) if length_of(i, a) is None else a for a in args))


def _broadcast_to(i, args, kw, node):
    l = lifted(i, args[0])
    s = _shape(i, args[1])
    if l is not None and l.k == "a":
        return args[0]
    if l is not None and l.k == "s" and s is not None and s[0] == "a":
        return new_arr(i, l.v, s[1])
    if l is not None and s is not None and s[0] == "n":
        return new_nd(i, _np.broadcast_to(l.v if l.k == "n" else _np.array(l.v, dtype=object), s[1]).copy())
    return i.top("broadcast_to")


def _result_type(i, args, kw, node):
    out = []
    for a in args:
        if isinstance(a, (DType, Ext)) or isinstance(a, str):
            out.append(_dt(i, a, "float"))
        elif isinstance(a, Ref) and a.kind in ("arr", "nd"):
            out.append(i.payload(a).get("dtype", "float"))
        elif isinstance(a, bool) or type(a) is int:
            out.append("bool")
        elif isinstance(a, Str) or a is None:
            return Str("dtype")
        else:
            out.append("float")
    if all(d in _INTS for d in out):
        return DType("int?" if "int?" in out else "int")
    return DType("float")


def _finfo(i, args, kw, node):
    return Ext("numpy.finfo()")


def _reduce(i, args, kw, node):
    items = items_of(i, args[1], node)
    if items is None:
        return i.top("reduce")
    cur = args[2] if len(args) > 2 else items.pop(0)
    for x in items:
        cur = i.call_value(args[0], [cur, x], {}, node)
    return cur


def _outer(vs, kw):
    a, b = vs
    out = _np.empty((a.size, b.size), dtype=object)
    for p in range(a.size):
        for q in range(b.size):
            out[p, q] = a.reshape(-1)[p] * b.reshape(-1)[q]
    return out


def _identity1(i, args, kw, node):
    return args[0]


def keep_along(i, conds, v, ax):
    """entries along an axis whose condition holds: as wide as the input, entries past the last selected one are undefined"""
    if v.ndim == 1:
        return selected(i, conds, v)
    w = _np.moveaxis(v, ax, 1)
    out = _np.empty(w.shape, dtype=object)
    flags = [tm.ite(c, tm.ONE, tm.ZERO) for c in conds]
    for r in range(w.shape[0]):
        for k in range(w.shape[1]):
            out[r, k] = tm.app("csel", tm.num(k), tm.num(len(conds)), *(flags + list(w[r])))
    return new_nd(i, _np.moveaxis(out, 1, ax))


def part_of(i, val, k):
    """a condition, or a slice with a computed end, along one axis of a vector or matrix"""
    ks = k if isinstance(k, tuple) else (k,)
    if val.ndim > 2 or len(ks) > val.ndim:
        return None
    which = None
    for ax, x in enumerate(ks):
        if isinstance(x, Slice) and x.lo is None and x.hi is None and x.step is None:
            continue
        if which is not None:
            return None
        which = ax
    if which is None:
        return None
    x, n = ks[which], val.shape[which]
    if isinstance(x, Slice):
        if x.step not in (None, 1):
            return None
        lo = tm.ZERO if x.lo is None else x.lo
        hi = tm.num(n) if x.hi is None else x.hi
        lo, hi = tm.lift(lo), tm.lift(hi)
        if lo is None or hi is None or lo.op == "num" and lo.args[0] < 0 or hi.op == "num" and hi.args[0] < 0:
            return None
        conds = [tm.andv(tm.le(lo, tm.num(j)), tm.lt(tm.num(j), hi)) for j in range(n)]
    elif positions_of(i, x) is not None:
        conds = positions_of(i, x)
        if len(conds) != n:
            return None
    else:
        m = _nd(i, x)
        if m is None or m.shape != (n,) or not all(tm.is_bool(y) for y in m):
            return None
        conds = list(m)
    return keep_along(i, conds, val, which)


def _compress(i, args, kw, node):
    cond, v = _nd(i, _arg(args, kw, 0, "condition")), _nd(i, _arg(args, kw, 1, "a"))
    axis = _arg(args, kw, 2, "axis")
    ax = as_int(i, axis) if axis is not None else None
    if cond is None or v is None or cond.ndim != 1:
        return opaque_call(i, "numpy.compress", args, kw, node)
    conds = [tm.truthy(x) for x in cond]
    if all(x in (tm.TRUE, tm.FALSE) for x in conds):
        return new_nd(i, _np.compress([x is tm.TRUE for x in conds], v, axis=ax))
    if v.ndim == 1 and v.size == len(conds) or v.ndim == 2 and ax in (0, 1, -1) and v.shape[ax] == len(conds):
        return keep_along(i, conds, v, ax)
    return opaque_call(i, "numpy.compress", args, kw, node)


def _dot(i, args, kw, node):
    return matmul(i, args[0], args[1], node)


def _float_cast(i, args, kw, node):
    v = args[0] if args else 0
    l = lifted(i, v)
    if l is None:
        return i.top("cast")
    if l.k == "s":
        return l.v
    if l.k == "a":
        return new_arr(i, l.v, l.len, "float", l.mask)
    return new_nd(i, l.v.copy())


def _arrsplit(i, args, kw, node):
    return i.top("split")


def _append(i, args, kw, node):
    return _stack("concatenate")(i, [(args[0] if lifted(i, args[0]) is None or lifted(i, args[0]).k != "s" else
                                      new_nd(i, _np.array([scalar_of(i, args[0])], dtype=object)),
                                      args[1] if lifted(i, args[1]) is None or lifted(i, args[1]).k != "s" else
                                      new_nd(i, _np.array([scalar_of(i, args[1])], dtype=object)))], {}, node)


def _place(i, args, kw, node):
    setitem(i, args[0], args[1], args[2], node)
    return None


_EXT = {
    "numpy.zeros": _filled(tm.ZERO), "numpy.ones": _filled(tm.ONE), "numpy.empty": _filled(tm.ZERO), "numpy.full": _full,
    "numpy.zeros_like": _like(tm.ZERO), "numpy.ones_like": _like(tm.ONE), "numpy.empty_like": _like(tm.ZERO),
    "numpy.full_like": _like("full"),
    "numpy.array": _asarray(True), "numpy.asarray": _asarray(False), "numpy.asanyarray": _asarray(False),
    "numpy.ascontiguousarray": _asarray(False), "numpy.copy": _asarray(True), "numpy.asfarray": _asarray(False),
    "numpy.atleast_1d": _atleast, "numpy.where": _where, "numpy.select": _select, "numpy.piecewise": _piecewise,
    "numpy.clip": _clip, "numpy.linspace": _linspace, "numpy.arange": _arange, "numpy.eye": _eye, "numpy.identity": _eye,
    "numpy.diag": _diag, "numpy.diag_indices": _diag_indices, "numpy.flatnonzero": lambda i, a, k, n: _where(i, a, k, n)[0], "numpy.kron": _ndfun(_kron), "numpy.tile": _tile, "numpy.block": _block,
    "numpy.concatenate": _stack("concatenate"), "numpy.hstack": _stack("hstack"), "numpy.vstack": _stack("vstack"),
    "numpy.stack": _stack("stack"), "numpy.append": _append, "numpy.column_stack": _stack("column_stack"),
    "numpy.fill_diagonal": _fill_diagonal, "scipy.linalg.toeplitz": _toeplitz,
    "numpy.flipud": _ndfun(lambda v, k: _np.flipud(v[0])), "numpy.fliplr": _ndfun(lambda v, k: _np.fliplr(v[0])),
    "numpy.flip": _ndfun(lambda v, k: _np.flip(v[0], **k)), "numpy.transpose": _ndfun(lambda v, k: v[0].T),
    "numpy.outer": _ndfun(_outer), "numpy.trace": _ndfun(lambda v, k: _np.array(tm.add(*v[0].diagonal()), dtype=object)),
    "numpy.reshape": lambda i, a, k, n: array_method(i, a[0], i.payload(a[0]), "reshape", a[1:], k, n),
    "numpy.ravel": lambda i, a, k, n: call_method(i, a[0], "ravel", [], {}, n),
    "numpy.squeeze": lambda i, a, k, n: call_method(i, a[0], "squeeze", [], {}, n),
    "numpy.size": _size, "numpy.ndim": _ndim, "numpy.shape": _shapef, "numpy.isscalar": _isscalar,
    "copy.copy": _copy(False), "copy.deepcopy": _copy(True), "numpy.polyval": _polyval,
    "numpy.polynomial.polynomial.polyval": _npoly, "numpy.isclose": _isclose, "math.isclose": _mathisclose,
    "numpy.allclose": lambda i, a, k, n: reduce_(i, "all", [_isclose(i, a, k, n)], {}, n),
    "functools.partial": _partial, "numpy.vectorize": _vectorize, "functools.reduce": _reduce,
    "numpy.dot": _dot, "numpy.matmul": _dot, "numpy.inner": _dot, "numpy.linalg.solve": _solve, "numpy.linalg.norm": _norm,
    "scipy.linalg.norm": _norm, "scipy.linalg.solve": _solve, "numpy.linalg.lstsq": _lstsq, "scipy.linalg.lstsq": _lstsq,
    "numpy.linalg.inv": _inv, "scipy.linalg.inv": _inv, "scipy.linalg.eig": _eig(True), "numpy.linalg.eig": _eig(True),
    "scipy.linalg.eigvals": _eig(False), "numpy.linalg.eigvals": _eig(False),
    "numpy.polynomial.chebyshev.chebvander": _chebvander, "numpy.polynomial.chebyshev.chebval": _chebval,
    "numpy.polynomial.chebyshev.chebfit": _chebfit,
    "numpy.vdot": _vdot, "numpy.nan_to_num": _nantonum, "numpy.broadcast_arrays": _broadcast,
    "numpy.broadcast_to": _broadcast_to, "numpy.finfo": _finfo, "numpy.result_type": _result_type,
    "numpy.float64": _float_cast, "numpy.float32": _float_cast, "numpy.complex128": _float_cast, "numpy.double": _float_cast,
    "numpy.compress": _compress, "numpy.iscomplexobj": _iscomplexobj, "numpy.isrealobj": _isrealobj, "numpy.nonzero": _where,
    "numpy.flatnonzero": lambda i, a, k, n: _where(i, a, k, n)[0], "numpy.place": _place, "numpy.putmask": _place,
    "numpy.copyto": lambda i, a, k, n: setitem(i, a[0], k["where"] if "where" in k else Slice(None, None, None), a[1], n),
    "numpy.expand_dims": lambda i, a, k, n: i.top("expand_dims"), "numpy.meshgrid": _arrsplit,
    "typing.cast": lambda i, a, k, n: a[1], "typing.TypeVar": lambda i, a, k, n: Ext("typing.T"),
    "operator.itemgetter": lambda i, a, k, n: i.top("itemgetter"),
    "math.fsum": lambda i, a, k, n: call_builtin(i, "sum", a, {}, n),
    "math.prod": lambda i, a, k, n: _reduce(i, [lambda ii, aa, kk, nn: binop(ii, aa[0], "*", aa[1], nn), a[0], 1], {}, n),
    "inspect.stack": lambda i, a, k, n: i.alloc("list", items=(), opaque="stack"),
    "inspect.currentframe": lambda i, a, k, n: i.top("frame"),
    "itertools.chain": lambda i, a, k, n: i.alloc("list", items=tuple(x for s in a for x in (items_of(i, s, n) or []))),
    "itertools.product": lambda i, a, k, n: i.alloc("list", items=tuple(__import__("itertools").product(
        *[items_of(i, s, n) or [] for s in a]))),
    "collections.OrderedDict": lambda i, a, k, n: call_builtin(i, "dict", a, k, n),
    "types.SimpleNamespace": lambda i, a, k, n: i.alloc("obj", cls=_result_cls(i), attrs=dict(k)),
}
_NT = {}


def _namedtuple(i, args, kw, node):
    fields = items_of(i, args[1], node) if not isinstance(args[1], str) else args[1].replace(",", " ").split()
    if fields is None or not isinstance(args[0], str):
        raise Unsupported("namedtuple of unknown fields")
    fr = i.alloc("class", vars={}, parent=None, module="namedtuple", is_class=True)
    c = Cls(args[0], "namedtuple", [], fr.oid, None)
    dflt = items_of(i, kw["defaults"], node) if kw.get("defaults") is not None else []
    if dflt is None or set(kw) - {"defaults"}:
        raise Unsupported("namedtuple options")
    from .classes import named_tuple
    named_tuple(i, c, list(zip(fields, [ABSENT] * (len(fields) - len(dflt)) + list(dflt))))
    return c


_EXT["collections.namedtuple"] = _namedtuple
