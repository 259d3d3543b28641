"""Classes whose behaviour a base class or a decorator of the standard library supplies."""
import ast

from . import terms as tm
from .interp import Ref, Gate, ABSENT, Func, Bound, Cls, Prop, Static, Ext, Unsupported

_HOOKS = {"__new__", "__getattribute__", "__setattr__", "__delattr__", "__init_subclass__", "__set_name__", "__get__",
          "__set__", "__delete__", "__class_getitem__", "__prepare__", "__instancecheck__", "__call_class__"}


class Field:
    """the value of dataclasses.field(...)"""
    __slots__ = ("default", "factory", "init", "compare")

    def __init__(self, default, factory, init, compare):
        self.default, self.factory, self.init, self.compare = default, factory, init, compare


class Auto:
    """the value of enum.auto()"""


def unmodelled(s):
    """a hook of the data model the interpreter does not follow, or None"""
    for x in s.body:
        if isinstance(x, ast.FunctionDef) and x.name in _HOOKS:
            return x.name
    for k in s.keywords:
        return "class keyword %s" % k.arg
    return None


def _annotated(i, c, s):
    """annotated names of the class body that are fields"""
    skip = set()
    for x in s.body:
        if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
            a = ast.unparse(x.annotation)
            if "ClassVar" in a:
                skip.add(x.target.id)
            if "InitVar" in a or "KW_ONLY" in a:
                raise Unsupported("dataclass with %s" % a)
    p = i.state.heap[c.oid]
    vs = p["vars"]
    return [(k, vs[k] if has else ABSENT) for k, has in (p.get("ann") or {}).items() if k not in skip]


def _put(i, c, name, v):
    p = i.state.heap[c.oid]
    d = dict(p["vars"])
    if v is ABSENT:
        d.pop(name, None)
    else:
        d[name] = v
    i.state.heap[c.oid] = p.with_(vars=d)


def dataclass(i, c, s, deco):
    fields = []
    for b in reversed(i.mro(c)[1:]):
        if isinstance(b, Cls) and b.fields and not b.tuple:
            fields = [f for f in fields if f[0] not in dict(b.fields)] + b.fields
    own = _annotated(i, c, s)
    names = [n for n, _ in own]
    old = dict(fields)
    fields = [(n, d) if n not in names else (n, dict(own)[n]) for n, d in fields] + [f for f in own if f[0] not in old]
    c.fields = fields
    for n, d in own:
        if isinstance(d, Field):
            _put(i, c, n, d.default)
    opts = {k.arg: k.value for k in deco.keywords} if isinstance(deco, ast.Call) else {}

    def on(name):
        return name in opts and not (isinstance(opts[name], ast.Constant) and opts[name].value is False)
    if on("order") or on("kw_only") or "init" in opts:
        raise Unsupported("dataclass option")
    c.frozen = on("frozen") or any(isinstance(b, Cls) and b.frozen for b in i.mro(c)[1:])
    off = "eq" in opts and not on("eq")
    if not off and "__eq__" not in i.state.heap[c.oid]["vars"]:
        _put(i, c, "__eq__", _eq)


def _eq(i, args, kw, node):
    a, b = args
    if not (isinstance(b, Ref) and b.kind == "obj"):
        return False
    p, q = i.payload(a), i.payload(b)
    if p["cls"] is not q["cls"]:
        return False
    fs = [f for f, d in p["cls"].fields if not (isinstance(d, Field) and not d.compare)]
    return i.np.compare(i, "eq", tuple(i.getattr(a, f, node) for f in fs), tuple(i.getattr(b, f, node) for f in fs), node)


def named_tuple(i, c, fields):
    """the methods of a tuple with named fields"""
    c.fields = fields
    c.tuple = True
    names = tuple(f for f, _ in fields)

    def values(ii, o):
        at = ii.payload(o)["attrs"]
        return tuple(at[f] for f in names)

    def it(ii, a, k, n):
        return values(ii, a[0])

    def gi(ii, a, k, n):
        return ii.np.getitem(ii, values(ii, a[0]), a[1], n)

    def ln(ii, a, k, n):
        return len(names)

    def eq(ii, a, k, n):
        o = a[1]
        if isinstance(o, Ref) and o.kind == "obj" and ii.payload(o)["cls"].tuple:
            o = tuple(ii.np.items_of(ii, o, n))
        return ii.np.compare(ii, "eq", values(ii, a[0]), o, n) if isinstance(o, tuple) else False

    def ne(ii, a, k, n):
        from .context import unbool
        return unbool(tm.notv(ii.truth(eq(ii, a, k, n), n)))

    def asdict(ii, a, k, n):
        return ii.alloc("dict", items=dict(zip(names, values(ii, a[0]))))

    def repl(ii, a, k, n):
        d = dict(zip(names, values(ii, a[0])))
        for x in k:
            if x not in d:
                ii.raise_("ValueError", "Got unexpected field names: %s" % x, n)
        d.update(k)
        return ii.new(ii.payload(a[0])["cls"], [], d, n)

    def index(ii, a, k, n):
        return ii.np.call_method(ii, values(ii, a[0]), "index", a[1:], k, n)

    def count(ii, a, k, n):
        return ii.np.call_method(ii, values(ii, a[0]), "count", a[1:], k, n)

    def add(ii, a, k, n):
        return ii.np.binop(ii, values(ii, a[0]), "+", a[1], n)

    def make(ii, a, k, n):
        items = ii.np.items_of(ii, a[1], n)
        if items is None:
            raise Unsupported("_make of an unknown sequence")
        return ii.new(a[0], items, {}, n)
    for k, v in {"__iter__": it, "__getitem__": gi, "__len__": ln, "__eq__": eq, "__ne__": ne, "__add__": add}.items():
        if k not in i.state.heap[c.oid]["vars"]:
            _put(i, c, k, v)
    for k, v in {"_asdict": asdict, "_replace": repl, "index": index, "count": count}.items():
        _put(i, c, k, Method(v))
    _put(i, c, "_make", Static(make, "class"))
    _put(i, c, "_fields", names)


class Method:
    """a method the library supplies"""
    __slots__ = ("run",)

    def __init__(self, run):
        self.run = run

    def __call__(self, i, args, kw, node):
        return self.run(i, args, kw, node)


def enumeration(i, c, s):
    """members of an Enum class"""
    members = []
    for n, v in list(i.state.heap[c.oid]["vars"].items()):
        if n.startswith("_") or isinstance(v, (Func, Prop, Static, Cls, Method)) or callable(v):
            continue
        if isinstance(v, Auto):
            v = max([m[1] for m in members if isinstance(m[1], int)], default=0) + 1
        same = [m for m in members if i.np.ip.same_value(m[1], v) and type(m[1]) is type(v)]
        if same:
            _put(i, c, n, same[0][2])
            continue
        o = i.alloc("obj", cls=c, attrs={"name": n, "value": v, "_name_": n, "_value_": v})
        members.append((n, v, o))
        _put(i, c, n, o)
    c.members = members


def member(i, c, v, node):
    """the member of an Enum class with a value"""
    if isinstance(v, Ref) and v.kind == "obj" and i.payload(v)["cls"] is c:
        return v

    def go(k):
        if k == len(c.members):
            i.raise_("ValueError", "%r is not a valid %s" % (v, c.name), node)
        n, x, o = c.members[k]
        hit = i.truth(i.np.compare(i, "eq", v, x, node), node)
        return i.branch(hit, lambda: o, lambda: go(k + 1))
    return go(0)


def finished(i, c, s, decorators):
    """what the bases and the decorators make of a class body"""
    h = unmodelled(s)
    if h:
        i.gaps.append("%s: %s" % (i.where(s), h))
    for d in decorators:
        n = ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1]
        if n == "dataclass":
            dataclass(i, c, s, d)
        elif n not in ("final", "unique", "runtime_checkable"):
            i.gaps.append("%s: class decorator %s" % (i.where(s), n))
    names = {b.name.split(".")[-1] for b in i.mro(c)[1:] if isinstance(b, Ext)}
    if "NamedTuple" in names and any(isinstance(b, Ext) for b in c.bases):
        fields = _annotated(i, c, s)
        for n, _ in fields:
            _put(i, c, n, ABSENT)
        named_tuple(i, c, fields)
    elif names & {"Enum"} and not names & {"str", "int", "float"}:
        enumeration(i, c, s)
    elif names & {"Enum", "IntEnum", "StrEnum", "Flag", "IntFlag"}:
        raise Unsupported("an enumeration of plain values")
    elif names & {"tuple", "int", "float", "str", "dict", "list", "set", "ndarray", "UserDict", "UserList", "OrderedDict",
                  "defaultdict", "Protocol", "Generic"} - {"Protocol", "Generic"}:
        i.gaps.append("%s: subclass of a built-in type" % i.where(s))
