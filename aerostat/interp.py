"""Interprocedural abstract interpreter over the syntax trees of the repository.

Values are value numbers (terms.T) plus a small heap of abstract objects.  Control
flow is not enumerated: both arms of an undecided branch are interpreted from the
same state and the two states are joined with `ite` gates (gated single
assignment), loops with an unknown number of turns are brought to a fixpoint with
fresh loop symbols.  No code of the repository is imported or executed.
"""
import ast
import builtins
import os
import sys
import warnings

import numpy as _np

from . import syntax
from . import terms as tm
from .terms import T

sys.setrecursionlimit(30000)


class Unsupported(Exception):
    pass


class Anchor(Exception):
    """Something the analysis is anchored in is gone."""


# ------------------------------------------------------------------ values
class Ref:
    """An object on the abstract heap."""
    __slots__ = ("oid", "kind")

    def __init__(self, oid, kind):
        self.oid, self.kind = oid, kind

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(("ref", self.oid))

    def __repr__(self):
        return "<%s#%d>" % (self.kind, self.oid)


def decided_by(cond, q):
    """Truth of a comparison that holds or fails because the comparison q of the same quantities holds."""
    if cond.op not in ("lt", "le", "eq") or q.op not in ("lt", "le"):
        return None
    if tm.free_syms(cond) != tm.free_syms(q):
        return None
    d = tm.add(q.args[0], tm.mul(tm.MINUS1, q.args[1]))             # d < 0 or d <= 0
    e = tm.add(cond.args[0], tm.mul(tm.MINUS1, cond.args[1]))
    if e is d:
        if cond.op == "eq":
            return tm.FALSE if q.op == "lt" else None
        return tm.TRUE if q.op == "lt" or cond.op == "le" else None
    if tm.add(e, d) is tm.ZERO:
        if cond.op == "lt" or q.op == "lt":
            return tm.FALSE
    return None


class Gate:
    """`a` where c holds, else `b` (for values that are not numbers)."""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Gate(%r, %r, %r)" % (self.c, self.a, self.b)


class Missing:
    def __repr__(self):
        return "<absent>"


ABSENT = Missing()


class Func:
    __slots__ = ("node", "module", "qual", "frame", "defaults", "kwdefaults", "cls", "decos", "taint")

    def __init__(self, node, module, qual, frame, defaults, kwdefaults, cls=None, decos=()):
        self.node, self.module, self.qual, self.frame = node, module, qual, frame
        self.defaults, self.kwdefaults, self.cls, self.decos = defaults, kwdefaults, cls, decos
        self.taint = True

    @property
    def name(self):
        return "%s.%s" % (self.module, self.qual)

    def where(self, interp):
        return "%s:%d" % (interp.relpath(self.module), self.node.lineno)

    def __repr__(self):
        return "<function %s>" % self.name


class Bound:
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.self_)


class Vectorized:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class Partial:
    __slots__ = ("func", "args", "kw")

    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class Cls:
    __slots__ = ("name", "module", "bases", "oid", "node", "fields", "tuple", "frozen", "members")

    def __init__(self, name, module, bases, oid, node):
        self.name, self.module, self.bases, self.oid, self.node = name, module, bases, oid, node
        self.fields = self.members = None
        self.tuple = self.frozen = False

    def __repr__(self):
        return "<class %s.%s>" % (self.module, self.name)


class Prop:
    __slots__ = ("fget", "fset", "kept")

    def __init__(self, fget, fset=None, kept=False):
        self.fget, self.fset, self.kept = fget, fset, kept


class Static:
    __slots__ = ("func", "kind")

    def __init__(self, func, kind):
        self.func, self.kind = func, kind


class Mod:
    __slots__ = ("name", "oid")

    def __init__(self, name, oid):
        self.name, self.oid = name, oid

    def __repr__(self):
        return "<module %s>" % self.name


class Ext:
    """A name of a library outside the repository."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))

    def __repr__(self):
        return "<ext %s>" % self.name


class ExtMethod:
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Str:
    """An unknown string."""
    __slots__ = ("why",)

    def __init__(self, why="?"):
        self.why = why


class Text(Str):
    """A string with written-out values: parts are literal strings and (value, format)."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.why = "text"
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "" or not isinstance(p, str):
                out.append(p)
        self.parts = tuple(out)


class Slice:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Range:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SuperProxy:
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


ELLIPSIS = object()


class CondItem:
    """A list element present only under a guard."""
    __slots__ = ("c", "v")

    def __init__(self, c, v):
        self.c, self.v = c, v

    def __repr__(self):
        return "CondItem(%r, %r)" % (self.c, self.v)


# ----------------------------------------------------------- heap payloads
class P:
    """heap payload; treated as immutable, replaced on write"""
    __slots__ = ("kind", "d")

    def __init__(self, kind, **d):
        self.kind, self.d = kind, d

    def with_(self, **kw):
        p = P(self.kind)
        p.d = dict(self.d)
        p.d.update(kw)
        return p

    def __getitem__(self, k):
        return self.d[k]

    def get(self, k, dflt=None):
        return self.d.get(k, dflt)


class State:
    __slots__ = ("heap", "live")

    def __init__(self, heap, live=tm.TRUE):
        self.heap = heap
        self.live = live

    def fork(self):
        return State(dict(self.heap), self.live)


EXCEPTIONS = {n: v for n, v in vars(builtins).items() if isinstance(v, type) and issubclass(v, BaseException)}


def ancestors(name):
    """the classes an exception class inherits from"""
    out = {name}
    if name in EXCEPTIONS:
        out |= {c.__name__ for c in EXCEPTIONS[name].__mro__ if c is not object}
    return out | {"ValueError"} if name == "LinAlgError" else out


class Endless:
    """an iterator that never ends: the value at a position"""

    def __init__(self, at, start=None, step=None):
        self.at = at
        self.start, self.step = start, step         # of a progression


class Exit:
    __slots__ = ("guard", "kind", "value", "heap", "node")

    def __init__(self, guard, kind, value, heap, node=None):
        self.guard, self.kind, self.value, self.heap, self.node = guard, kind, value, heap, node


class Event:
    __slots__ = ("kind", "pc", "where", "func", "data")

    def __init__(self, kind, pc, where, func, data):
        self.kind, self.pc, self.where, self.func, self.data = kind, pc, where, func, data

    def __repr__(self):
        return "Event(%s at %s in %s: %r)" % (self.kind, self.where, self.func, self.data)


class LoopInfo:
    """What one turn of a loop with an unknown number of turns does."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


_ISBOOL = "?"


def tagged_float(v):
    return isinstance(v, T)


# =====================================================================
class Interp:
    def __init__(self, root="/repo", package="aerokit"):
        self.root = root
        self.package = package
        self.heap_counter = 0
        self.state = State({})
        self.modules = {}          # name -> Mod
        self.trees = {}            # name -> (path, ast, source)
        self.loading = []
        self.pc = []
        self.events = []
        self.gaps = []          # statements that could not be interpreted
        self.callstack = []
        self.loops = []
        self.solves = []
        self.functions_seen = set()
        self.call_sites = 0
        self.fresh_n = 0
        self.import_errors = []
        self.cond_raises = []
        self.handlers = []
        self.hist_stores = {}
        self.func_attrs = {}
        self.taint_defaults = False
        self.taint_names = {"gamma", "gam", "r", "gam_cold", "gam_hot", "r_cold", "r_hot"}
        self.opaque = {}           # qualified function name -> handler
        self.assumed = []          # terms taken as true
        self.max_unroll = 70
        self.peel = None
        self.func_index = {}
        from . import npmodel
        self.np = npmodel
        self._scan()

    # -- files ---------------------------------------------------------------
    def _scan(self):
        base = os.path.join(self.root, self.package)
        if not os.path.isdir(base):
            raise Anchor("package %s not found under %s" % (self.package, self.root))
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    path = os.path.join(dp, f)
                    rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    with open(path, encoding="utf-8") as fh:
                        src = fh.read()
                    try:
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            tree = syntax.plain(ast.parse(src))
                    except SyntaxError as e:
                        raise Anchor("%s does not parse: %s" % (path, e))
                    self.trees[rel] = (path, tree, src)

    def relpath(self, module):
        t = self.trees.get(module)
        return os.path.relpath(t[0], self.root) if t else module

    # -- heap -----------------------------------------------------------------
    def alloc(self, kind, **d):
        self.heap_counter += 1
        self.state.heap[self.heap_counter] = P(kind, **d)
        return Ref(self.heap_counter, kind)

    def payload(self, ref):
        return self.state.heap[ref.oid]

    def write(self, ref, **kw):
        self.state.heap[ref.oid] = self.state.heap[ref.oid].with_(**kw)

    def fresh(self, why, boolean=False):
        self.fresh_n += 1
        return tm.sym("%s%s#%d" % ("?" if boolean else "", why, self.fresh_n))

    def top(self, why):
        self.fresh_n += 1
        return tm.sym("⊤%d:%s" % (self.fresh_n, why))

    # -- events -----------------------------------------------------------------
    def where(self, node):
        mod = self.callstack[-1].module if self.callstack else (self.loading[-1] if self.loading else "?")
        return "%s:%d" % (self.relpath(mod), getattr(node, "lineno", 0))

    def event(self, kind, node=None, **data):
        f = self.callstack[-1].name if self.callstack else "<module>"
        ev = Event(kind, tm.andv(*self.pc) if self.pc else tm.TRUE, self.where(node), f, data)
        self.events.append(ev)
        return ev

    # -- modules ----------------------------------------------------------------
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name not in self.trees:
            raise Anchor("module %s not found" % name)
        # parents first
        if "." in name:
            parent = name.rsplit(".", 1)[0]
            if parent in self.trees:
                self.module(parent)
        if name in self.modules:
            return self.modules[name]
        saved = (self.callstack, self.pc)
        self.callstack, self.pc = [], []
        fr = self.alloc("frame", vars={"__name__": name, "__doc__": None}, parent=None, module=name)
        m = Mod(name, fr.oid)
        self.modules[name] = m
        self.loading.append(name)
        try:
            ctx = Ctx(self, fr, name, "", None)
            exits = ctx.block(self.trees[name][1].body)
            for e in exits:
                if e.kind == "raise":
                    self.import_errors.append((name, e.value, e.node))
            self.state = State(self.state.heap, tm.TRUE)
        finally:
            self.loading.pop()
            self.callstack, self.pc = saved
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            if parent in self.modules:
                pf = self.state.heap[self.modules[parent].oid]
                v = dict(pf["vars"])
                v.setdefault(leaf, m)
                self.state.heap[self.modules[parent].oid] = pf.with_(vars=v)
        return m

    def modvars(self, mod):
        return self.state.heap[mod.oid]["vars"]

    def get(self, dotted):
        """A module-level object by dotted name; its absence breaks the analysis."""
        parts = dotted.split(".")
        for k in range(len(parts), 0, -1):
            name = ".".join(parts[:k])
            if name in self.trees:
                m = self.module(name)
                cur = m
                for a in parts[k:]:
                    try:
                        cur = self.getattr(cur, a, None)
                    except RaiseSignal:
                        raise Anchor("%s not found" % dotted)
                    if cur is ABSENT:
                        raise Anchor("%s not found" % dotted)
                return cur
        raise Anchor("%s not found" % dotted)

    # -- public calls --------------------------------------------------------------
    def call(self, f, args=(), kwargs=None, node=None):
        """Call an abstract callable. Returns its value; exceptions become a
        RaiseSignal when they are certain and an event otherwise."""
        return self.call_value(f, list(args), dict(kwargs or {}), node)

    def branch(self, cond, fa, fb):
        """Run fa/fb on forked states under cond, join."""
        cond = self.assume_simplify(cond)
        if cond is tm.TRUE:
            return fa()
        if cond is tm.FALSE:
            return fb()
        base = self.state
        sa = base.fork()
        sb = base.fork()
        self.state = sa
        self.pc.append(cond)
        ra = rb = None
        ea = eb = None
        try:
            ra = fa()
        except RaiseSignal as e:
            ea = e
        finally:
            self.pc.pop()
            sa = self.state      # nested branches replace it
        self.state = sb
        self.pc.append(tm.notv(cond))
        try:
            rb = fb()
        except RaiseSignal as e:
            eb = e
        finally:
            self.pc.pop()
            sb = self.state
        if ea and eb:
            self.state = base
            raise ea
        if ea:
            self.state = sb
            self.pending_raise(cond, ea, sa.heap)
            return rb
        if eb:
            self.state = sa
            self.pending_raise(tm.notv(cond), eb, sb.heap)
            return ra
        self.state = self.join(cond, sa, sb)
        return self.merge(cond, ra, rb)

    def pending_raise(self, cond, sig, heap):
        """An exception that happens only under a condition."""
        sig.heap = dict(heap)
        self.pc.append(cond)
        self.event("raise", sig.node, exc=sig.exc, msg=sig.msg)
        self.pc.pop()
        self.cond_raises.append((tm.andv(*(self.pc + [cond])), sig))

    def assume_simplify(self, cond):
        if cond in (tm.TRUE, tm.FALSE):
            return cond
        for p in self.assumed:
            if p is cond:
                return tm.TRUE
            if p is tm.notv(cond):
                return tm.FALSE
        # already decided by the path
        for p in self.pc:
            parts = p.args if p.op == "and" else (p,)
            for q in parts:
                if q is cond:
                    return tm.TRUE
                if q is tm.notv(cond):
                    return tm.FALSE
                r = decided_by(cond, q)
                if r is not None:
                    return r
        return cond

    # -- joins ------------------------------------------------------------------------
    def join(self, c, sa, sb):
        out = {}
        ha, hb = sa.heap, sb.heap
        saved = self.state
        self.state = State(out)
        for oid in ha.keys() | hb.keys():
            pa, pb = ha.get(oid), hb.get(oid)
            if pa is pb or pb is None:
                out[oid] = pa
            elif pa is None:
                out[oid] = pb
        for oid in ha.keys() | hb.keys():
            if oid not in out:
                out[oid] = self.join_payload(c, ha[oid], hb[oid])
        st = self.state
        self.state = saved
        return State(st.heap, tm.TRUE)

    def join_payload(self, c, a, b):
        k = a.kind
        if k in ("frame", "obj", "dict", "class"):
            key = "vars" if k in ("frame", "class") else ("attrs" if k == "obj" else "items")
            va, vb = a[key], b[key]
            new = {}
            for n in list(va) + [x for x in vb if x not in va]:
                x, y = va.get(n, ABSENT), vb.get(n, ABSENT)
                new[n] = x if x is y else self.merge(c, x, y)
            r = a.with_(**{key: new})
            if k == "dict" and (a.get("opaque") or b.get("opaque")):
                r = r.with_(opaque=a.get("opaque") or b.get("opaque"))
            return r
        if k in ("list", "set"):
            la, lb = a["items"], b["items"]
            if len(la) == len(lb) and not (k == "list" and any(isinstance(x, CondItem) for x in la + lb)):
                return a.with_(items=tuple(x if x is y else self.merge(c, x, y) for x, y in zip(la, lb)))
            if k == "list" and not any(q.get("opaque") or q.get("prefix") for q in (a, b)):
                return a.with_(items=self.join_items(c, la, lb))
            if len(la) > len(lb) and all(x is y or x == y for x, y in zip(la, lb)):
                return a.with_(items=lb + tuple(CondItem(c, x) for x in la[len(lb):]))
            if len(lb) > len(la) and all(x is y or x == y for x, y in zip(la, lb)):
                return a.with_(items=la + tuple(CondItem(tm.notv(c), x) for x in lb[len(la):]))
            return a.with_(items=(), opaque="joined lists of different lengths")
        if k == "arr":
            d = dict(a.d)
            d["elem"] = tm.ite(c, a["elem"], b["elem"])
            if a["len"] is not b["len"] and a["len"] != b["len"]:
                la, lb = tm.lift(a["len"]), tm.lift(b["len"])
                d["len"] = tm.ite(c, la, lb)
            d["mask"] = a.get("mask") if a.get("mask") is b.get("mask") else None
            p = P("arr")
            p.d = d
            return p
        if k == "nd":
            x, y = a["val"], b["val"]
            if x.shape == y.shape:
                return a.with_(val=nd_map2(lambda p, q: tm.ite(c, p, q), x, y))
            return a.with_(val=_np.array(self.top("joined arrays of different shapes"), dtype=object))
        return a

    def join_items(self, c, la, lb):
        """Sequences of items present under guards, joined position by position."""
        out = []
        for k in range(max(len(la), len(lb))):
            def at(l):
                if k >= len(l):
                    return tm.FALSE, ABSENT
                x, p = l[k], tm.TRUE
                while isinstance(x, CondItem):
                    p, x = tm.andv(p, x.c), x.v
                return p, x
            (pa, x), (pb, y) = at(la), at(lb)
            p = tm.ite(c, pa, pb)
            v = y if x is ABSENT else (x if y is ABSENT or x is y else self.merge(c, x, y))
            out.append(v if p is tm.TRUE else CondItem(p, v))
        return tuple(out)

    def merge(self, c, x, y):
        """The value that is x where c holds, else y."""
        if x is y:
            return x
        if x is ABSENT or y is ABSENT:
            return Gate(c, x, y)
        if isinstance(x, (T, int, float)) and isinstance(y, (T, int, float)):
            if type(x) is type(y) and not isinstance(x, T) and x == y:
                return x
            tx, ty = tm.lift(x), tm.lift(y)
            return tm.ite(c, tx, ty)
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self.merge(c, p, q) for p, q in zip(x, y))
        if type(x) is type(y) and isinstance(x, (str, Ref, Ext, bytes)) and x == y:
            return x
        if isinstance(x, Ref) and isinstance(y, Ref) and x.kind == y.kind and x.kind in ("arr", "nd"):
            px, py = self.state.heap.get(x.oid), self.state.heap.get(y.oid)
            # two freshly computed arrays: join their contents
            if px is not None and py is not None and not px.get("named") and not py.get("named"):
                if x.kind == "nd" and px["val"].shape == py["val"].shape:
                    return self.alloc("nd", val=nd_map2(lambda p, q: tm.ite(c, p, q), px["val"], py["val"]))
        if isinstance(x, Bound) and isinstance(y, Bound) and x.func is y.func and x.self_ == y.self_:
            return x
        return Gate(c, x, y)

    def gate_cases(self, v):
        """[(condition, value)] of a gated value"""
        if isinstance(v, Gate):
            out = []
            for k, w in self.gate_cases(v.a):
                out.append((tm.andv(v.c, k), w))
            for k, w in self.gate_cases(v.b):
                out.append((tm.andv(tm.notv(v.c), k), w))
            return [(k, w) for k, w in out if k is not tm.FALSE]
        return [(tm.TRUE, v)]

    # -- truth ---------------------------------------------------------------------------
    def truth(self, v, node=None):
        """Truth of a value as a boolean term."""
        if v is None:
            return tm.FALSE
        if isinstance(v, bool):
            return tm.TRUE if v else tm.FALSE
        if isinstance(v, T):
            return tm.truthy(v)
        if isinstance(v, (int, float, str, tuple, bytes)):
            return tm.TRUE if v else tm.FALSE
        if isinstance(v, Gate):
            return tm.ite(v.c, self.truth(v.a, node), self.truth(v.b, node))
        if isinstance(v, Ref):
            p = self.payload(v)
            if v.kind in ("list", "dict", "set"):
                if p.get("opaque"):
                    return self.fresh("truth", True)
                if isinstance(p["items"], tuple) and p["items"] and all(type(x) is CondItem for x in p["items"]):
                    return tm.orv(*[x.c for x in p["items"]])
                return tm.TRUE if len(p["items"]) else tm.FALSE
            if v.kind == "arr":
                self.event("array-truth", node, arr=v)
                return tm.truthy(p["elem"])
            if v.kind == "nd":
                val = self.np.val_of(self, v)
                if val.size == 1:
                    return tm.truthy(val.reshape(-1)[0])
                self.event("array-truth", node, arr=v)
                return tm.truthy(val.reshape(-1)[0]) if val.size else tm.FALSE
            if v.kind == "obj":
                for m in ("__bool__", "__len__"):
                    f = self.lookup_class(p["cls"], m)
                    if f is not ABSENT:
                        return self.truth(self.call_value(Bound(f, v), [], {}, node), node)
            return tm.TRUE
        if isinstance(v, Str):
            return self.fresh("strtruth", True)
        return tm.TRUE

    # -- attribute access ------------------------------------------------------------------
    def lookup_class(self, cls, name):
        if isinstance(cls, Ext):
            return ABSENT
        for c in self.mro(cls):
            if isinstance(c, Cls):
                v = self.state.heap[c.oid]["vars"].get(name, ABSENT)
                if v is not ABSENT:
                    return v
        return ABSENT

    def mro(self, cls):
        if not isinstance(cls, Cls):
            return [cls]
        seqs = [self.mro(b) for b in cls.bases] + [list(cls.bases)]
        out = [cls]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                h = s[0]
                if not any(h in q[1:] for q in seqs):
                    break
            else:
                return out
            out.append(h)
            for s in seqs:
                if s[0] is h or s[0] == h:
                    s.pop(0)

    def caught(self, *names):
        """The first of these exception classes that a surrounding try statement names."""
        for n in names:
            for hs in self.handlers:
                for h in hs:
                    ts = [] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    if any(ast.unparse(t).split(".")[-1] == n for t in ts):
                        return n
        return None

    def raise_(self, exc, msg, node):
        raise RaiseSignal(exc, msg, node, self.where(node))

    def getattr(self, v, name, node):
        if isinstance(v, Gate):
            return self.branch(v.c, lambda: self.getattr(v.a, name, node), lambda: self.getattr(v.b, name, node))
        if v is ABSENT:
            self.raise_("NameError", "unbound value", node)
        if isinstance(v, Mod):
            d = self.modvars(v)
            if name in d:
                return d[name]
            sub = v.name + "." + name
            if sub in self.trees and sub in self.modules:
                return self.modules[sub]
            if sub in self.trees:
                # only bound once something imported it
                imported = self.imported_anywhere(sub)
                if imported:
                    return self.module(sub)
            if name == "__dict__":
                return Ref(v.oid, "moddict")
            self.raise_("AttributeError", "module %s has no attribute %s" % (v.name, name), node)
        if isinstance(v, Ext):
            return self.np.ext_attr(self, v, name)
        if isinstance(v, Cls):
            if name == "__name__":
                return v.name
            x = self.lookup_class(v, name)
            if x is ABSENT:
                if any(isinstance(c, Ext) for c in self.mro(v)):
                    return Ext("object." + name)
                self.raise_("AttributeError", "class %s has no attribute %s" % (v.name, name), node)
            if isinstance(x, Static):
                return Bound(x.func, v) if x.kind == "class" else x.func
            return x
        if isinstance(v, SuperProxy):
            mro = self.mro(self.payload(v.self_)["cls"]) if isinstance(v.self_, Ref) else self.mro(v.self_)
            i = mro.index(v.cls) + 1 if v.cls in mro else 1
            for c in mro[i:]:
                if isinstance(c, Cls):
                    x = self.state.heap[c.oid]["vars"].get(name, ABSENT)
                    if x is not ABSENT:
                        return self.bind(x, v.self_, node)
            return Ext("object." + name)
        if isinstance(v, Ref) and v.kind == "obj":
            p = self.payload(v)
            cls = p["cls"]
            cv = self.lookup_class(cls, name)
            if isinstance(cv, Prop) and not (cv.kept and name in p["attrs"]):
                x = self.call_value(cv.fget, [v], {}, node)
                if cv.kept:
                    self.write(v, attrs={**self.payload(v)["attrs"], name: x})
                return x
            if name in p["attrs"]:
                x = p["attrs"][name]
                if isinstance(x, Gate):
                    return self.resolve_absent(x, lambda: self._cls_attr(v, p, cls, cv, name, node), node)
                return x
            return self._cls_attr(v, p, cls, cv, name, node)
        if isinstance(v, Func):
            if name in ("__name__", "__qualname__"):
                return v.qual.split(".")[-1]
            if name in ("__doc__",):
                return Str("doc")
            if (id(v.node), name) in self.func_attrs:
                return self.func_attrs[(id(v.node), name)]
            self.raise_("AttributeError", "function %s has no attribute %s" % (v.qual, name), node)
        if isinstance(v, Vectorized):
            return ExtMethod(v, name)
        return self.np.value_attr(self, v, name, node)

    def resolve_absent(self, g, otherwise, node):
        """A gated attribute some arms of which are absent."""
        if isinstance(g, Gate):
            return self.branch(g.c, lambda: self.resolve_absent(g.a, otherwise, node),
                               lambda: self.resolve_absent(g.b, otherwise, node))
        if g is ABSENT:
            return otherwise()
        return g

    def _cls_attr(self, v, p, cls, cv, name, node):
        if cv is not ABSENT:
            return self.bind(cv, v, node)
        if name == "__class__":
            return cls
        if name == "__dict__":
            return Ref(v.oid, "objdict")
        if p.get("havoc") is not None:
            # an attribute of an object with an arbitrary history
            x = tm.sym("%s.%s" % (p["havoc"], name))
            attrs = dict(self.payload(v)["attrs"])
            attrs[name] = x
            self.write(v, attrs=attrs)
            return x
        ga = self.lookup_class(cls, "__getattr__")
        if ga is not ABSENT:
            return self.call_value(Bound(ga, v), [name], {}, node)
        if isinstance(cls, Ext) or any(isinstance(c, Ext) and c.name != "builtins.object" for c in self.mro(cls)):
            return ExtMethod(v, name)
        self.raise_("AttributeError", "%s object has no attribute %s" % (getattr(cls, "name", cls), name), node)

    def bind(self, x, self_, node):
        from .classes import Method
        if isinstance(x, Method):
            return Bound(x, self_)
        if isinstance(x, (Func, Vectorized)):
            return Bound(x, self_)
        if isinstance(x, Static):
            if x.kind == "class":
                return Bound(x.func, self.payload(self_)["cls"] if isinstance(self_, Ref) else self_)
            return x.func
        if isinstance(x, Prop):
            return self.call_value(x.fget, [self_], {}, node)
        return x

    def imported_anywhere(self, sub):
        """Is the submodule imported by some module of the package (so that the
        attribute exists once that module was imported)?"""
        return sub in self.modules

    def hasattr(self, v, name, node):
        if isinstance(v, Gate):
            return tm.ite(v.c, self.hasattr(v.a, name, node), self.hasattr(v.b, name, node))
        if isinstance(v, Func) and (id(v.node), name) in self.func_attrs and name not in ("__name__", "__doc__"):
            return tm.sym("?hist:has:%s.%s#hist" % (v.name, name))
        if isinstance(v, Ref) and v.kind == "obj":
            p = self.payload(v)
            if name in p["attrs"]:
                return self.present(p["attrs"][name])
            if self.lookup_class(p["cls"], name) is not ABSENT:
                return tm.TRUE
            if p.get("havoc") is not None:
                return tm.sym("?has:%s.%s" % (p["havoc"], name))
            return tm.FALSE
        try:
            self.getattr(v, name, node)
            return tm.TRUE
        except RaiseSignal:
            return tm.FALSE

    def present(self, v):
        if v is ABSENT:
            return tm.FALSE
        if isinstance(v, Gate):
            return tm.ite(v.c, self.present(v.a), self.present(v.b))
        return tm.TRUE

    def setattr(self, v, name, val, node):
        if isinstance(v, Gate):
            def put(t):
                def go():
                    self.setattr(t, name, val, node)
                return go
            self.branch(v.c, put(v.a), put(v.b))
            return
        if isinstance(v, Ref) and v.kind == "obj":
            p = self.payload(v)
            cv = self.lookup_class(p["cls"], name)
            if getattr(p["cls"], "frozen", False) or getattr(p["cls"], "tuple", False):
                self.raise_("AttributeError", "can't set attribute %s" % name, node)
            if isinstance(cv, Prop) and not cv.kept:
                if cv.fset is None:
                    self.raise_("AttributeError", "can't set property %s" % name, node)
                self.call_value(cv.fset, [v, val], {}, node)
                return
            attrs = dict(p["attrs"])
            attrs[name] = val
            self.write(v, attrs=attrs)
            return
        if isinstance(v, Mod):
            p = self.state.heap[v.oid]
            d = dict(p["vars"])
            d[name] = val
            self.state.heap[v.oid] = p.with_(vars=d)
            self.event("module-store", node, module=v.name, name=name, value=val)
            return
        if isinstance(v, Cls):
            p = self.state.heap[v.oid]
            d = dict(p["vars"])
            d[name] = val
            self.state.heap[v.oid] = p.with_(vars=d)
            self.event("class-store", node, cls=v.name, name=name)
            return
        if isinstance(v, Func):
            self.func_attrs.setdefault((id(v.node), name), val)
            self.event("global-store", node, module=v.module, name=v.qual + "." + name, value=val)
            return
        if isinstance(v, Ext):
            self.event("ext-store", node, target=v.name, name=name)
            return
        if isinstance(v, Ref) and v.kind in ("arr", "nd"):
            self.event("array-attr-store", node, name=name)
            return
        self.event("unknown-store", node, name=name)

    # -- instances -----------------------------------------------------------------------------
    def new(self, cls, args, kwargs, node=None):
        if cls.members is not None:
            from . import classes
            return classes.member(self, cls, args[0] if args else kwargs.get("value"), node)
        o = self.alloc("obj", cls=cls, attrs={})
        init = self.lookup_class(cls, "__init__")
        if init is not ABSENT:
            self.call_value(Bound(init, o), args, kwargs, node)
        elif cls.fields is not None:
            from .classes import Field
            vals = list(args)
            kwargs = dict(kwargs)
            attrs = {}
            for (n, d) in cls.fields:
                f = d if isinstance(d, Field) else None
                if f is not None and not f.init:
                    if f.factory is not None:
                        attrs[n] = self.call_value(f.factory, [], {}, node)
                    elif f.default is not ABSENT:
                        attrs[n] = f.default
                elif vals:
                    if n in kwargs:
                        self.raise_("TypeError", "%s() got multiple values for argument %s" % (cls.name, n), node)
                    attrs[n] = vals.pop(0)
                elif n in kwargs:
                    attrs[n] = kwargs.pop(n)
                elif f is not None and f.factory is not None:
                    attrs[n] = self.call_value(f.factory, [], {}, node)
                elif f is not None and f.default is not ABSENT:
                    attrs[n] = f.default
                elif f is None and d is not ABSENT:
                    attrs[n] = d
                else:
                    self.raise_("TypeError", "missing argument %s" % n, node)
            if vals or kwargs:
                self.raise_("TypeError", "%s() got unexpected arguments" % cls.name, node)
            self.write(o, attrs=attrs)
            post = self.lookup_class(cls, "__post_init__")
            if post is not ABSENT:
                self.call_value(Bound(post, o), [], {}, node)
        elif (args or kwargs) and not any(isinstance(c, Ext) for c in self.mro(cls)):
            self.raise_("TypeError", "%s() takes no arguments" % cls.name, node)
        elif any(isinstance(c, Ext) for c in self.mro(cls)):
            self.write(o, attrs={"args": tuple(args)})
        return o

    # -- calls -------------------------------------------------------------------------------------
    def call_value(self, f, args, kwargs, node=None):
        if isinstance(f, Gate):
            return self.branch(f.c, lambda: self.call_value(f.a, list(args), dict(kwargs), node),
                               lambda: self.call_value(f.b, list(args), dict(kwargs), node))
        if isinstance(f, Bound):
            return self.call_value(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, Partial):
            kw = dict(f.kw)
            kw.update(kwargs)
            return self.call_value(f.func, list(f.args) + list(args), kw, node)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, Cls):
            return self.new(f, args, kwargs, node)
        if isinstance(f, Vectorized):
            return self.np.call_vectorized(self, f, args, kwargs, node)
        if isinstance(f, Static):
            return self.call_value(f.func, args, kwargs, node)
        if isinstance(f, Ext):
            return self.np.call_ext(self, f.name, args, kwargs, node)
        if isinstance(f, ExtMethod):
            return self.np.call_method(self, f.recv, f.name, args, kwargs, node)
        if isinstance(f, Ref) and f.kind == "obj":
            c = self.lookup_class(self.payload(f)["cls"], "__call__")
            if c is not ABSENT:
                return self.call_value(Bound(c, f), args, kwargs, node)
        if isinstance(f, T):
            return self.np.call_opaque(self, f, args, kwargs, node)
        if callable(f) and not isinstance(f, (Str,)):
            return f(self, args, kwargs, node)
        self.raise_("TypeError", "%r is not callable" % (f,), node)

    def call_func(self, f, args, kwargs, node=None):
        h = self.opaque.get(f.name)
        if h is not None:
            return h(self, f, args, kwargs, node)
        if self.too_deep(f):
            return self.top("recursion in " + f.name)
        if _is_generator(f.node) and not isinstance(f.node, ast.Lambda):
            return self.run_generator(f, args, kwargs, node)
        fr = self.enter(f, args, kwargs, node)
        self.callstack.append(f)
        depth = len(self.pc)
        try:
            if isinstance(f.node, ast.Lambda):
                ctx = Ctx(self, fr, f.module, f.qual, f)
                return ctx.expr(f.node.body)
            ctx = Ctx(self, fr, f.module, f.qual, f)
            exits = ctx.block(f.node.body)
            return self.finish(exits, f, node)
        finally:
            self.callstack.pop()
            del self.pc[depth:]

    def too_deep(self, f):
        return len(self.callstack) > 60 or sum(1 for g in self.callstack if g.node is f.node) > 8

    def enter(self, f, args, kwargs, node):
        """the frame of a call"""
        self.functions_seen.add(f.name)
        self.call_sites += 1
        vars_ = self.bind_args(f, args, kwargs, node)
        return self.alloc("frame", vars=vars_, parent=f.frame, module=f.module, func=f.name)

    def generator(self, f, args, kwargs):
        """(function, arguments, keywords) when the call would run a generator function"""
        args = list(args)
        kwargs = dict(kwargs)
        while True:
            if isinstance(f, Bound):
                f, args = f.func, [f.self_] + args
            elif isinstance(f, Static):
                f = f.func
            elif isinstance(f, Partial):
                f, args, kwargs = f.func, list(f.args) + args, {**f.kw, **kwargs}
            else:
                break
        if isinstance(f, Func) and not isinstance(f.node, ast.Lambda) and f.name not in self.opaque \
                and "lru_cache" not in f.decos and _is_generator(f.node) and not self.too_deep(f):
            return f, args, kwargs
        return None

    def run_generator(self, f, args, kwargs, node):
        """all values of a generator at once"""
        if "contextmanager" in f.decos:
            raise Unsupported("a context manager entered by hand")
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                # its values may depend on when they are asked for
                self.gaps.append("%s: generator run ahead of its consumer" % self.where(n))
                break
        out = self.alloc("list", items=(), iterator=True)
        ctx = Ctx(self, None, f.module, f.qual, f)

        def put(v):
            self.np.call_method(self, out, "append", [v], {}, node)
        depth = len(self.pc)
        exits = ctx.in_step(f, args, kwargs, node, put, False)
        del self.pc[depth:]
        self.finish(exits, f, f.node)
        return out

    def finish(self, exits, f, node):
        """Fold the exits of a body into one value and one state."""
        live = self.state.live
        items = [e for e in exits if e.guard is not tm.FALSE]
        rets = [e for e in items if e.kind == "return"]
        raises, left = [], []
        for e in items:
            if e.kind == "raise":
                if left:
                    e.guard = tm.andv(tm.notv(tm.orv(*left)), e.guard)
                if e.guard is not tm.FALSE:
                    raises.append(e)
            else:
                left.append(e.guard)
        if live is not tm.FALSE:
            end = (tm.TRUE, None, self.state.heap)
        else:
            end = None
        val = heap = None
        have = False
        if end is not None:
            val, heap, have = None, end[2], True
        for e in reversed(rets):
            if not have:
                val, heap, have = e.value, e.heap, True
            else:
                st = self.join(e.guard, State(e.heap), State(heap))
                self.state = st
                val = self.merge(e.guard, e.value, val)
                heap = st.heap
        if not have:
            if raises:
                sig = raises[0].value
                self.state = State(raises[0].heap)
                if len(raises) > 1:
                    self.state = State(raises[0].heap)
                raise sig
            return None
        self.state = State(heap)
        for e in raises:
            self.pending_raise(e.guard, e.value, e.heap)
        return val

    def bind_args(self, f, args, kwargs, node):
        a = f.node.args
        vars_ = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        for i, n in enumerate(names):
            if i < len(args):
                if n in kwargs:
                    self.raise_("TypeError", "%s() got multiple values for argument %s" % (f.qual, n), node)
                vars_[n] = args[i]
            elif n in kwargs:
                vars_[n] = kwargs.pop(n)
            else:
                k = i - (len(names) - len(f.defaults))
                if k < 0:
                    self.raise_("TypeError", "%s() missing required argument %s" % (f.qual, n), node)
                vars_[n] = self.default(f, n, f.defaults[k])
        extra = args[len(names):]
        if a.vararg:
            vars_[a.vararg.arg] = tuple(extra)
        elif extra:
            self.raise_("TypeError", "%s() takes %d positional arguments but %d were given"
                        % (f.qual, len(names), len(args)), node)
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                vars_[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                vars_[x.arg] = self.default(f, x.arg, f.kwdefaults[x.arg])
            else:
                self.raise_("TypeError", "%s() missing keyword argument %s" % (f.qual, x.arg), node)
        if a.kwarg:
            vars_[a.kwarg.arg] = self.alloc("dict", items=kwargs)
        elif kwargs:
            self.raise_("TypeError", "%s() got an unexpected keyword argument %s" % (f.qual, sorted(kwargs)[0]), node)
        return vars_

    def default(self, f, name, value):
        if self.taint_defaults and name in self.taint_names and (value is not None):
            self.event("default-gas", f.node, func=f.name, param=name)
            return tm.sym("dflt:%s:%s" % (f.name, name))
        return value

    # -- snapshots for the effect rules ----------------------------------------------------------------
    def reachable(self, *vals):
        seen = {}
        todo = list(vals)
        while todo:
            v = todo.pop()
            if isinstance(v, Gate):
                todo += [v.a, v.b]
            elif isinstance(v, (tuple, list)):
                todo += list(v)
            elif isinstance(v, CondItem):
                todo.append(v.v)
            elif isinstance(v, Ref):
                if v.oid in seen:
                    continue
                p = self.state.heap.get(v.oid)
                if p is None:
                    continue
                seen[v.oid] = p
                if p.kind == "obj":
                    todo += list(p["attrs"].values())
                elif p.kind == "dict":
                    todo += list(p["items"].values())
                elif p.kind in ("list", "set"):
                    todo += list(p["items"])
                elif p.kind == "arr" and p.get("base") is not None:
                    todo.append(p["base"])
        return seen

    def changed(self, snap):
        """oids whose contents changed since the snapshot"""
        out = []
        for oid, p in snap.items():
            q = self.state.heap.get(oid)
            if q is p or q is None:
                continue
            if not same_payload(p, q):
                out.append(oid)
        return out


def same_payload(p, q):
    if p.kind != q.kind:
        return False
    if p.kind == "nd":
        return p["val"].shape == q["val"].shape and all(
            x is y for x, y in zip(p["val"].reshape(-1), q["val"].reshape(-1)))
    if p.kind == "arr":
        return p["elem"] is q["elem"] and p["len"] == q["len"]
    key = {"obj": "attrs", "dict": "items", "list": "items", "set": "items", "frame": "vars", "class": "vars"}.get(p.kind)
    if key is None:
        return False
    a, b = p[key], q[key]
    if len(a) != len(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_value(a[k], b[k]) for k in a)
    return all(same_value(x, y) for x, y in zip(a, b))


def same_value(x, y):
    if x is y:
        return True
    if isinstance(x, T) or isinstance(y, T):
        return False
    if isinstance(x, Ref) and isinstance(y, Ref):
        return x == y
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same_value(a, b) for a, b in zip(x, y))
    if type(x) is type(y) and isinstance(x, (int, str, float, bool)):
        return x == y
    return False


def nd_map(f, a):
    out = _np.empty(a.shape, dtype=object)
    fo, fa = out.reshape(-1), a.reshape(-1)
    for i in range(fa.size):
        fo[i] = f(fa[i])
    return fo.reshape(a.shape)


def nd_map2(f, a, b):
    a, b = _np.broadcast_arrays(a, b)
    out = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(*a.shape):
        out[i] = f(a[i], b[i])
    return out


class RaiseSignal(Exception):
    """An exception of the analysed program that is certain on the current path."""

    def __init__(self, exc, msg, node, where, value=None):
        Exception.__init__(self, "%s: %s (%s)" % (exc, msg, where))
        self.exc, self.msg, self.node, self.where, self.value = exc, msg, node, where, value
        self.heap = None          # the state it leaves, when it happens under a condition


def _is_generator(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) and _owns(fn, n) for n in ast.walk(fn))


def _owns(fn, target):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if n is target:
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


from .context import Ctx  # noqa: E402
