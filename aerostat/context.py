"""Statements and expressions of one frame."""
import ast
from fractions import Fraction

import numpy as _np

from . import terms as tm
from .terms import T
from . import interp as ip
from .interp import (Ref, Gate, ABSENT, Func, Bound, Vectorized, Partial, Cls, Prop, Static, Mod, Ext,
                     ExtMethod, Str, Slice, Range, SuperProxy, CondItem, P, State, Exit, LoopInfo,
                     RaiseSignal, Unsupported, Endless, ELLIPSIS)

_CMP = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne"}
_BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//",
        ast.Mod: "%", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
        ast.LShift: "<<", ast.RShift: ">>"}


def num_turns(items):
    if items[0] == "items":
        return len(items[1])
    n = (tm.lift(items[1].hi) - tm.lift(items[1].lo)) / tm.lift(items[1].step)
    return int(n.args[0]) if n.op == "num" else None


class Ctx:
    def __init__(self, interp, frame, module, qual, func):
        self.i = interp
        self.frame = frame
        self.module = module
        self.qual = qual
        self.func = func
        self.globals_ = set()
        self.nonlocals = set()
        self.on_yield = None       # what a yield hands its value to
        self.leaves = False        # the consumer of the yields may leave early
        self.trying = 0            # try bodies around the current statement
        self.inner = None          # the context a comprehension is written in
        self.local_names = _locals(func.node) if func is not None and not isinstance(func.node, ast.Lambda) else None

    # ------------------------------------------------------------------ names
    def vars(self):
        return self.i.state.heap[self.frame.oid]["vars"]

    def store(self, name, v):
        i = self.i
        fr = self.frame
        if name in self.globals_:
            m = i.modules[self.module]
            p = i.state.heap[m.oid]
            d = dict(p["vars"])
            d[name] = v
            i.state.heap[m.oid] = p.with_(vars=d)
            i.event("global-store", None, module=self.module, name=name, value=v)
            return
        if name in self.nonlocals:
            fr = i.state.heap[fr.oid]["parent"]
            while fr is not None and name not in i.state.heap[fr.oid]["vars"]:
                fr = i.state.heap[fr.oid]["parent"]
        p = i.state.heap[fr.oid]
        d = dict(p["vars"])
        d[name] = v
        i.state.heap[fr.oid] = p.with_(vars=d)

    def load(self, name, node):
        i = self.i
        fr = self.frame
        if name in self.globals_:
            fr = None
        first = True
        while fr is not None:
            p = i.state.heap[fr.oid]
            if name in p["vars"]:
                return self.checked(p["vars"][name], name, node)
            if first and self.local_names and name in self.local_names:
                i.raise_("UnboundLocalError", "local variable %s is read before assignment" % name, node)
            first = False
            fr = p["parent"]
        m = i.modules.get(self.module)
        if m is not None:
            d = i.state.heap[m.oid]["vars"]
            if name in d:
                return self.checked(d[name], name, node)
        b = i.np.builtin(name)
        if b is not None:
            return b
        i.raise_("NameError", "name %s is not defined" % name, node)

    def checked(self, v, name, node):
        if v is ABSENT:
            self.i.raise_("UnboundLocalError", "variable %s is not bound" % name, node)
        if isinstance(v, Gate):
            cases = self.i.gate_cases(v)
            if any(x is ABSENT for _, x in cases):
                live = [(c, x) for c, x in cases if x is not ABSENT]
                dead = tm.orv(*[c for c, x in cases if x is ABSENT])
                dead = self.i.assume_simplify(dead)
                if not live:
                    self.i.raise_("UnboundLocalError", "variable %s is not bound" % name, node)
                if dead is not tm.FALSE:
                    self.i.event("maybe-unbound", node, name=name, cond=dead)
                out = live[-1][1]
                for c, x in reversed(live[:-1]):
                    out = self.i.merge(c, out if False else x, out)
                return out
        return v

    # ------------------------------------------------------------- statements
    def block(self, stmts):
        """Interpret statements from the current state; returns exits. The state is
        dead (live FALSE) when no path falls through."""
        exits = []
        skipped, known = [], 0
        i = self.i
        depth = len(i.pc)
        for s in stmts:
            if i.state.live is tm.FALSE:
                break
            pcd = len(i.pc)
            nr = len(i.cond_raises)
            try:
                r = self.stmt(s)
                if self.trying and len(i.cond_raises) > nr:
                    exits.extend(Exit(g, "raise", sig, sig.heap, s) for g, sig in i.cond_raises[nr:])
                    del i.cond_raises[nr:]
                if r:
                    exits.extend(r)
            except RaiseSignal as e:
                del i.pc[pcd:]
                if self.trying and len(i.cond_raises) > nr:
                    exits.extend(Exit(g, "raise", sig, sig.heap, s) for g, sig in i.cond_raises[nr:])
                    del i.cond_raises[nr:]
                heap = dict(i.state.heap)
                i.state = State(i.state.heap, tm.FALSE)
                exits.append(Exit(tm.TRUE, "raise", e, heap, s))
            except Unsupported as e:
                i.event("unsupported", s, why=str(e))
                i.gaps.append("%s: %s" % (i.where(s), e))
                self.havoc_stmt(s, str(e))
            if skipped:
                g = tm.notv(tm.orv(*skipped))
                for e in exits[known:]:
                    e.guard = tm.andv(g, e.guard)
            # what leaves the turn of a loop early takes no later exit of the turn
            skipped.extend(e.guard for e in exits[known:] if e.kind == "continue")
            known = len(exits)
        del i.pc[depth:]
        return exits

    def havoc_stmt(self, s, why):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.store(n.id, self.i.top(why))
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            self.store(s.name, self.i.top(why))
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                if a.name != "*":
                    self.store((a.asname or a.name).split(".")[0], self.i.top(why))
        if isinstance(s, ast.Return):
            raise Unsupported(why)

    def dead(self, kind, value, node):
        i = self.i
        e = Exit(tm.TRUE, kind, value, i.state.heap, node)
        i.state = State(dict(i.state.heap), tm.FALSE)
        return [e]

    def stmt(self, s):
        i = self.i
        k = type(s)
        if k is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return None
            if isinstance(s.value, ast.Yield):
                return self.give(s.value)
            self.expr(s.value)
            return None
        if k is ast.Assign and isinstance(s.value, ast.Yield):
            r = self.give(s.value)
            if i.state.live is not tm.FALSE:
                for t in s.targets:
                    self.assign(t, None)
            return r
        if k is ast.Assign:
            v = self.expr(s.value)
            for t in s.targets:
                self.assign(t, v)
            return None
        if k is ast.AugAssign:
            self.augassign(s)
            return None
        if k is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.expr(s.value))
            if isinstance(s.target, ast.Name):
                p = i.state.heap[self.frame.oid]
                ann = dict(p.get("ann") or {})
                ann[s.target.id] = s.value is not None
                i.state.heap[self.frame.oid] = p.with_(ann=ann)
            return None
        if k is ast.Return:
            v = self.expr(s.value) if s.value is not None else None
            return self.dead("return", v, s)
        if k is ast.If:
            return self.if_(s)
        if k is ast.For:
            return self.for_(s)
        if k is ast.While:
            return self.while_(s)
        if k is ast.FunctionDef:
            self.store(s.name, self.function(s))
            return None
        if k is ast.ClassDef:
            self.store(s.name, self.class_(s))
            return None
        if k is ast.Import:
            for a in s.names:
                self.import_(a, s)
            return None
        if k is ast.ImportFrom:
            self.import_from(s)
            return None
        if k is ast.Pass:
            return None
        if k is ast.Break:
            return self.dead("break", None, s)
        if k is ast.Continue:
            return self.dead("continue", None, s)
        if k is ast.Global:
            self.globals_.update(s.names)
            if self.local_names:
                self.local_names = self.local_names - set(s.names)
            return None
        if k is ast.Nonlocal:
            self.nonlocals.update(s.names)
            if self.local_names:
                self.local_names = self.local_names - set(s.names)
            return None
        if k is ast.Assert:
            c = i.assume_simplify(i.truth(self.expr(s.test), s))
            if c is tm.FALSE:
                i.raise_("AssertionError", ast.unparse(s.test)[:80], s)
            if c is not tm.TRUE:
                i.event("assert", s, cond=c)
                i.pc.append(c)
            return None
        if k is ast.Raise:
            self.raise_stmt(s)
            return None
        if k is ast.Try:
            return self.try_(s)
        if k is ast.With:
            return self.with_(s.items, s.body, s)
        if k is ast.Delete:
            for t in s.targets:
                self.delete(t)
            return None
        if k is ast.Match:
            raise Unsupported("match statement")
        raise Unsupported("statement %s" % k.__name__)

    # -- generators and context managers ------------------------------------------
    def give(self, e):
        if self.on_yield is None:
            raise Unsupported("yield")
        return self.on_yield(self.expr(e.value) if e.value is not None else None)

    def in_step(self, f, args, kw, node, on_yield, leaves):
        """run the body of a generator function, handing every value to on_yield; its exits"""
        i = self.i
        fr = i.enter(f, args, kw, node)
        i.callstack.append(f)
        depth = len(i.pc)
        try:
            ctx = Ctx(i, fr, f.module, f.qual, f)
            ctx.on_yield, ctx.leaves = on_yield, leaves
            return ctx.block(f.node.body)
        finally:
            i.callstack.pop()
            del i.pc[depth:]

    def outside(self, run):
        """run the consumer of a yield as its own function does"""
        i = self.i
        stack, handlers = i.callstack, i.handlers
        i.callstack, i.handlers = self.stack_here, self.handlers_here
        try:
            return run()
        finally:
            i.callstack, i.handlers = stack, handlers

    def gen_loop(self, s, f, args, kw):
        """for-loop over a generator: the body runs at every yield"""
        i = self.i
        saved = getattr(self, "stack_here", None), getattr(self, "handlers_here", None)
        here = list(i.callstack), list(i.handlers)
        hidden = []

        def on_yield(v):
            n = len(i.cond_raises)
            self.stack_here, self.handlers_here = here
            out = []

            def run():
                try:
                    self.assign(s.target, v)
                except RaiseSignal as e:
                    heap = i.state.heap
                    i.state = State(dict(heap), tm.FALSE)
                    return [Exit(tm.TRUE, "raise", e, heap, s)]
                return self.block(s.body)
            ex = self.outside(run)
            hidden.extend(i.cond_raises[n:])
            del i.cond_raises[n:]
            before = []
            for e in ex:
                g = e.guard
                if e.kind != "continue":
                    out.append(Exit(g, "outer", (e.kind, e.value), e.heap, e.node))
                    before.append(g)
            for e in reversed([e for e in ex if e.kind == "continue"]):
                if i.state.live is tm.FALSE:
                    i.state = State(dict(e.heap), tm.TRUE)
                else:
                    i.state = i.join(e.guard, State(e.heap), i.state)
            return out
        leaves = self.early_exit(s) or self.leaves and _yields(s)
        exits = self.in_step(f, args, kw, s, on_yield, leaves)
        self.stack_here, self.handlers_here = saved
        i.cond_raises.extend(hidden)
        out, breaks, blocked = [], [], []
        for e in exits:
            g = e.guard
            if blocked:
                g = tm.andv(tm.notv(tm.orv(*blocked)), g)
            if e.kind == "outer":
                kind, val = e.value
                if kind == "break":
                    breaks.append(Exit(g, kind, val, e.heap, e.node))
                    blocked.append(g)
                else:
                    out.append(Exit(g, kind, val, e.heap, e.node))
            elif e.kind == "return":
                if s.orelse:
                    raise Unsupported("else of a loop over a generator that returns")
                breaks.append(Exit(g, "break", None, e.heap, e.node))
                blocked.append(g)
            else:
                out.append(Exit(g, e.kind, e.value, e.heap, e.node))
        return self.after_loop(s, out, breaks)

    def gen_with(self, f, args, kw, item, rest, body, s):
        """with-statement over a @contextmanager function: the body runs at its yield"""
        i = self.i
        saved = getattr(self, "stack_here", None), getattr(self, "handlers_here", None)
        here = list(i.callstack), list(i.handlers)
        pend, ended, times = [], [], []

        def on_yield(v):
            times.append(1)
            if len(times) > 1:
                raise Unsupported("a context manager with several yields")

            def run():
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v)
                return self.with_(rest, body, s)
            cur = i.handlers
            self.stack_here, self.handlers_here = here[0], here[1] + [h for h in cur if h not in here[1]]
            ex = self.outside(run) or []
            raises, before = [], []
            for e in ex:
                g = e.guard
                if e.kind == "raise":
                    if before:
                        e.guard = tm.andv(tm.notv(tm.orv(*before)), g)
                    raises.append(e)
                else:
                    pend.append(e)
                    before.append(g)
            ended.append(i.state.live is tm.FALSE)
            for e in reversed(pend):
                if i.state.live is tm.FALSE:
                    i.state = State(dict(e.heap), tm.TRUE)
                else:
                    i.state = i.join(e.guard, State(e.heap), i.state)
            return raises
        exits = self.in_step(f, args, kw, s, on_yield, False)
        self.stack_here, self.handlers_here = saved
        if not times:
            raise Unsupported("a context manager without a yield")
        out = []
        for e in exits:
            if e.kind == "return":
                if i.state.live is tm.FALSE:
                    i.state = State(dict(e.heap), tm.TRUE)
                else:
                    i.state = i.join(e.guard, State(e.heap), i.state)
            else:
                out.append(e)
        if pend and i.state.live is not tm.FALSE:
            for e in pend:
                out.append(Exit(e.guard, e.kind, e.value, dict(i.state.heap), e.node))
            if ended[0]:
                i.state = State(dict(i.state.heap), tm.FALSE)
        return out

    def with_(self, items, body, s):
        i = self.i
        if not items:
            return self.block(body)
        item, rest = items[0], items[1:]
        e = item.context_expr
        if isinstance(e, ast.Call):
            c = self.callee(e)
            if c[0] == "call":
                f, args, kw = c[1:]
                if isinstance(f, Ext) and f.name == "contextlib.suppress":
                    t = ast.Try(body=[ast.With(items=rest, body=body)] if rest else body,
                                handlers=[ast.ExceptHandler(type=ast.Tuple(elts=e.args, ctx=ast.Load()), name=None,
                                                            body=[ast.Pass()])], orelse=[], finalbody=[])
                    ast.copy_location(t, s)
                    ast.fix_missing_locations(t)
                    return self.try_(t)
                if isinstance(f, Ext) and f.name in ("contextlib.nullcontext", "contextlib.closing"):
                    if item.optional_vars is not None:
                        self.assign(item.optional_vars, args[0] if args else None)
                    return self.with_(rest, body, s)
                if isinstance(f, Ext) and f.name in ("contextlib.ExitStack", "contextlib.redirect_stdout"):
                    i.gaps.append("%s: %s" % (i.where(s), f.name))
                g = i.generator(f, args, kw)
                if g is not None:
                    if "contextmanager" not in g[0].decos:
                        i.raise_("TypeError", "a generator is not a context manager", s)
                    return self.gen_with(g[0], g[1], g[2], item, rest, body, s)
                v = i.call_value(f, args, kw, e)
            else:
                v = c[1]
        else:
            v = self.expr(e)
        if isinstance(v, Gate):
            raise Unsupported("one of several context managers")
        cls = i.payload(v)["cls"] if isinstance(v, Ref) and v.kind == "obj" else None
        enter = i.lookup_class(cls, "__enter__") if cls is not None else ABSENT
        val = v
        if enter is not ABSENT:
            val = i.call_value(Bound(enter, v), [], {}, s)
        elif isinstance(cls, Cls) and not any(isinstance(c, Ext) for c in i.mro(cls)):
            i.raise_("TypeError", "%s is not a context manager" % cls.name, s)
        if item.optional_vars is not None:
            self.assign(item.optional_vars, val)
        nr = len(i.cond_raises)
        ex = self.with_(rest, body, s) or []
        leave = i.lookup_class(cls, "__exit__") if cls is not None else ABSENT
        if leave is ABSENT:
            return ex
        if len(i.cond_raises) > nr:
            i.gaps.append("%s: exit of a context manager on an exception of a callee" % i.where(s))
        if i.state.live is not tm.FALSE:
            i.call_value(Bound(leave, v), [None, None, None], {}, s)
        out = []
        for x in ex:
            keep = i.state
            i.state = State(dict(x.heap), tm.TRUE)
            if x.kind != "raise":
                i.call_value(Bound(leave, v), [None, None, None], {}, s)
                x.heap = i.state.heap
                out.append(x)
                i.state = keep
                continue
            sig = x.value
            exc = sig.value if sig.value is not None else Str("exception")
            typ = i.payload(exc)["cls"] if isinstance(exc, Ref) and exc.kind == "obj" else Ext("builtins." + sig.exc)
            r = i.assume_simplify(i.truth(i.call_value(Bound(leave, v), [typ, exc, None], {}, s), s))
            if r is tm.FALSE:
                x.heap = i.state.heap
                out.append(x)
                i.state = keep
            elif r is tm.TRUE:
                after = i.state
                i.state = after if keep.live is tm.FALSE else i.join(x.guard, after, keep)
            else:
                raise Unsupported("a context manager that may swallow exceptions")
        return out

    def raise_stmt(self, s):
        i = self.i
        if s.exc is None:
            cur = getattr(self, "handling", None)
            if cur is not None:
                raise cur
            i.raise_("Exception", "re-raise", s)
        v = self.expr(s.exc)
        name = "Exception"
        if isinstance(v, Ext):
            name = v.name.split(".")[-1]
        elif isinstance(v, Cls):
            name = v.name
        elif isinstance(v, Ref) and v.kind == "obj":
            c = i.payload(v)["cls"]
            name = c.name.split(".")[-1]
        raise RaiseSignal(name, ast.unparse(s.exc)[:100], s, i.where(s), value=v)

    def delete(self, t):
        i = self.i
        if isinstance(t, ast.Name):
            self.store(t.id, ABSENT)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            if isinstance(o, Ref) and o.kind == "obj":
                at = dict(i.payload(o)["attrs"])
                if t.attr not in at:
                    i.raise_("AttributeError", t.attr, t)
                del at[t.attr]
                i.write(o, attrs=at)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            k = self.index(t.slice)
            if isinstance(o, Ref) and o.kind == "dict":
                i.np.dict_pop(i, o, k, None, False, t)
            elif isinstance(o, Ref) and o.kind == "list":
                p = i.payload(o)
                cut, ok = i.np.concrete_index(i, k)
                if not ok or p.get("opaque") or any(isinstance(x, CondItem) for x in p["items"]):
                    i.write(o, opaque="deleted at an unknown place")
                    return
                items = list(p["items"])
                try:
                    del items[cut]
                except IndexError:
                    i.raise_("IndexError", "list assignment index out of range", t)
                i.write(o, items=tuple(items))
            else:
                raise Unsupported("del subscript")

    # -- assignment ----------------------------------------------------------------
    def assign(self, t, v):
        i = self.i
        if isinstance(t, ast.Name):
            self.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v)
        elif isinstance(t, ast.Attribute):
            i.setattr(self.expr(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            i.np.setitem(i, self.expr(t.value), self.index(t.slice), v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, t, v):
        i = self.i
        n = len(t.elts)
        if isinstance(v, Gate):
            cases = i.gate_cases(v)
            if all(isinstance(x, tuple) and len(x) == n for _, x in cases):
                cur = cases[-1][1]
                for c, x in reversed(cases[:-1]):
                    cur = i.merge(c, x, cur)
                v = cur
        items = i.np.items_of(i, v, t, want=n)
        if items is None:
            for k, e in enumerate(t.elts):
                self.assign(e, i.top("unpacking an unknown value"))
            return
        star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if star:
            k = star[0]
            rest = n - k - 1
            if len(items) < n - 1:
                i.raise_("ValueError", "not enough values to unpack", t)
            for e, x in zip(t.elts[:k], items[:k]):
                self.assign(e, x)
            self.assign(t.elts[k].value, i.alloc("list", items=tuple(items[k:len(items) - rest])))
            for e, x in zip(t.elts[k + 1:], items[len(items) - rest:]):
                self.assign(e, x)
            return
        if len(items) != n:
            i.raise_("ValueError", "unpack %d values into %d names" % (len(items), n), t)
        for e, x in zip(t.elts, items):
            self.assign(e, x)

    def augassign(self, s):
        i = self.i
        op = _BIN[type(s.op)]
        t = s.target
        rhs = None
        if isinstance(t, ast.Name):
            cur = self.load(t.id, s)
            rhs = self.expr(s.value)
            r = i.np.inplace(i, cur, op, rhs, s)
            self.store(t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            cur = i.getattr(o, t.attr, s)
            rhs = self.expr(s.value)
            i.setattr(o, t.attr, i.np.inplace(i, cur, op, rhs, s), s)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            k = self.index(t.slice)
            cur = i.np.getitem(i, o, k, s)
            rhs = self.expr(s.value)
            i.np.setitem(i, o, k, i.np.binop(i, cur, op, rhs, s), s)
        else:
            raise Unsupported("augmented target")

    # -- control flow -----------------------------------------------------------------
    def if_(self, s):
        i = self.i
        c = i.assume_simplify(i.truth(self.expr(s.test), s))
        if c is tm.TRUE:
            return self.block_in(s.body)
        if c is tm.FALSE:
            return self.block_in(s.orelse)
        base = i.state
        sa, sb = base.fork(), base.fork()
        i.state = sa
        i.pc.append(c)
        ea = self.block_in(s.body)
        i.pc.pop()
        sa = i.state
        i.state = sb
        nc = tm.notv(c)
        i.pc.append(nc)
        eb = self.block_in(s.orelse)
        i.pc.pop()
        sb = i.state
        for e in ea:
            e.guard = tm.andv(c, e.guard)
        for e in eb:
            e.guard = tm.andv(nc, e.guard)
        if sa.live is tm.FALSE and sb.live is tm.FALSE:
            i.state = State(sb.heap, tm.FALSE)
        elif sa.live is tm.FALSE:
            i.state = sb
            i.pc.append(nc)
        elif sb.live is tm.FALSE:
            i.state = sa
            i.pc.append(c)
        else:
            i.state = i.join(c, sa, sb)
        return ea + eb

    def block_in(self, stmts):
        return self.block(stmts)

    def try_(self, s):
        i = self.i
        start_heap = dict(i.state.heap)
        nev = len(i.events)
        i.handlers.append(s.handlers)
        self.trying += 1
        try:
            exits = self.block(s.body)
        finally:
            i.handlers.pop()
            self.trying -= 1
        # library calls in the body may raise on their own
        implicit = any(ev.kind == "may-raise" for ev in i.events[nev:])
        # what each exit leaves to those after it
        raised, out, caught = [], [], []
        for e in exits:
            h = self.match_handler(s.handlers, e.value.exc, e.value, e.heap) if e.kind == "raise" else None
            g = e.guard
            if h is not None:
                if raised or out:
                    g = tm.andv(tm.notv(tm.orv(*[x.guard for x in out] + [x[0] for x in raised])), g)
                if g is not tm.FALSE:
                    raised.append((g, h, e.heap, e.value))
                    caught.append(g)
                continue
            if caught:
                e.guard = g = tm.andv(tm.notv(tm.orv(*caught)), g)
            if g is not tm.FALSE:
                out.append(e)
        if implicit and s.handlers:
            g = i.fresh("exc:L%d" % s.lineno, True)
            if caught:
                g = tm.andv(tm.notv(tm.orv(*caught)), g)
            for e in out:
                if e.kind != "raise":
                    e.guard = tm.andv(tm.notv(g), e.guard)
            raised.append((g, s.handlers[0], start_heap, None))
            caught.append(g)
        if i.state.live is not tm.FALSE and s.orelse:
            depth = len(i.pc)
            if caught:
                i.pc.append(tm.notv(tm.orv(*caught)))
            for e in self.block(s.orelse):
                if caught:
                    e.guard = tm.andv(tm.notv(tm.orv(*caught)), e.guard)
                out.append(e)
            del i.pc[depth:]
        cur = i.state
        for g, h, heap, sig in raised:
            i.state = State(dict(heap), tm.TRUE)
            i.pc.append(g)
            old = getattr(self, "handling", None)
            self.handling = sig if sig is not None else RaiseSignal("Exception", "library error", h, i.where(h))
            if h.name:
                self.store(h.name, self.exception(sig))
            ex = self.block(h.body)
            self.handling = old
            i.pc.pop()
            for e in ex:
                e.guard = tm.andv(g, e.guard)
            hs = i.state
            out = ex + out
            if hs.live is tm.FALSE:
                continue
            cur = hs if cur.live is tm.FALSE else i.join(g, hs, cur)
        if cur.live is not tm.FALSE and any(g is tm.TRUE for g, _, _, _ in raised) and i.state.live is tm.FALSE:
            cur = State(cur.heap, tm.FALSE)
        i.state = cur
        if s.finalbody:
            last = []
            if i.state.live is not tm.FALSE:
                last = self.block(s.finalbody)
            save = i.state
            for e in out:
                # the exits leave through the final block as well
                i.state = State(dict(e.heap), tm.TRUE)
                if self.block(s.finalbody) or i.state.live is tm.FALSE:
                    i.gaps.append("%s: final block that leaves on its own" % i.where(s))
                e.heap = i.state.heap
            i.state = save
            out = out + last
        return out

    def exception(self, sig):
        """the object a handler gets"""
        i = self.i
        if sig is None:
            return Str("exception")
        v = sig.value
        if isinstance(v, Cls):
            return i.new(v, [], {}, sig.node)
        if isinstance(v, Ref):
            return v
        if sig.exc in ip.EXCEPTIONS:
            return i.alloc("obj", cls=Ext("builtins." + sig.exc), attrs={"args": (Str("message"),)})
        return Str("exception")

    def match_handler(self, handlers, exc, sig, heap):
        i = self.i
        names = {"Exception", "BaseException"} | ip.ancestors(exc)
        v = sig.value
        cls = None
        if isinstance(v, Cls):
            cls = v
        elif isinstance(v, Ref) and v.kind == "obj":
            cls = (heap if v.oid in heap else i.state.heap)[v.oid]["cls"]
        if isinstance(cls, Cls):
            for c in i.mro(cls):
                names |= ip.ancestors(c.name.split(".")[-1])

        def hit(t):
            if isinstance(t, ast.Tuple):
                return any(hit(x) for x in t.elts)
            n = ast.unparse(t).split(".")[-1]
            if n in names:
                return True
            if n in ip.EXCEPTIONS:
                return False
            try:
                w = self.expr(t)
            except RaiseSignal:
                return False
            return any(isinstance(x, (Cls, Ext)) and x.name.split(".")[-1] in names for x in (w if isinstance(w, tuple) else (w,)))
        for h in handlers:
            if h.type is None or hit(h.type):
                return h
        return None

    # -- loops ------------------------------------------------------------------------------
    def for_(self, s):
        i = self.i
        it = None
        if isinstance(s.iter, ast.Call):
            c = self.callee(s.iter)
            if c[0] == "call":
                g = i.generator(*c[1:])
                if g is not None:
                    return self.gen_loop(s, *g)
                it = i.call_value(*c[1:], s.iter)
            else:
                it = c[1]
        else:
            it = self.expr(s.iter)
        if isinstance(it, Ref) and it.kind == "obj":
            f = i.lookup_class(i.payload(it)["cls"], "__iter__")
            g = i.generator(Bound(f, it), [], {}) if f is not ABSENT else None
            if g is not None:
                return self.gen_loop(s, *g)
        if isinstance(it, Endless):
            return self.endless(s, it)
        items = i.np.iterate(i, it, s)
        if items is not None and items[0] == "map":
            r = self.map_loop(s, items[1])
            if r is not None:
                return r
            return self.havoc_loop(s, None, items)
        if i.peel is not None and items is not None and (items[0] == "range" or items[0] == "items" and self.early_exit(s)):
            return self.peeled(s, items)
        if items is not None and items[0] == "items":
            seq = items[1]
            if len(seq) <= i.max_unroll and not (len(seq) > 8 and self.early_exit(s)):
                return self.unrolled(s, seq)
            return self.havoc_loop(s, None, ("known", seq))
        return self.havoc_loop(s, None, items)

    def endless(self, s, it):
        """a for-loop over count() or repeat(): a loop with a counter"""
        if it.step is None or s.orelse:
            raise Unsupported("loop over an endless iterator")
        n = "·count%d" % s.lineno
        if self.local_names is not None:
            self.local_names.add(n)
        self.store(n, it.start)
        self.store(n + "s", it.step)
        new = [ast.Assign([s.target], ast.Name(n, ast.Load()))]
        if it.step != 0:
            new.append(ast.Assign([ast.Name(n, ast.Store())],
                                  ast.BinOp(ast.Name(n, ast.Load()), ast.Add(), ast.Name(n + "s", ast.Load()))))
        w = ast.While(ast.Constant(True), new + s.body, [])
        for x in [w, w.test] + [y for st in new for y in ast.walk(st)]:
            if not hasattr(x, "lineno"):
                ast.copy_location(x, s)
        return self.while_(w)

    def early_exit(self, s):
        if self.leaves and _yields(s):
            return True
        for n in ast.walk(s):
            if isinstance(n, (ast.Break, ast.Return)):
                return True
        return False

    def peeled(self, s, items):
        """the first turns of a loop that may leave early; histories that go on are cut off"""
        i = self.i
        out, breaks, blocked = [], [], []
        for k in range(i.peel):
            if items[0] == "items" and k >= len(items[1]):
                return self.after_loop(s, out, breaks)
            if i.state.live is tm.FALSE:
                break
            self.assign(s.target, items[1][k] if items[0] == "items" else tm.lift(items[1].lo) + tm.lift(items[1].step) * tm.num(k))
            self.turn(s.body, out, breaks, blocked)
        turns = num_turns(items)
        self.cut_off(s, blocked + [x.guard for x in out], turns)
        return self.after_loop(s, out, breaks)

    def cut_off(self, s, blocked, turns=None):
        """turns: the number of turns of the whole loop, where it is fixed"""
        i = self.i
        if i.state.live is not tm.FALSE:
            i.event("cutoff", s, cond=tm.notv(tm.orv(*blocked)) if blocked else tm.TRUE, turns=turns)
            i.state = State(i.state.heap, tm.FALSE)

    def unrolled(self, s, seq):
        i = self.i
        out = []
        breaks = []
        blocked = []
        for x in seq:
            if i.state.live is tm.FALSE:
                break
            self.assign(s.target, x)
            self.turn(s.body, out, breaks, blocked)
        return self.after_loop(s, out, breaks)

    def turn(self, body, out, breaks, blocked):
        """one turn; updates out (function exits), breaks, and the live state"""
        i = self.i
        depth = len(i.pc)
        ex = self.block(body)
        del i.pc[depth:]
        conts = []
        for e in ex:
            g = e.guard
            if blocked:
                g = tm.andv(tm.notv(tm.orv(*blocked)), g)
            if e.kind == "continue":
                conts.append(e)
            elif e.kind == "break":
                e.guard = g
                breaks.append(e)
                blocked.append(g)
            else:
                e.guard = g
                out.append(e)
        for e in reversed(conts):
            if i.state.live is tm.FALSE:
                i.state = State(dict(e.heap), tm.TRUE)
            else:
                i.state = i.join(e.guard, State(e.heap), i.state)

    def after_loop(self, s, out, breaks):
        i = self.i
        if i.state.live is not tm.FALSE and s.orelse:
            out.extend(self.block(s.orelse))
        for e in reversed(breaks):
            if i.state.live is tm.FALSE:
                i.state = State(dict(e.heap), tm.TRUE)
            else:
                i.state = i.join(e.guard, State(e.heap), i.state)
        return out

    def while_(self, s):
        i = self.i
        start = i.state.fork()
        nev, nl = len(i.events), len(i.loops)
        out, breaks, blocked = [], [], []
        for turn in range(i.max_unroll if i.peel is None else i.peel + 1):
            c = i.assume_simplify(i.truth(self.expr(s.test), s))
            if c is tm.FALSE:
                return self.after_loop(s, out, breaks)
            if i.peel is not None:
                if c is not tm.TRUE:
                    gd = tm.notv(c)
                    if blocked:
                        gd = tm.andv(tm.notv(tm.orv(*blocked)), gd)
                    breaks.append(Exit(gd, "break", None, dict(i.state.heap), s))
                    blocked.append(gd)
                if turn == i.peel:
                    self.cut_off(s, blocked + [x.guard for x in out])
                    return self.after_loop(s, out, breaks)
                self.turn(s.body, out, breaks, blocked)
                if i.state.live is tm.FALSE:
                    return self.after_loop(s, out, breaks)
                continue
            if c is not tm.TRUE:
                break
            self.turn(s.body, out, breaks, blocked)
            if i.state.live is tm.FALSE:
                return self.after_loop(s, out, breaks)
            if out or breaks:
                break
        # not a bounded loop: back to the start
        i.state = start
        del i.events[nev:]
        del i.loops[nl:]
        return self.havoc_loop(s, s.test, None)

    def map_loop(self, s, binder):
        """for-loop over the positions of an array that treats every position on its own"""
        i = self.i
        if self.early_exit(s) or s.orelse or self.on_yield is not None and _yields(s):
            return None
        base = i.state
        nev = len(i.events)
        i.state = base.fork()
        self.assign(s.target, binder)
        targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        depth = len(i.pc)
        ex = self.block(s.body)
        del i.pc[depth:]
        # loop-carried scalars make it something else
        ok = all(e.kind == "continue" for e in ex)
        if ok:
            for e in reversed(ex):
                i.state = i.join(e.guard, State(e.heap), i.state) if i.state.live is not tm.FALSE else State(dict(e.heap))
            for oid, p in base.heap.items():
                q = i.state.heap.get(oid)
                if q is p:
                    continue
                if p.kind == "arr":
                    continue
                if p.kind == "frame":
                    for n, v in q["vars"].items():
                        if n in targets:
                            continue
                        old = p["vars"].get(n, ABSENT)
                        if old is not v and old is not ABSENT and not ip.same_value(old, v):
                            if self.read_before_write(s.body, n):
                                ok = False
                elif not ip.same_payload(p, q):
                    ok = False
        if not ok:
            i.state = base
            del i.events[nev:]
            return None
        return []

    def read_before_write(self, body, name):
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and n.id == name:
                    if isinstance(n.ctx, ast.Load):
                        return True
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
                return False
        return True

    def havoc_loop(self, s, test, items):
        i = self.i
        pre = i.state.fork()
        tag = "L%d" % s.lineno
        fname = i.callstack[-1].name if i.callstack else self.module
        havoc = {}           # (oid, key) -> (sym value, init)
        nev = len(i.events)
        nloops = len(i.loops)
        nsolve = len(i.solves)

        def mu_state():
            st = pre.fork()
            i.state = st
            for (oid, key), (val, init) in havoc.items():
                self.put_loc(oid, key, val)
            return st

        item_value = self.loop_item(s, items, tag)
        for rnd in range(6):
            mu_state()
            i.fresh_n_save = i.fresh_n
            before = dict(i.state.heap)
            self.enter_turn(s, test, items, item_value)
            depth = len(i.pc)
            ex = self.block(s.body)
            del i.pc[depth:]
            finals = [i.state.heap] if i.state.live is not tm.FALSE else []
            finals += [e.heap for e in ex if e.kind == "continue"]
            new = 0
            for heap in finals:
                for oid, p in before.items():
                    q = heap.get(oid)
                    if q is p or q is None:
                        continue
                    for key, old, val in diff_payload(p, q):
                        if (oid, key) not in havoc:
                            havoc[(oid, key)] = (None, old)
                            i.state = State(dict(heap))
                            havoc[(oid, key)] = (self.mu_value(oid, key, old, val, tag, pre), old)
                            new += 1
            del i.events[nev:]
            del i.loops[nloops:]
            del i.solves[nsolve:]
            if not new:
                break
        mu_state()
        mu_heap = dict(i.state.heap)
        depth = len(i.pc)
        cond = self.enter_turn(s, test, items, item_value)
        if cond is not tm.TRUE:
            i.pc.append(cond)
        ex = self.block(s.body)
        del i.pc[depth:]
        body_live = i.state.live
        post = i.state
        conts = [e for e in ex if e.kind == "continue"]
        for e in reversed(conts):
            if post.live is tm.FALSE:
                post = State(dict(e.heap), tm.TRUE)
            else:
                post = i.join(e.guard, State(e.heap), post)
        info = LoopInfo(node=s, func=fname, where=i.where(s), cond=cond, mu=dict(havoc), pre=pre.heap,
                        mu_heap=mu_heap, post=post, exits=ex, frame=self.frame, items=items, tag=tag,
                        item_value=item_value)
        i.loops.append(info)
        # after the loop
        out = []
        after = State(dict(mu_heap), tm.TRUE)
        i.state = after
        if test is None and items is not None:
            pass
        if test is not None and cond is tm.TRUE:
            after.live = tm.FALSE          # only breaks leave it
        if after.live is not tm.FALSE and cond is not tm.TRUE and test is not None:
            i.pc.append(tm.notv(cond))
        breaks = []
        for e in ex:
            if e.kind in ("return", "raise", "outer"):
                g = tm.andv(e.guard, i.fresh("turn:" + tag, True))
                if e.kind == "raise":
                    pass
                e.guard = g
                out.append(e)
            elif e.kind == "break":
                breaks.append(e)
        if after.live is not tm.FALSE and s.orelse:
            out.extend(self.block(s.orelse))
        for e in reversed(breaks):
            if i.state.live is tm.FALSE:
                i.state = State(dict(e.heap), tm.TRUE)
            else:
                i.state = i.join(i.fresh("left:" + tag, True), State(e.heap), i.state)
        return out

    def loop_item(self, s, items, tag):
        i = self.i
        if items is None or not isinstance(s, ast.For):
            return None
        kind = items[0]
        if kind == "range":
            lo, step = items[1].lo, items[1].step
            return tm.lift(lo) + tm.lift(step) * tm.sym("μcount:%s" % tag)
        if kind == "known":
            if all(isinstance(x, int) for x in items[1]):
                seq = items[1]
                return tm.lift(seq[0]) + tm.sym("μcount:%s" % tag) * tm.num(seq[1] - seq[0])
            return i.top("loop item")
        if kind == "map":
            return items[1]
        return i.top("loop item")

    def enter_turn(self, s, test, items, item_value):
        i = self.i
        if test is not None:
            return i.assume_simplify(i.truth(self.expr(test), s))
        if isinstance(s, ast.For):
            self.assign(s.target, item_value if item_value is not None else i.top("loop item"))
        return i.fresh("more:L%d" % s.lineno, True)

    def put_loc(self, oid, key, val):
        i = self.i
        p = i.state.heap[oid]
        if p.kind in ("frame", "class"):
            d = dict(p["vars"]); d[key] = val
            i.state.heap[oid] = p.with_(vars=d)
        elif p.kind == "obj":
            d = dict(p["attrs"]); d[key] = val
            i.state.heap[oid] = p.with_(attrs=d)
        elif p.kind == "dict":
            d = dict(p["items"]); d[key] = val
            i.state.heap[oid] = p.with_(items=d)
        elif p.kind in ("list", "set"):
            i.state.heap[oid] = p.with_(items=p["items"], opaque="loop", prefix=True)
        elif p.kind == "arr":
            i.state.heap[oid] = p.with_(elem=val)
        elif p.kind == "nd":
            i.state.heap[oid] = p.with_(val=val)

    def mu_value(self, oid, key, old, new, tag, pre):
        i = self.i
        p = i.state.heap.get(oid)
        fr = key if isinstance(key, str) else "item"
        base = "μ%s:%s" % (tag, fr)
        if p.kind == "arr":
            return tm.app(base, tm.IDX)
        if p.kind == "nd":
            a = p["val"]
            out = _np.empty(a.shape, dtype=object)
            for ix in _np.ndindex(*a.shape):
                out[ix] = tm.sym(base + str(list(ix)))
            return out
        if p.kind in ("list", "set"):
            return None
        for v in (new, old):
            if isinstance(v, Ref) and v.kind == "nd":
                a = i.state.heap[v.oid]["val"]
                out = _np.empty(a.shape, dtype=object)
                for ix in _np.ndindex(*a.shape):
                    out[ix] = tm.sym(base + (str(list(ix)) if a.shape else ""))
                i.heap_counter += 1
                ref = Ref(i.heap_counter, "nd")
                pre.heap[ref.oid] = P("nd", val=out)
                return ref
            if isinstance(v, Ref) and v.kind == "arr":
                i.heap_counter += 1
                ref = Ref(i.heap_counter, "arr")
                q = i.state.heap[v.oid]
                pre.heap[ref.oid] = P("arr", elem=tm.app(base, tm.IDX), len=q["len"], dtype=q["dtype"])
                return ref
        if isinstance(new, bool) or (isinstance(new, T) and tm.is_bool(new)):
            return tm.sym("?" + base)
        if isinstance(new, (T, int, float)):
            return tm.sym(base)
        if isinstance(new, Gate) and all(isinstance(x, (T, int, float)) for _, x in i.gate_cases(new)):
            return tm.sym(base)
        if old is ABSENT:
            return Gate(tm.sym("?bound:" + base), new, ABSENT) if not isinstance(new, Gate) else i.top(base)
        return i.top(base)

    # -- definitions -------------------------------------------------------------------------
    def function(self, s):
        i = self.i
        defaults = [self.expr(d) for d in s.args.defaults]
        kwd = {a.arg: self.expr(d) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        q = (self.qual + "." if self.qual else "") + s.name
        in_class = i.state.heap[self.frame.oid].get("cls")
        fr = self.frame
        if i.state.heap[fr.oid].get("is_class"):
            parent = i.state.heap[fr.oid]["parent"]
        else:
            parent = None if i.state.heap[fr.oid]["parent"] is None and fr.oid == i.modules[self.module].oid else fr
        f = Func(s, self.module, q, parent, defaults, kwd, in_class)
        i.func_index[f.name] = f
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, s)
        return v

    def decorate(self, d, v, s):
        i = self.i
        dv = self.expr_deco(d)
        if isinstance(dv, Ext):
            n = dv.name
            if n == "builtins.property":
                return Prop(v)
            if n == "functools.cached_property":
                return Prop(v, kept=True)
            if n == "builtins.staticmethod":
                return Static(v, "static")
            if n == "builtins.classmethod":
                return Static(v, "class")
            if n == "numpy.vectorize":
                return Vectorized(v)
            if n in ("functools.lru_cache", "functools.cache"):
                i.event("lru-cache", s, func=getattr(v, "name", "?"))
                if isinstance(v, Func):
                    v.decos = tuple(v.decos) + ("lru_cache",)
                return v
            if n in ("abc.abstractmethod", "functools.wraps", "typing.overload", "contextlib.contextmanager",
                     "typing.no_type_check", "typing.final", "typing.override"):
                if n == "contextlib.contextmanager" and isinstance(v, Func):
                    v.decos = tuple(v.decos) + ("contextmanager",)
                return v
            if n in ("functools.singledispatch", "functools.singledispatchmethod", "functools.total_ordering"):
                raise Unsupported(n)
        if isinstance(dv, Partial) and isinstance(dv.func, Ext):
            n = dv.func.name
            if n == "functools.lru_cache":
                i.event("lru-cache", s, func=getattr(v, "name", "?"))
                if isinstance(v, Func):
                    v.decos = tuple(v.decos) + ("lru_cache",)
                return v
            if n in ("functools.wraps", "dataclasses.dataclass"):
                return v
            if n == "numpy.vectorize":
                return Vectorized(v)
        if isinstance(dv, ExtMethod) and isinstance(dv.recv, Prop) and dv.name == "setter":
            return Prop(dv.recv.fget, v)
        if callable(dv) and not isinstance(dv, (Func, Bound, Cls, Partial)):
            return dv(i, [v], {}, s)
        return i.call_value(dv, [v], {}, s)

    def expr_deco(self, d):
        i = self.i
        if isinstance(d, ast.Call):
            f = self.expr(d.func)
            if isinstance(f, Ext) and f.name in ("functools.wraps", "functools.lru_cache", "dataclasses.dataclass",
                                                 "numpy.vectorize"):
                return Partial(f, [], {})
            return self.expr(d)
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            v = self.expr(d.value)
            if isinstance(v, Prop):
                return ExtMethod(v, d.attr)
        return self.expr(d)

    def class_(self, s):
        i = self.i
        bases = [self.expr(b) for b in s.bases]
        fr = i.alloc("class", vars={}, parent=None if self.func is None else self.frame, module=self.module,
                     is_class=True)
        c = Cls(s.name, self.module, [b for b in bases if isinstance(b, (Cls, Ext))], fr.oid, s)
        p = i.state.heap[fr.oid]
        i.state.heap[fr.oid] = p.with_(cls=c)
        q = (self.qual + "." if self.qual else "") + s.name
        ctx = Ctx(i, fr, self.module, q, None)
        ex = ctx.block(s.body)
        for e in ex:
            if e.kind == "raise":
                raise e.value
        from . import classes
        classes.finished(i, c, s, s.decorator_list)
        return c

    # -- imports --------------------------------------------------------------------------------
    def import_(self, a, s):
        i = self.i
        top = a.name.split(".")[0]
        if top == i.package:
            if a.name not in i.trees:
                i.raise_("ModuleNotFoundError", "no module named %s" % a.name, s)
            parts = a.name.split(".")
            for k in range(1, len(parts) + 1):
                m = i.module(".".join(parts[:k]))
            if a.asname:
                self.store(a.asname, m)
            else:
                self.store(top, i.modules[top])
        else:
            if top not in i.np.KNOWN_LIBS:
                i.event("unknown-lib", s, name=a.name)
                if not i.np.lib_exists(a.name):
                    i.raise_("ModuleNotFoundError", "no module named %s" % a.name, s)
            self.store(a.asname or top, Ext(i.np.canon(a.name if a.asname else top)))

    def import_from(self, s):
        i = self.i
        name = s.module or ""
        if s.level:
            base = self.module.split(".")
            path = i.trees[self.module][0]
            if not path.endswith("__init__.py"):
                base = base[:-1]
            base = base[: len(base) - (s.level - 1)]
            name = ".".join(base + ([s.module] if s.module else []))
        top = name.split(".")[0]
        if top == i.package:
            if name not in i.trees:
                i.raise_("ModuleNotFoundError", "no module named %s" % name, s)
            m = i.module(name)
            for a in s.names:
                if a.name == "*":
                    d = i.modvars(m)
                    allv = d.get("__all__")
                    names = None
                    if isinstance(allv, Ref):
                        names = [x for x in i.payload(allv)["items"]]
                    for k, v in list(d.items()):
                        if (names is not None and k in names) or (names is None and not k.startswith("_")):
                            self.store(k, v)
                    continue
                d = i.modvars(m)
                if a.name in d:
                    v = d[a.name]
                elif name + "." + a.name in i.trees:
                    v = i.module(name + "." + a.name)
                else:
                    i.raise_("ImportError", "cannot import name %s from %s" % (a.name, name), s)
                self.store(a.asname or a.name, v)
            return
        if top not in i.np.KNOWN_LIBS and not i.np.lib_exists(name):
            i.raise_("ModuleNotFoundError", "no module named %s" % name, s)
        for a in s.names:
            if a.name == "*":
                i.event("star-import", s, name=name)
                continue
            self.store(a.asname or a.name, i.np.ext_attr(i, Ext(i.np.canon(name)), a.name))

    # ------------------------------------------------------------------ expressions
    def expr(self, e):
        i = self.i
        k = type(e)
        if k is ast.Constant:
            v = e.value
            if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
                return v
            if isinstance(v, int):
                return v
            if isinstance(v, float):
                return tm.fnum(v)
            if isinstance(v, complex):
                return tm.lift(v)
            if v is Ellipsis:
                return ELLIPSIS
        if k is ast.Name:
            return self.load(e.id, e)
        if k is ast.Attribute:
            return i.getattr(self.expr(e.value), e.attr, e)
        if k is ast.BinOp:
            a = self.expr(e.left)
            b = self.expr(e.right)
            return i.np.binop(i, a, _BIN[type(e.op)], b, e)
        if k is ast.UnaryOp:
            v = self.expr(e.operand)
            if isinstance(e.op, ast.Not):
                return unbool(tm.notv(i.truth(v, e)))
            return i.np.unop(i, {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)], v, e)
        if k is ast.Compare:
            return self.compare(e)
        if k is ast.BoolOp:
            return self.boolop(e)
        if k is ast.Call:
            return self.call(e)
        if k is ast.Subscript:
            return i.np.getitem(i, self.expr(e.value), self.index(e.slice), e)
        if k is ast.IfExp:
            c = i.truth(self.expr(e.test), e)
            return i.branch(c, lambda: self.expr(e.body), lambda: self.expr(e.orelse))
        if k is ast.Tuple:
            return tuple(self.elements(e.elts))
        if k is ast.List:
            return i.alloc("list", items=tuple(self.elements(e.elts)))
        if k is ast.Set:
            return i.alloc("set", items=tuple(self.elements(e.elts)))
        if k is ast.Dict:
            d = {}
            opaque = None
            for kk, vv in zip(e.keys, e.values):
                if kk is None:
                    o = self.expr(vv)
                    if isinstance(o, Ref) and o.kind == "dict":
                        d.update(i.payload(o)["items"])
                    else:
                        opaque = "unpacked mapping"
                    continue
                key = self.expr(kk)
                d[i.np.hashkey(i, key)] = self.expr(vv)
            return i.alloc("dict", items=d, opaque=opaque) if opaque else i.alloc("dict", items=d)
        if k is ast.Lambda:
            defaults = [self.expr(d) for d in e.args.defaults]
            kwd = {a.arg: self.expr(d) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None}
            fr = self.frame
            if i.state.heap[fr.oid].get("is_class"):
                fr = i.state.heap[fr.oid]["parent"]
            return Func(e, self.module, (self.qual + "." if self.qual else "") + "<lambda>", fr, defaults, kwd)
        if k in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            return self.comprehension(e)
        if k is ast.JoinedStr:
            parts = []
            for p in e.values:
                if isinstance(p, ast.Constant):
                    parts.append(p.value)
                else:
                    v = self.expr(p.value)
                    plain = p.format_spec is None and p.conversion == -1
                    if plain and isinstance(v, (str, int)):
                        parts.append(str(v))
                    elif plain and i.np.texts(v):
                        parts.append(v)
                    else:
                        spec = self.expr(p.format_spec) if p.format_spec is not None else ""
                        conv = chr(p.conversion) if p.conversion != -1 else ""
                        known = isinstance(spec, str) and v is not None
                        parts.append(i.np.whole(i.np.slot(v, spec, conv)) if known else None)
            if any(p is None for p in parts):
                return Str("f-string")
            out = ""
            for p in parts:
                out = i.np.binop(i, out, "+", p, e)
            return out
        if k is ast.NamedExpr:
            v = self.expr(e.value)
            c = self
            while c.inner is not None:
                c = c.inner
            c.assign(e.target, v)
            return v
        if k is ast.Starred:
            raise Unsupported("starred expression")
        if k is ast.Yield:
            raise Unsupported("yield inside an expression")
        if k is ast.Slice:
            return self.index(e)
        raise Unsupported("expression %s" % k.__name__)

    def elements(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value)
                items = self.i.np.items_of(self.i, v, x)
                if items is None:
                    raise Unsupported("unpacking an unknown sequence")
                out.extend(items)
            else:
                out.append(self.expr(x))
        return out

    def index(self, s):
        if isinstance(s, ast.Slice):
            return Slice(*[None if x is None else self.expr(x) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x) for x in s.elts)
        return self.expr(s)

    def compare(self, e):
        i = self.i
        left = self.expr(e.left)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r)
            v = self.cmp1(op, left, right, e)
            acc = v if acc is None else i.np.logical(i, "and", acc, v, e)
            left = right
        return acc

    def cmp1(self, op, a, b, e):
        i = self.i
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return unbool(tm.notv(r) if isinstance(op, ast.IsNot) else r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = i.np.contains(i, b, a, e)
            return unbool(tm.notv(r) if isinstance(op, ast.NotIn) else r)
        return i.np.compare(i, _CMP[type(op)], a, b, e)

    def is_(self, a, b):
        i = self.i
        if isinstance(a, Gate):
            return tm.ite(a.c, self.is_(a.a, b), self.is_(a.b, b))
        if isinstance(b, Gate):
            return tm.ite(b.c, self.is_(a, b.a), self.is_(a, b.b))
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return tm.TRUE
            if isinstance(o, T) and o.op == "sym" and (o.args[0].startswith("⊤") or "#hist" in o.args[0]):
                return tm.sym("?none:" + o.args[0])
            return tm.FALSE
        if isinstance(a, bool) and isinstance(b, bool):
            return tm.TRUE if a == b else tm.FALSE
        if isinstance(a, T) and isinstance(b, bool) or isinstance(b, T) and isinstance(a, bool):
            x, y = (a, b) if isinstance(a, T) else (b, a)
            if tm.is_bool(x):
                return x if y else tm.notv(x)
            return tm.FALSE
        if isinstance(a, Ref) and isinstance(b, Ref):
            return tm.TRUE if a == b else tm.FALSE
        if a is b or (type(a) is type(b) and isinstance(a, (Ext, str, int)) and a == b):
            return tm.TRUE
        if isinstance(a, T) and isinstance(b, T):
            return i.fresh("is", True)
        return tm.FALSE

    def boolop(self, e):
        i = self.i
        is_and = isinstance(e.op, ast.And)

        def go(k):
            v = self.expr(e.values[k])
            if k == len(e.values) - 1:
                return v
            c = i.truth(v, e)
            keep = lambda: v
            nxt = lambda: go(k + 1)
            if isinstance(v, bool) or (isinstance(v, T) and tm.is_bool(v)):
                keep = lambda: (False if is_and else True)
            return i.branch(c, nxt, keep) if is_and else i.branch(c, keep, nxt)
        r = go(0)
        return unbool(r)

    def call(self, e):
        c = self.callee(e)
        if c[0] == "value":
            return c[1]
        return self.i.call_value(*c[1:], e)

    def callee(self, e):
        """("call", function, arguments, keywords) of a call, or ("value", v) of a special one"""
        i = self.i
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = i.state.heap[self.frame.oid]
            cls = self.func.cls if self.func else None
            f = self.func
            first = f.node.args.args[0].arg
            return ("value", SuperProxy(cls, self.load(first, e)))
        f = self.expr(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value)
                items = i.np.items_of(i, v, a)
                if items is None:
                    raise Unsupported("call with an unknown argument list")
                args.extend(items)
            else:
                args.append(self.expr(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.expr(k.value)
                if isinstance(v, Ref) and v.kind == "dict" and not i.payload(v).get("opaque"):
                    for n, x in i.payload(v)["items"].items():
                        if n in kw:
                            i.raise_("TypeError", "got multiple values for keyword argument %s" % n, e)
                        kw[n] = x
                else:
                    raise Unsupported("call with unknown keywords")
            else:
                if k.arg in kw:
                    i.raise_("TypeError", "got multiple values for keyword argument %s" % k.arg, e)
                kw[k.arg] = self.expr(k.value)
        if isinstance(f, Ext) and f.name == "builtins.super":
            return ("value", SuperProxy(args[0], args[1]))
        if isinstance(f, Ext) and f.name in ("builtins.locals", "builtins.vars", "builtins.globals") and not args:
            if f.name == "builtins.globals":
                return ("value", Ref(i.modules[self.module].oid, "moddict"))
            return ("value", i.alloc("dict", items=dict(self.vars())))
        return ("call", f, args, kw)

    def comprehension(self, e):
        i = self.i
        fr = i.alloc("frame", vars={}, parent=self.frame, module=self.module)
        ctx = Ctx(i, fr, self.module, self.qual, None)
        ctx.func = self.func
        ctx.local_names = None
        ctx.inner = self
        ctx.globals_, ctx.nonlocals = self.globals_, set()
        out = []
        isdict = isinstance(e, ast.DictComp)
        isset = isinstance(e, ast.SetComp)
        arrmap = []
        under = []

        def rec(k):
            if k == len(e.generators):
                if isdict:
                    out.append((ctx.expr(e.key), ctx.expr(e.value)))
                else:
                    depth = len(i.pc)
                    i.pc.extend(under)
                    try:
                        v = ctx.expr(e.elt)
                    finally:
                        del i.pc[depth:]
                    out.append(CondItem(tm.andv(*under), v) if under else v)
                return
            g = e.generators[k]
            it = (ctx if k else self).expr(g.iter)
            if isinstance(it, Endless):
                raise Unsupported("comprehension over an endless iterator")
            items = i.np.iterate(i, it, e)
            if items is not None and items[0] == "map" and len(e.generators) == 1 and not g.ifs and not isdict:
                ctx.assign(g.target, items[1])
                arrmap.append((ctx.expr(e.elt), items[2]))
                return
            if items is None or items[0] != "items":
                raise Unsupported("comprehension over an unknown sequence")
            for x in items[1]:
                ctx.assign(g.target, x)
                conds = [i.assume_simplify(i.truth(ctx.expr(c), e)) for c in g.ifs]
                c = tm.andv(*conds) if conds else tm.TRUE
                if c is tm.FALSE:
                    continue
                if c is not tm.TRUE and (isdict or isset):
                    raise Unsupported("comprehension filter on an unknown condition")
                if c is tm.TRUE:
                    rec(k + 1)
                else:
                    under.append(c)
                    try:
                        rec(k + 1)
                    except RaiseSignal as x:
                        raise Unsupported("comprehension that fails under a condition: %s" % x)
                    finally:
                        under.pop()
        rec(0)
        if arrmap:
            v, length = arrmap[0]
            return i.np.new_arr(i, i.np.scalar_of(i, v), length)
        if isdict:
            return i.alloc("dict", items={i.np.hashkey(i, a): b for a, b in out})
        if isinstance(e, ast.SetComp):
            return i.np.a_set(i, out)
        if isinstance(e, ast.GeneratorExp):
            return i.alloc("list", items=tuple(out), iterator=True)
        return i.alloc("list", items=tuple(out))


def _yields(s):
    """the statement hands values to the consumer of the generator it is part of"""
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(s))


def unbool(v):
    if v is tm.TRUE:
        return True
    if v is tm.FALSE:
        return False
    return v


def _locals(fn):
    """Names bound in the function body (hence local)."""
    out = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    if fn.args.vararg:
        out.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        out.add(fn.args.kwarg.arg)
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        todo.extend(ast.iter_child_nodes(n))
    return out


def diff_payload(p, q):
    """(key, old, new) for every changed part"""
    if p.kind in ("frame", "class", "obj", "dict"):
        key = {"frame": "vars", "class": "vars", "obj": "attrs", "dict": "items"}[p.kind]
        a, b = p[key], q[key]
        out = []
        for k in list(b):
            x, y = a.get(k, ABSENT), b[k]
            if x is y or ip.same_value(x, y):
                continue
            out.append((k, x, y))
        return out
    if p.kind in ("list", "set"):
        return [] if p["items"] is q["items"] or p["items"] == q["items"] else [("items", p["items"], q["items"])]
    if p.kind == "arr":
        return [] if p["elem"] is q["elem"] else [("elem", p["elem"], q["elem"])]
    if p.kind == "nd":
        same = p["val"].shape == q["val"].shape and all(
            x is y for x, y in zip(p["val"].reshape(-1), q["val"].reshape(-1)))
        return [] if same else [("val", p["val"], q["val"])]
    return []
