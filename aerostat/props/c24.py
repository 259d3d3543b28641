"""C24 arguments are not modified."""
import ast

from .common import *
from .c02 import TABLE

MUT = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "sort", "fill", "resize", "partition",
       "itemset", "put", "reverse", "add", "discard", "__setitem__", "setflags"}
NPMUT = {"copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis", "shuffle"}
# results of these share the memory of their argument
SHARE = {"asarray", "ravel", "reshape", "atleast_1d", "atleast_2d", "transpose", "squeeze", "swapaxes", "asanyarray", "expand_dims", "view",
         "broadcast_to", "real", "diagonal", "moveaxis"}


class Effects(ast.NodeVisitor):
    """Flow-sensitive may-alias of the parameters in one function; stores through an alias."""

    def __init__(self, fn):
        a = fn.args
        self.names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.params = [n for n in self.names if n not in ("self", "cls")]
        self.alias = {n: {n} for n in self.params}
        self.arrays = set()      # names that hold arrays for certain
        self.out = []
        self.sites = 0
        for s in fn.body:
            self.stmt(s)

    def of(self, e):
        """parameters whose object `e` may be (or be a view of)"""
        if isinstance(e, ast.Name):
            return set(self.alias.get(e.id, ()))
        if isinstance(e, ast.Attribute):
            return self.of(e.value) if not isinstance(e.value, ast.Name) or e.value.id not in ("np", "numpy") else set()
        if isinstance(e, ast.Subscript):
            return self.of(e.value)
        if isinstance(e, ast.Starred):
            return self.of(e.value)
        if isinstance(e, (ast.IfExp,)):
            return self.of(e.body) | self.of(e.orelse)
        if isinstance(e, ast.NamedExpr):
            return self.of(e.value)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.of(v) for v in e.values])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in SHARE:
            r = set()
            for x in list(e.args)[:1]:
                r |= self.of(x)
            return r | self.of(e.func.value)
        return set()

    def store(self, t, node):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, node)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            self.sites += 1
            for p in sorted(self.of(t.value)):
                self.out.append((node, p, ast.unparse(node)[:90]))

    def calls(self, s):
        for n in ast.walk(s):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                continue
            if not isinstance(n, ast.Call):
                continue
            for k in n.keywords:
                if k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False and n.args \
                        and isinstance(n.func, ast.Attribute) and n.func.attr == "nan_to_num":
                    self.sites += 1
                    for p in sorted(self.of(n.args[0])):
                        self.out.append((n, p, ast.unparse(n)[:90]))
                if k.arg == "out":
                    self.sites += 1
                    for p in sorted(self.of(k.value)):
                        self.out.append((n, p, ast.unparse(n)[:90]))
            if isinstance(n.func, ast.Attribute):
                if n.func.attr in MUT:
                    self.sites += 1
                    for p in sorted(self.of(n.func.value)):
                        self.out.append((n, p, ast.unparse(n)[:90]))
                if n.func.attr in NPMUT and n.args:
                    self.sites += 1
                    for p in sorted(self.of(n.args[0])):
                        self.out.append((n, p, ast.unparse(n)[:90]))

    def bind(self, t, v, e=None):
        if isinstance(t, ast.Name):
            self.alias[t.id] = set(v)
            call = isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in SHARE
            if call or (isinstance(e, ast.Name) and e.id in self.arrays):
                self.arrays.add(t.id)
            else:
                self.arrays.discard(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, v)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v)

    def join(self, blocks):
        start = {k: set(v) for k, v in self.alias.items()}
        ends = []
        for b in blocks:
            self.alias = {k: set(v) for k, v in start.items()}
            for s in b:
                self.stmt(s)
            ends.append(self.alias)
        keys = set().union(*ends) if ends else set()
        self.alias = {k: set().union(*[e.get(k, set()) for e in ends]) for k in keys}

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            keep = {k: set(v) for k, v in self.alias.items()}
            for x in s.args.args + s.args.kwonlyargs:
                self.alias[x.arg] = set()
            for x in s.body:
                self.stmt(x)
            self.alias = keep
            return
        if isinstance(s, ast.ClassDef):
            return
        if isinstance(s, ast.If):
            self.calls(s.test)
            self.join([s.body, s.orelse])
            return
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.calls(s.iter)
                self.bind(s.target, self.of(s.iter))
            else:
                self.calls(s.test)
            self.join([s.body * 2, s.orelse])
            return
        if isinstance(s, ast.With):
            for w in s.items:
                self.calls(w.context_expr)
            for x in s.body:
                self.stmt(x)
            return
        if isinstance(s, ast.Try):
            self.join([s.body + s.orelse + s.finalbody] + [h.body + s.finalbody for h in s.handlers])
            return
        self.calls(s)
        if isinstance(s, ast.Assign):
            v = self.of(s.value)
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                    vs = [self.of(x) for x in s.value.elts]
                    for x, w in zip(t.elts, vs):
                        self.store(x, s)
                        self.bind(x, w)
                else:
                    self.store(t, s)
                    self.bind(t, v, s.value)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.store(s.target, s)
            self.bind(s.target, self.of(s.value))
        elif isinstance(s, ast.AugAssign):
            # on a plain name: a number or an array, decided by the value analysis of `arrays`
            if not isinstance(s.target, ast.Name):
                self.store(s.target, s)
            elif s.target.id in self.arrays:
                self.sites += 1
                for p in sorted(self.of(s.target)):
                    self.out.append((s, p, ast.unparse(s)[:90]))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                self.store(t, s)


def effects(c):
    i = c.i
    nfun = nsite = 0
    for mod, (path, tree, src) in sorted(i.trees.items()):
        for n, q in functions(tree):
            e = Effects(n)
            nfun += 1
            nsite += e.sites
            for node, p, text in e.out:
                c.add("%s modifies its argument %s" % (q, p), "%s:%d %s" % (i.relpath(mod), node.lineno, q),
                      "no store through an alias of a parameter", "violated", text)
    c.fact("no function of the package stores through its arguments", True if nfun > 100 else None,
           "no store through an alias of a parameter (%d functions, %d stores)" % (nfun, nsite), where="aerokit")


def functions(tree, pre=""):
    for n in tree.body if hasattr(tree, "body") else ():
        if isinstance(n, (ast.FunctionDef,)):
            yield n, pre + n.name
        elif isinstance(n, ast.ClassDef):
            yield from functions(n, pre + n.name + ".")
        elif isinstance(n, (ast.If, ast.Try)):
            yield from functions(n, pre)


def arrays(name, ranges):
    def sec(c):
        i = c.i
        roots(c)
        f = c.get(name)
        short = ".".join(name.split(".")[-2:])
        kw, before = {}, {}
        for k in ranges:
            kw[k] = i.np.new_arr(i, tm.app("A_" + k, tm.IDX), sym("n"))
            before[k] = i.state.heap[kw[k].oid]
        v = c.call(f, **kw, gamma=g)
        c.pending = []
        bad = [k for k in kw if i.payload(kw[k]) is not before[k] and
               not all(i.payload(kw[k]).get(x) is before[k].get(x) for x in ("elem", "len", "base"))]
        c.fact("%s leaves its array arguments as they were" % short, not bad, "array contents unchanged by the call", detail=",".join(bad))
        shared = [k for k in kw if isinstance(v, Ref) and (v.oid == kw[k].oid or i.payload(v).get("base") == kw[k])]
        c.fact("%s returns a new array" % short, not shared, "result is not one of the arguments", detail=",".join(shared))
    sec.__name__ = name
    return sec


def unchanged(c, label, refs, before):
    i = c.i
    bad = [k for k in refs if i.payload(refs[k]) is not before[k] and
           not all(i.payload(refs[k]).get(x) is before[k].get(x) for x in ("elem", "len", "base"))]
    c.fact("%s leaves its array arguments as they were" % label, not bad, "array contents unchanged by the call", detail=",".join(bad))


def vec(c, *names_):
    i = c.i
    refs = {k: i.np.new_arr(i, tm.app("A_" + k, tm.IDX), sym("n")) for k in names_}
    return refs, {k: i.state.heap[refs[k].oid] for k in refs}


def states(c):
    """array states: methods leave the fields and the arguments alone"""
    i = c.i
    for cls in ("aerokit.aero.model1D.state", "aerokit.aero.unsteady1D.unsteady_state"):
        t = cls.split(".")[-1]
        refs, before = vec(c, "rho", "u", "p", "q", "w", "h")
        st = c.call(cls, refs["rho"], refs["u"], refs["p"], g)
        unchanged(c, t + "(...)", refs, before)
        for k in ("asound", "left_acoustic", "right_acoustic", "Mach", "massflow", "Ptot", "rTtot"):
            c.call(i.getattr(st, k, None))
            unchanged(c, "%s.%s" % (t, k), refs, before)
        for k in ("copy",):
            c.call(i.getattr(st, k, None))
            unchanged(c, "%s.%s" % (t, k), refs, before)
        c.call(i.getattr(st, "state_RH", None))
        unchanged(c, t + ".state_RH", refs, before)
        c.call(i.getattr(st, "state_isentropic_Mach", None), refs["q"])
        unchanged(c, t + ".state_isentropic_Mach", refs, before)
        for k in ("compute_from_pt_rtt_M", "compute_from_pt_rtt_u", "compute_from_pt_rtt_p"):
            new = c.call(cls, refs["rho"], refs["u"], refs["p"], g)
            c.call(i.getattr(new, k, None), refs["q"], refs["w"], refs["h"])
            unchanged(c, "%s.%s" % (t, k), refs, before)
        if t == "unsteady_state":
            for k in ("delta_u_expansion", "delta_u_shock", "rho_through_shock", "rho_through_isentropic"):
                c.call(i.getattr(st, k, None), refs["q"])
                unchanged(c, "%s.%s" % (t, k), refs, before)
    c.pending = []


def other_arrays(c):
    """degree trigonometry, spectral interpolation points, nozzle sections, sampled solutions"""
    i = c.i
    for k in ("cos", "sin", "tan", "acos", "asin", "atan", "atan2"):
        refs, before = vec(c, "x", "y")
        c.call("aerokit.aero.degree." + k, *([refs["x"]] if k != "atan2" else [refs["y"], refs["x"]]))
        unchanged(c, "degree." + k, refs, before)
    C = c.call("aerokit.common.numspectral.ChebCollocation", sym("N"))
    for k in ("_x_to_xi", "_xi_to_x"):
        refs, before = vec(c, "x")
        c.call(i.getattr(C, k, None), refs["x"])
        unchanged(c, "ChebCollocation." + k, refs, before)
    c.pending = []


def problems(c):
    """sampled flow problems, nozzles and the equation solver"""
    i = c.i
    roots(c)
    refs, before = vec(c, "x", "section")
    z = c.call("aerokit.instance.nozzle.nozzle", refs["x"], refs["section"], gamma=g)
    unchanged(c, "nozzle(...)", refs, before)
    for k in (num(Fraction(101, 100)), num(Fraction(3, 2)), num(40), sym("NPR")):
        c.call(i.getattr(z, "set_NPR", None), k)
        unchanged(c, "nozzle.set_NPR(%s)" % tm.show(k), refs, before)
    for k in ("Mach", "Ptot", "Ps"):
        c.call(i.getattr(z, k, None))
        unchanged(c, "nozzle." + k, refs, before)
    c.pending = []
    from .c15 import problem
    pb, d, q = problem(c)
    refs, before = vec(c, "xot")
    c.call(i.getattr(pb, "qsol", None), refs["xot"])
    c.pending = []
    unchanged(c, "riemann_pb.qsol", refs, before)


def solver(c):
    i = c.i
    i.peel = 2
    from .c31 import python
    for lab, names_ in (("targets", ("y",)), ("starts", ("x0",)), ("targets and starts", ("y", "x0"))):
        refs, before = vec(c, *names_)
        c.call(SOLVER, lambda ii, args, kw, node: ii.np.binop(ii, args[0], "*", args[0], node), refs.get("y", sym("y")), refs.get("x0", sym("x0")))
        c.pending = []
        unchanged(c, "secant_solve, array of %s" % lab, refs, before)
    for name in ("RK4", "RKF45"):
        import numpy as np
        y0 = i.np.new_nd(i, np.array([sym("a"), sym("b")], dtype=object))
        v0 = i.state.heap[y0.oid]["val"].copy()
        c.call("aerokit.common._ode." + name, lambda ii, args, kw, node: ii.np.binop(ii, args[1], "*", sym("w"), node), sym("x"), y0, sym("e"), sym("h"))
        c.pending = []
        v1 = i.state.heap[y0.oid]["val"]
        c.fact("%s leaves the initial values" % name, all(p is q for p, q in zip(v0, v1)), "array contents unchanged by the call")


SCALAR = {"aerokit.instance.nozzle.Ms_from_AsAc_NPR", "aerokit.aero.MassFlow.Mach_Sigma"}


def run(c):
    c.section(effects)
    c.section(states)
    c.section(other_arrays)
    c.section(problems)
    c.section(solver)
    for name, rg in TABLE.items():
        if name not in SCALAR and "conical" not in name:
            c.section(arrays(name, rg), name)
