"""State that outlives a call, replaced by an arbitrary history.

A property that must hold for every history is decided from a state in which
everything an earlier call can have written (module globals, containers and
objects held by modules or classes, mutable default arguments, function
attributes) is unknown.  The scan below finds those places in the source.

A memo table is the one case with an invariant worth keeping: if the only entry a
function stores under key K is V and V is a function of K alone, then whatever an
earlier call left under K is V again (induction over the calls).  `resolve` applies
it; a key that does not determine the value leaves the history symbol in place and
the obligation that sees it fails.
"""
import ast

from . import terms as tm
from .interp import Ref, Func, Cls, Gate, Vectorized, Static, Bound, Prop
from .terms import T

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "sort",
            "reverse", "add", "discard", "fill", "put", "resize", "__setitem__", "__delitem__", "move_to_end"}


def functions(i):
    """(module, qualname, node, class name or None) of every function of the package"""
    for mod, (_, tree, _) in sorted(i.trees.items()):
        todo = [(tree, "", None)]
        while todo:
            n, q, cls = todo.pop()
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield mod, (q + "." + c.name).strip("."), c, cls
                    todo.append((c, (q + "." + c.name).strip("."), cls))
                elif isinstance(c, ast.ClassDef):
                    todo.append((c, (q + "." + c.name).strip("."), c.name))
                else:
                    todo.append((c, q, cls))


def local_names(fn):
    names = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            names.add(x.arg)
    glob = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
    return names - glob, glob


def root_name(e):
    """leftmost name of a.b[c].d, with the chain of attributes"""
    chain = []
    while True:
        if isinstance(e, ast.Attribute):
            chain.append(e.attr)
            e = e.value
        elif isinstance(e, ast.Subscript):
            chain.append("[]")
            e = e.value
        elif isinstance(e, ast.Call):
            chain.append("()")
            e = e.func
        else:
            break
    return (e.id if isinstance(e, ast.Name) else None), list(reversed(chain))


def scan(i):
    """[(module, qual, node, kind, root, chain)] of writes to state that outlives the call"""
    out = []
    for mod, qual, fn, cls in functions(i):
        loc, glob = local_names(fn)
        dflt_names = {}
        a = fn.args
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
                [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
                dflt_names[x.arg] = d
        for n in ast.walk(fn):
            tg = []
            if isinstance(n, ast.Assign):
                tg = list(n.targets)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            elif isinstance(n, ast.Delete):
                tg = list(n.targets)
            elif isinstance(n, (ast.For,)):
                tg = [n.target]
            flat = []
            while tg:
                t = tg.pop()
                if isinstance(t, (ast.Tuple, ast.List)):
                    tg.extend(t.elts)
                elif isinstance(t, ast.Starred):
                    tg.append(t.value)
                else:
                    flat.append(t)
            for t in flat:
                if isinstance(t, ast.Name):
                    if t.id in glob:
                        out.append((mod, qual, n, "global", t.id, []))
                elif isinstance(t, (ast.Attribute, ast.Subscript)):
                    r, ch = root_name(t)
                    if r in dflt_names:
                        out.append((mod, qual, n, "default", r, ch))
                    elif r is not None and (r not in loc or r in ("cls",)):
                        out.append((mod, qual, n, "outer", r, ch))
                    elif r in ("self",) and "__class__" in ch:
                        out.append((mod, qual, n, "outer", "self", ch))
                    elif r == "self" and cls and len(ch) > 1 and ch[1] == "[]":
                        out.append((mod, qual, n, "selfattr", cls, ch))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                r, ch = root_name(n.func.value)
                if r in dflt_names:
                    out.append((mod, qual, n, "default", r, ch))
                elif r is not None and r not in loc:
                    out.append((mod, qual, n, "outer", r, list(ch) + ["[]"]))
                elif r == "self" and cls and ch:
                    out.append((mod, qual, n, "selfattr", cls, ch))
    return out


def prepare(i):
    """Replace everything `scan` finds by an arbitrary history. Returns the sites."""
    sites = scan(i)
    done = []
    for mod, qual, node, kind, root, chain in sites:
        m = i.modules.get(mod)
        if m is None:
            continue
        vars_ = i.modvars(m)
        where = "%s:%d" % (i.relpath(mod), node.lineno)
        if kind == "global":
            if root in vars_ or True:
                _set(i, m, root, _arbitrary(i, vars_.get(root), "%s.%s" % (mod, root)))
                done.append((where, qual, "global %s" % root))
        elif kind == "default":
            for f in _funcs_named(i, mod, qual):
                names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
                off = len(names) - len(f.defaults)
                for k, d in enumerate(f.defaults):
                    if names[off + k] == root and isinstance(d, Ref):
                        _havoc_ref(i, d, "%s.%s:%s" % (mod, qual, root))
                        done.append((where, qual, "default of %s" % root))
                if root in f.kwdefaults and isinstance(f.kwdefaults[root], Ref):
                    _havoc_ref(i, f.kwdefaults[root], "%s.%s:%s" % (mod, qual, root))
        elif kind == "outer":
            v = vars_.get(root)
            label = "%s.%s" % (mod, root)
            if root in ("self", "cls"):
                continue
            attrs = [c for c in chain[:-1] if c not in ("[]", "()")] if chain and chain[-1] != "[]" else \
                [c for c in chain if c not in ("[]", "()")]
            # follow attributes down to the object that is written
            ok = True
            for a in attrs:
                try:
                    v = i.getattr(v, a, node)
                    label += "." + a
                except Exception:
                    ok = False
                    break
            last = chain[-1] if chain else None
            if isinstance(v, Ref) and v.kind in ("dict", "list", "set", "arr", "nd"):
                _havoc_ref(i, v, label)
                done.append((where, qual, label))
            elif ok and last not in (None, "[]", "()"):
                if isinstance(v, Ref) and v.kind == "obj":
                    at = dict(i.payload(v)["attrs"])
                    at[last] = _arbitrary(i, at.get(last), label + "." + last)
                    i.write(v, attrs=at)
                    done.append((where, qual, label + "." + last))
                elif isinstance(v, Cls):
                    p = i.state.heap[v.oid]
                    d = dict(p["vars"])
                    d[last] = _arbitrary(i, d.get(last), label + "." + last)
                    i.state.heap[v.oid] = p.with_(vars=d)
                    done.append((where, qual, label + "." + last))
                elif isinstance(v, (Func, Vectorized)):
                    i.func_attrs[(id(v.node) if isinstance(v, Func) else id(v), last)] = \
                        tm.sym("hist:%s.%s#hist" % (label, last))
                    done.append((where, qual, label + "." + last))
                elif getattr(v, "oid", None) is not None and hasattr(v, "name"):   # module object
                    d = i.modvars(v)
                    _set(i, v, last, _arbitrary(i, d.get(last), v.name + "." + last))
                    done.append((where, qual, v.name + "." + last))
        elif kind == "selfattr":
            cls = vars_.get(root)
            if isinstance(cls, Cls):
                cv = i.state.heap[cls.oid]["vars"].get(chain[0])
                if isinstance(cv, Ref) and cv.kind in ("dict", "list", "set"):
                    _havoc_ref(i, cv, "%s.%s.%s" % (mod, root, chain[0]))
                    done.append((where, qual, "%s.%s" % (root, chain[0])))
    return done


def _funcs_named(i, mod, qual):
    out = []
    parts = qual.split(".")
    v = i.modvars(i.modules[mod]).get(parts[0])
    for p in parts[1:]:
        if isinstance(v, Cls):
            v = i.state.heap[v.oid]["vars"].get(p)
        else:
            return out
    if isinstance(v, (Static,)):
        v = v.func
    if isinstance(v, Prop):
        v = v.fget
    if isinstance(v, Vectorized):
        v = v.func
    if isinstance(v, Func):
        out.append(v)
    return out


def _set(i, m, name, v):
    p = i.state.heap[m.oid]
    d = dict(p["vars"])
    d[name] = v
    i.state.heap[m.oid] = p.with_(vars=d)


def _arbitrary(i, v, label):
    s = tm.sym("hist:%s#hist" % label)
    if v is None:
        return Gate(tm.sym("?hist:none:%s#hist" % label), None, s)
    if isinstance(v, bool) or (isinstance(v, T) and tm.is_bool(v)):
        return tm.sym("?hist:%s#hist" % label)
    if isinstance(v, Ref):
        _havoc_ref(i, v, label)
        return v
    return s


def _havoc_ref(i, ref, label):
    if ref.kind == "dict":
        i.write(ref, opaque="history", hist=label, items={})
    elif ref.kind in ("list", "set"):
        i.write(ref, opaque="history", items=())
    elif ref.kind == "obj":
        i.write(ref, havoc="hist:%s#hist" % label, attrs={})
    elif ref.kind == "arr":
        i.write(ref, elem=tm.app("hist:%s#hist" % label, tm.IDX))
    elif ref.kind == "nd":
        val = i.payload(ref)["val"]
        from .interp import nd_map
        n = [0]

        def f(_):
            n[0] += 1
            return tm.sym("hist:%s[%d]#hist" % (label, n[0]))
        i.write(ref, val=nd_map(f, val))


def resolve(i, t):
    """Apply the memo-table invariant to history symbols of `t`."""
    if not isinstance(t, T):
        return t
    if not any("#hist" in s for s in names_in(t)):
        return t
    m = {}
    for label, stores in i.hist_stores.items():
        for key, val in stores:
            if not isinstance(val, T):
                continue
            comp = set()
            for k in key:
                if k.op == "sym":
                    comp.add(k.args[0])
            need = {s for s in tm.free_syms(val) if "#hist" not in s}
            if need <= comp:
                m[tm.app("hist:%s#hist" % label, *key)] = val
    for _ in range(3):
        n = tm.subst(t, m)
        if n is t:
            break
        t = n
    # an entry that is present or not: both give the same value
    return t


def names_in(t):
    out = set()
    for x in tm.walk(t):
        if x.op == "sym":
            out.add(x.args[0])
        elif x.op == "app":
            out.add(x.args[0])
    return out
