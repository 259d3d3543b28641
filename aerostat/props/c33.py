"""C33 every reference of the package resolves."""
import ast
import builtins
import importlib
import symtable

from .common import *

LIBS = ("numpy", "scipy", "math", "copy", "inspect", "functools", "typing")
BUILT = set(dir(builtins)) | {"__name__", "__file__", "__doc__", "__package__", "__spec__", "__path__", "__builtins__", "__class__", "__module__", "__qualname__",
                              "__annotations__", "__dict__"}


class Package:
    def __init__(self, i):
        self.i = i
        self.trees = {m: t[1] for m, t in i.trees.items()}
        self.files = {m: i.relpath(m) for m in self.trees}
        self.binds = {}
        self.busy = set()
        self.bad, self.n = [], {"imports": 0, "names": 0, "module attributes": 0, "object attributes": 0, "calls": 0}
        self.classes = {}
        for m, t in self.trees.items():
            for n in t.body:
                if isinstance(n, ast.ClassDef):
                    self.classes[m, n.name] = n

    def where(self, m, n):
        return "%s:%d" % (self.files[m], getattr(n, "lineno", 0))

    def rel(self, m, node):
        """absolute module name of an import-from"""
        if not node.level:
            return node.module
        parts = m.split(".")
        if not self.files[m].endswith("__init__.py"):
            parts = parts[:-1]
        parts = parts[:len(parts) - (node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    def exists(self, mod):
        return mod in self.trees or any(k.startswith(mod + ".") for k in self.trees)

    def inside(self, mod):
        return mod is not None and mod.split(".")[0] in {k.split(".")[0] for k in self.trees}

    def module_binds(self, m):
        """names bound at module level: name -> definition; None when unknown names may exist"""
        if m in self.binds:
            return self.binds[m]
        if m in self.busy:
            return {}
        self.busy.add(m)
        out, open_ = {}, False
        t = self.trees.get(m)
        if t is None:
            self.binds[m] = {}
            return {}

        def visit(nodes):
            nonlocal open_
            for n in nodes:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.setdefault(n.name, []).append(n)
                elif isinstance(n, ast.Import):
                    for al in n.names:
                        out.setdefault((al.asname or al.name).split(".")[0], []).append(("module", al.name if al.asname else al.name.split(".")[0]))
                elif isinstance(n, ast.ImportFrom):
                    src = self.rel(m, n)
                    for al in n.names:
                        if al.name == "*":
                            if self.inside(src):
                                sub = self.module_binds(src)
                                if sub is None:
                                    open_ = True
                                else:
                                    for k, v in sub.items():
                                        if not k.startswith("_"):
                                            out.setdefault(k, []).extend(v)
                            else:
                                open_ = True
                        else:
                            out.setdefault(al.asname or al.name, []).append(("from", src, al.name))
                else:
                    for x in ast.walk(n):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                            out.setdefault(x.id, []).append(("value", x))
                        elif isinstance(x, ast.ExceptHandler) and x.name:
                            out.setdefault(x.name, []).append(("value", x))
                    for f in ("body", "orelse", "finalbody"):
                        visit(getattr(n, f, []) or [])
                    for h in getattr(n, "handlers", []):
                        visit(h.body)
        visit(t.body)
        for x in ast.walk(t):
            if isinstance(x, ast.Global):
                for k in x.names:
                    out.setdefault(k, []).append(("value", x))
            # names can be bound without appearing in the source
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and (x.func.id in ("globals", "exec", "eval") or x.func.id in ("vars", "locals") and not x.args):
                open_ = True
            if isinstance(x, ast.Attribute) and (x.attr == "modules" or x.attr == "__dict__" and not (isinstance(x.value, ast.Name) and x.value.id == "self")):
                open_ = True
        if any(isinstance(n, ast.FunctionDef) and n.name == "__getattr__" for n in t.body) or m in self.patched():
            open_ = True
        self.binds[m] = None if open_ else out
        return self.binds[m]

    def patched(self):
        """modules some code sets attributes of under computed names"""
        if not hasattr(self, "_patched"):
            self._patched = set()
            for m, t in self.trees.items():
                for x in ast.walk(t):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and x.args and isinstance(x.args[0], ast.Name):
                        for n in ast.walk(t):
                            if isinstance(n, (ast.Import, ast.ImportFrom)):
                                for al in n.names:
                                    if (al.asname or al.name.split(".")[0]) == x.args[0].id:
                                        self._patched.update({al.name, (self.rel(m, n) + "." + al.name) if isinstance(n, ast.ImportFrom) and self.rel(m, n) else al.name})
        return self._patched

    def resolve(self, m, name, depth=0):
        """definition of a module-level name: ast node with its module, ('module', x) or None"""
        b = self.module_binds(m)
        if b is None or name not in b or len(b[name]) != 1 or depth > 8:
            return None
        d = b[name][0]
        if isinstance(d, ast.AST):
            return (m, d)
        if d[0] == "module":
            return d
        if d[0] == "from":
            if self.inside(d[1]):
                if d[1] + "." + d[2] in self.trees and d[2] not in (self.module_binds(d[1]) or {}):
                    return ("module", d[1] + "." + d[2])
                return self.resolve(d[1], d[2], depth + 1)
            return ("module", d[1] + "." + d[2])
        if d[0] == "value":
            return ("value", m, name)
        return None

    # ---------------------------------------------------------------- passes
    def imports(self, m):
        for n in ast.walk(self.trees[m]):
            if isinstance(n, ast.Import):
                for al in n.names:
                    if self.inside(al.name):
                        self.n["imports"] += 1
                        if not self.exists(al.name):
                            self.bad.append(("import %s" % al.name, self.where(m, n), "no such module"))
            elif isinstance(n, ast.ImportFrom):
                src = self.rel(m, n)
                if not self.inside(src):
                    continue
                self.n["imports"] += 1
                if not self.exists(src):
                    self.bad.append(("from %s import" % src, self.where(m, n), "no such module"))
                    continue
                b = self.module_binds(src)
                for al in n.names:
                    if al.name == "*" or b is None:
                        continue
                    if al.name not in b and not self.exists(src + "." + al.name):
                        self.bad.append(("from %s import %s" % (src, al.name), self.where(m, n), "no such name"))

    def names(self, m):
        b = self.module_binds(m)
        if b is None:
            return
        path = self.files[m]
        table = symtable.symtable(ast.unparse(self.trees[m]), path, "exec")
        todo = [table]
        while todo:
            s = todo.pop()
            todo += s.get_children()
            for y in s.get_symbols():
                if not y.is_referenced():
                    continue
                self.n["names"] += 1
                if s.get_type() == "module" or y.is_global() or (s.get_type() == "class" and not y.is_assigned() and not y.is_free()):
                    k = y.get_name()
                    if k not in b and k not in BUILT:
                        where = next((self.where(m, x) for x in ast.walk(self.trees[m]) if isinstance(x, ast.Name) and x.id == k), path)
                        self.bad.append(("name %s" % k, where, "not defined"))

    def chains(self, m):
        """attributes of modules, and calls of package functions"""
        t = self.trees[m]
        par = {}
        for n in ast.walk(t):
            for ch in ast.iter_child_nodes(n):
                par[ch] = n

        def shadowed(n, name):
            """bound in an enclosing function"""
            p = par.get(n)
            while p is not None:
                if isinstance(p, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                    a = p.args
                    if name in {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}:
                        return True
                    body = p.body if isinstance(p.body, list) else [p.body]
                    glob = {k for st in body for x in ast.walk(st) if isinstance(x, ast.Global) for k in x.names}
                    for st in body:
                        for x in ast.walk(st):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name and name not in glob:
                                return True
                            if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name:
                                return True
                            if isinstance(x, (ast.Import, ast.ImportFrom)) and any((al.asname or al.name).split(".")[0] == name for al in x.names):
                                return True
                elif isinstance(p, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name for x in ast.walk(p)):
                        return True
                p = par.get(p)
            return False

        def lookup(e):
            """what an expression denotes: (module, ast node), ('module', name) or None"""
            if isinstance(e, ast.Name):
                if shadowed(e, e.id):
                    return None
                return self.resolve(m, e.id)
            if isinstance(e, ast.Attribute):
                d = lookup(e.value)
                if not isinstance(d, tuple) or d[0] != "module":
                    return None
                return self.member(m, d[1], e)
            return None
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute) and not isinstance(par.get(n), ast.Attribute):
                lookup(n)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                lookup(n)
            if isinstance(n, ast.Call):
                d = lookup(n.func)
                if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], ast.AST):
                    self.arity(m, n, d)

    def member(self, m, mod, e):
        """attribute of a module"""
        name = e.attr
        if self.inside(mod):
            b = self.module_binds(mod)
            self.n["module attributes"] += 1
            if b is None:
                return None
            if name in b:
                if isinstance(e.ctx, ast.Store):
                    return None
                return self.resolve(mod, name)
            if self.exists(mod + "." + name):
                return ("module", mod + "." + name)
            if name in BUILT or isinstance(e.ctx, ast.Store):
                return None
            bad = ("%s.%s" % (mod, name), self.where(m, e), "no such attribute")
            if bad not in self.bad:
                self.bad.append(bad)
            return None
        if mod.split(".")[0] not in LIBS:
            return None
        try:
            obj = importlib.import_module(mod)
        except Exception:
            return None
        self.n["module attributes"] += 1
        if hasattr(obj, name):
            return ("module", mod + "." + name)
        try:
            importlib.import_module(mod + "." + name)
            return ("module", mod + "." + name)
        except Exception:
            bad = ("%s.%s" % (mod, name), self.where(m, e), "no such attribute in the installed library")
            if bad not in self.bad:
                self.bad.append(bad)
        return None

    def arity(self, m, call, d, bound=0):
        dm, node = d
        if isinstance(node, ast.ClassDef):
            f, owner = self.method(dm, node, "__init__")
            bound = 1
            if f is None:
                return
            if f == "object":
                f = ast.parse("def __init__(self): pass").body[0]
        elif isinstance(node, ast.FunctionDef):
            f = node
            deco = [ast.unparse(x) for x in f.decorator_list]
            if any(x not in ("np.vectorize", "numpy.vectorize", "staticmethod") for x in deco):
                return
        else:
            return
        if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
            return
        self.n["calls"] += 1
        a = f.args
        pos = [x.arg for x in a.posonlyargs + a.args][bound:]
        kwo = [x.arg for x in a.kwonlyargs]
        where = self.where(m, call)
        label = "call of %s" % getattr(node, "name", "?")
        if len(call.args) > len(pos) and not a.vararg:
            self.bad.append((label, where, "%d positional arguments, %d accepted" % (len(call.args), len(pos))))
            return
        given = set(pos[:len(call.args)])
        for k in call.keywords:
            if k.arg in given:
                self.bad.append((label, where, "argument %s given twice" % k.arg))
            elif k.arg not in pos + kwo and not a.kwarg:
                self.bad.append((label, where, "unknown argument %s" % k.arg))
            given.add(k.arg)
        nd_ = len(a.defaults)
        req = pos[:len(pos) - nd_] if nd_ else pos
        req = req + [x for x, dd in zip(kwo, a.kw_defaults) if dd is None]
        miss = [x for x in req if x not in given]
        if miss:
            self.bad.append((label, where, "missing %s" % ", ".join(miss)))

    # ---------------------------------------------------------------- classes
    def bases(self, m, node):
        """[(module, ClassDef)] of the linearised bases, None when one is unknown"""
        out = [(m, node)]
        for b in node.bases:
            if isinstance(b, ast.Name) and b.id == "object":
                continue
            if isinstance(b, ast.Name) and b.id in BUILT:
                return None
            d = self.resolve(m, b.id) if isinstance(b, ast.Name) else None
            if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                q = self.resolve(m, b.value.id)
                if isinstance(q, tuple) and q[0] == "module" and self.inside(q[1]):
                    d = self.resolve(q[1], b.attr)
            if not (isinstance(d, tuple) and isinstance(d[1], ast.ClassDef)):
                return None
            sub = self.bases(*d)
            if sub is None:
                return None
            out += sub
        return out

    def method(self, m, node, name):
        mro = self.bases(m, node)
        if mro is None:
            return None, None
        for mm, c_ in mro:
            for n in c_.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    return n, (mm, c_)
        return "object", None

    def objects(self):
        """attributes read on self"""
        stored = set()
        for t in self.trees.values():
            for n in ast.walk(t):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                    stored.add(n.attr)
        own, dyn, kids = {}, set(), {}
        for key, node in self.classes.items():
            names = set()
            for n in ast.walk(node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                    names.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars") or isinstance(n, ast.Attribute) and n.attr == "__dict__":
                    dyn.add(key)
            for n in node.body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    names.add(n.name)
                    if n.name in ("__getattr__", "__getattribute__"):
                        dyn.add(key)
                else:
                    for x in ast.walk(n):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            names.add(x.id)
            own[key] = names
        mros = {key: self.bases(key[0], node) for key, node in self.classes.items()}
        for key, mro in mros.items():
            for mm, c_ in (mro or [])[1:]:
                kids.setdefault((mm, c_.name), set()).add(key)
        for key, node in self.classes.items():
            mro = mros[key]
            if mro is None:
                continue
            fam = {(mm, c_.name) for mm, c_ in mro} | kids.get(key, set())
            for k in list(fam):
                fam |= {(mm, c_.name) for mm, c_ in (mros.get(k) or [])}
            if fam & dyn:
                continue
            names = set().union(*[own.get(k, set()) for k in fam]) | stored | set(dir(object)) | {"__dict__"}
            for f in node.body:
                if not isinstance(f, ast.FunctionDef) or not f.args.args or any(ast.unparse(x) in ("staticmethod", "classmethod") for x in f.decorator_list):
                    continue
                me = f.args.args[0].arg
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load):
                        self.n["object attributes"] += 1
                        if n.attr not in names:
                            self.bad.append(("%s.%s reads self.%s" % (node.name, f.name, n.attr), self.where(key[0], n), "never set"))
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == me:
                        g_, ow = self.method(key[0], node, n.func.attr)
                        if isinstance(g_, ast.FunctionDef) and not g_.decorator_list and n.func.attr not in stored and \
                                not any(n.func.attr in {x.attr for x in ast.walk(self.classes[k]) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)} for k in fam) \
                                and not any(n.func.attr == y.name for k in kids.get(key, ()) for y in self.classes[k].body if isinstance(y, ast.FunctionDef)):
                            self.arity(key[0], n, (ow[0], g_), 1)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and ast.unparse(n.func.value) == "super()" and len(mro) > 1:
                        for mm, c_ in mro[1:]:
                            hit = [y for y in c_.body if isinstance(y, ast.FunctionDef) and y.name == n.func.attr]
                            if hit:
                                if not hit[0].decorator_list:
                                    self.arity(key[0], n, (mm, hit[0]), 1)
                                break
                        else:
                            if not hasattr(object, n.func.attr):
                                self.bad.append(("%s.%s" % (node.name, f.name), self.where(key[0], n), "no inherited %s" % n.func.attr))


def run(c):
    def resolution(c):
        p = Package(c.i)
        for m in sorted(p.trees):
            p.imports(m)
            p.names(m)
            p.chains(m)
        p.objects()
        for what, n_ in p.n.items():
            c.fact("%s resolve" % what, True if n_ else None, "%d %s looked up" % (n_, what), where="aerokit")
        for m in sorted(p.trees):
            bad = [b for b in p.bad if b[1].startswith(p.files[m] + ":") or b[1] == p.files[m]]
            if not bad:
                c.fact("references of %s" % m, True, "imports, names, attributes and call signatures resolve", where=p.files[m])
            for what, where, why in bad:
                c.fact(what, False, "imports, names, attributes and call signatures resolve", where=where, detail=why,
                       key=what.replace(" ", "-"))
    c.section(resolution)
    c.assumptions.append("Attributes of values other than modules and self, and names left unbound on some paths, are not decided")
