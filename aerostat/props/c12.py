"""C12 default-gas registry."""
from .common import *

DG = "aerokit.common.defaultgas."


def registry(c):
    x, y, z, w = (sym(k) for k in ("g1", "g2", "r1", "r2"))
    d = dom(g1=GAM, g2=GAM, r1=(100, 4000, "log", "1e-3", "1e6"), r2=(100, 4000, "log", "1e-3", "1e6"))
    q = lambda k: scal(c, c.call(DG + k))
    st = lambda k, v: c.call(DG + k, v)
    g0, r0 = q("gamma"), q("r_ideal")
    st("set_gamma", x)
    c.identity("gamma() is the value set", q("gamma"), x, d, rule="last write is the value read")
    c.identity("setting gamma leaves r", q("r_ideal"), r0, d, rule="frame condition")
    st("set_r_ideal", z)
    c.identity("r_ideal() is the value set", q("r_ideal"), z, d, rule="last write is the value read")
    c.identity("setting r leaves gamma", q("gamma"), x, d, rule="frame condition")
    c.call(DG + "save_default")
    c.identity("saving changes nothing (gamma)", q("gamma"), x, d, rule="frame condition")
    c.identity("saving changes nothing (r)", q("r_ideal"), z, d, rule="frame condition")
    st("set_gamma", y)
    st("set_r_ideal", w)
    c.identity("changes after saving (gamma)", q("gamma"), y, d, rule="last write is the value read")
    c.identity("changes after saving (r)", q("r_ideal"), w, d, rule="last write is the value read")
    c.call(DG + "restore_default")
    c.identity("restored gamma", q("gamma"), x, d, rule="restore returns the values in force at save")
    c.identity("restored r", q("r_ideal"), z, d, rule="restore returns the values in force at save")
    st("set_gamma", y)
    st("set_r_ideal", w)
    c.call(DG + "restore_default")
    c.identity("restored gamma, second time", q("gamma"), x, d, rule="restore returns the values in force at save")
    c.identity("restored r, second time", q("r_ideal"), z, d, rule="restore returns the values in force at save")
    st("set_gamma", y)
    st("set_r_ideal", w)
    c.call(DG + "save_default")
    st("set_gamma", x)
    st("set_r_ideal", z)
    c.call(DG + "restore_default")
    c.identity("a later save replaces the earlier one (gamma)", q("gamma"), y, d, rule="restore returns the values in force at save")
    c.identity("a later save replaces the earlier one (r)", q("r_ideal"), w, d, rule="restore returns the values in force at save")


def bystanders(c):
    """computing anything leaves the registry alone"""
    i = c.i
    for name, (path, tree) in [(n, i.trees[n][:2]) for n in sorted(i.trees)]:
        if name == "aerokit.common.defaultgas":
            continue
        bad = registry_writes(tree, i, name)
        c.fact("%s does not write the registry" % name, not bad, "no call of set_/save_/restore_ and no store into the registry",
               where="%s" % i.relpath(name) if hasattr(i, "relpath") else name, detail="; ".join(bad))


def registry_writes(tree, i, name):
    import ast
    alias, direct, bad = set(), {}, []
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name == "aerokit.common.defaultgas":
                    alias.add(a.asname or a.name)
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name == "defaultgas":
                    alias.add(a.asname or a.name)
                elif n.module and n.module.endswith("defaultgas"):
                    direct[a.asname or a.name] = a.name
    W = ("set_gamma", "set_r_ideal", "save_default", "restore_default")
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and ast.unparse(n.value) in alias:
            if n.attr in W:
                bad.append("line %d: %s" % (n.lineno, ast.unparse(n)))
            elif isinstance(n.ctx, (ast.Store, ast.Del)):
                bad.append("line %d: store to %s" % (n.lineno, ast.unparse(n)))
        elif isinstance(n, ast.Name) and direct.get(n.id) in W and isinstance(n.ctx, ast.Load):
            bad.append("line %d: %s" % (n.lineno, n.id))
    return bad


def run(c):
    for s in (registry, bystanders):
        c.section(s)
