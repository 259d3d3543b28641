"""Obligations, evidence files, exit codes."""
import json
import os
import time
import traceback

from . import identity as idn
from . import terms as tm
from .interp import Anchor, RaiseSignal, Unsupported, Interp, State
from .terms import T
from . import history

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("AEROSTAT_REPO", "/repo")


def load_findings():
    """known_findings.txt: `known: property=<id> key=<key> :: text` and `fixed: ...`"""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("known:"):
                    head, _, text = line[len("known:"):].partition("::")
                    kv = dict(p.split("=", 1) for p in head.split())
                    out[(kv["property"], kv["key"])] = text.strip()
    return out


J, N = tm.sym("j"), tm.sym("n")


class Obligation:
    def __init__(self, name, where, rule, status, detail="", witness=None, terms=None, points=0, gates=0):
        self.name, self.where, self.rule, self.status = name, where, rule, status
        self.detail, self.witness, self.terms = detail, witness or {}, terms or {}
        self.points, self.gates = points, gates

    def js(self):
        d = {"obligation": self.name, "construct": self.where, "rule": self.rule, "status": self.status}
        if self.detail:
            d["detail"] = self.detail
        if self.witness:
            d["witness"] = self.witness
        if self.terms:
            d["terms"] = self.terms
        return d


class Check:
    def __init__(self, prop, tier="quick", seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.obs = []
        self.missing = []
        self.known_hits = []
        self.assumptions = []
        self.findings = load_findings()
        self._interp = None
        self.used = set()
        self.sites = 0
        self.thorough = tier == "thorough"
        idn.SEED = seed
        if self.thorough:
            idn.NPOINTS = 96
            idn.BUDGET = 3000000
        self.pending = []
        self.last_where = ""
        self.many = False       # calls get arrays, of which one entry is looked at

    # ------------------------------------------------------------- interpreter
    @property
    def i(self):
        if self._interp is None:
            self._interp = Interp(ROOT)
            for n in sorted(self._interp.trees):
                self._interp.module(n)
            self.hist = history.prepare(self._interp)
            self._base = dict(self._interp.state.heap)
            self._basemods = dict(self._interp.modules)
            self._basegaps = list(self._interp.gaps)
        return self._interp

    def reset(self):
        """back to the state right after import (plus arbitrary history)"""
        i = self.i
        i.state = State(dict(self._base))
        i.pc = []
        i.callstack = []
        i.events = []
        i.gaps = list(self._basegaps)
        i.cond_raises = []
        i.solves = []
        i.loops = []
        i.assumed = []
        i.opaque = {}
        i.peel = None
        i.taint_defaults = False
        i.hist_stores = {}
        self.pending = []
        return i

    def get(self, dotted):
        try:
            f = self.i.get(dotted)
        except RaiseSignal as e:
            raise Anchor("%s: %s" % (dotted, e))
        self.last_where = self.where_of(f)
        return f

    def where_of(self, f):
        i = self.i
        try:
            if hasattr(f, "func"):
                f = f.func
            if hasattr(f, "fget"):
                f = f.fget
            return "%s:%d %s" % (i.relpath(f.module), f.node.lineno, getattr(f, "qual", getattr(f, "name", "")))
        except AttributeError:
            return str(f)

    def call(self, f, *args, **kw):
        """Value of a call; exceptions possible inside are queued as conditions that
        must be impossible on the domain the next obligation is decided on."""
        i = self.i
        if isinstance(f, str):
            f = self.get(f)
        else:
            self.last_where = self.where_of(f)
        n = len(i.cond_raises)
        ne = len(i.events)
        v = i.call(f, list(args), kw)
        for pc, sig in i.cond_raises[n:]:
            self.pending.append((tm.notv(pc), "raises %s" % (sig,)))
        for e in i.events[ne:]:
            if e.kind == "assert":
                self.pending.append((tm.orv(tm.notv(e.pc), e.data["cond"]), "assertion at %s" % e.where))
        return v

    # -------------------------------------------------------------- obligations
    def add(self, name, where, rule, status, detail="", **kw):
        if status == "violated" and self._interp is not None and self._interp.gaps:
            status, detail = "undecided", "not interpreted: %s" % self._interp.gaps[0]
        o = Obligation(name, where or self.last_where, rule, status, detail, **kw)
        self.obs.append(o)
        return o

    def fact(self, name, ok, rule, where=None, detail="", key=None):
        """A structural fact (True / False / None = undecided)."""
        if ok is False and key and (self.prop, key) in self.findings:
            self.known_hits.append((key, name))
            return self.add(name, where, rule, "known", detail)
        return self.add(name, where, rule, "undecided" if ok is None else ("proved" if ok else "violated"), detail)

    def identity(self, name, code, spec, dom, where=None, rule="value-number equality", rtol=None, scale=None,
                 n=None, known=(), cond=None):
        """code == spec on dom.  known: [(finding key, defective form)]: when the code
        equals the recorded defective form, that is the recorded finding."""
        if code is None or isinstance(code, str):
            return self.fact(name, False, rule, where=where, detail="%r where a number is due" % (code,))
        name, dom, code = self.entry(name, dom, code)
        if self.many and isinstance(spec, T):
            spec = tm.subst(spec, {tm.IDX: J})
        self.flush(name, dom, where)
        code = history.resolve(self.i, code)
        v = idn.equal(code, spec, dom, n=n, rtol=rtol, scale=scale)
        return self.verdict(name, v, where, rule, code, spec, dom, known, rtol)

    def condition(self, name, cond, dom, where=None, rule="condition holds on the domain", n=None):
        name, dom, cond = self.entry(name, dom, cond)
        self.flush(name, dom, where)
        v = idn.holds(cond, dom, n=n)
        return self.verdict(name, v, where, rule, cond, tm.TRUE, dom, (), None)

    def independent(self, name, code, names, dom, where=None, rule="dependence set", n=None):
        self.flush(name, dom, where)
        code = history.resolve(self.i, code)
        v = idn.independent(code, names, dom, n=n)
        return self.verdict(name, v, where, rule, code, None, dom, (), None)

    def spread(self, t):
        """an array whose entry J is t, the others being arbitrary values of the same domain"""
        m = {s: tm.ite(tm.eq(tm.IDX, J), s, tm.app("A_" + s.args[0], tm.IDX))
             for s in map(tm.sym, tm.free_syms(t)) if not s.args[0].startswith(("gam", "?", "hist:", "dflt:", "@"))}
        return self.i.np.new_arr(self.i, tm.subst(t, m), N) if m else t

    def entry(self, name, dom, t):
        if not self.many:
            return name, dom, t
        dom = dom.copy()
        dom.add("j", (0, 5, "int")).add("n", (1, 6, "int")).require(tm.lt(J, N))
        for k, v in list(dom.ranges.items()):
            if not isinstance(v, list):
                dom.appranges.setdefault("A_" + k, v)
        m = {tm.IDX: J}
        self.pending = [(tm.subst(q, m), why) for q, why in self.pending]
        return "array: " + name, dom, tm.subst(t, m) if isinstance(t, T) else t

    def verdict(self, name, v, where, rule, code, spec, dom, known, rtol):
        if v.status == "differ":
            for key, form in known:
                if (self.prop, key) in self.findings and idn.equal(code, form, dom, rtol=rtol).ok:
                    self.known_hits.append((key, name))
                    return self.add(name, where, rule, "known", "equals the recorded defective form")
        st = {"proved": "proved", "agree": "agree", "differ": "violated", "undecided": "undecided"}[v.status]
        terms = {}
        if st == "violated":
            terms = {"found": tm.show(tm.lift(code), 400)}
            if spec is not None:
                terms["required"] = tm.show(tm.lift(spec), 400)
            terms["domain"] = dom.describe() if hasattr(dom, "describe") else ""
        return self.add(name, where, rule, st, v.detail, witness=v.witness, terms=terms, points=v.points, gates=v.gates)

    def flush(self, name, dom, where):
        """no exception on the domain"""
        todo, self.pending = self.pending, []
        for cond, why in todo:
            v = idn.holds(cond, dom, n=8)
            if v.status == "differ":
                self.add(name + ": no exception", where, "exception unreachable on the domain", "violated", why,
                         witness=v.witness)
            elif v.status == "undecided":
                self.add(name + ": no exception", where, "exception unreachable on the domain", "undecided", v.detail)
            else:
                self.add(name + ": no exception", where, "exception unreachable on the domain", v.status, why,
                         points=v.points)

    def sections(self, *fns):
        """each group on scalars, then on one entry of arrays"""
        for self.many in (False, True):
            for fn in fns:
                self.section(fn, ("array: " if self.many else "") + fn.__name__)
        self.many = False

    def section(self, fn, name=None):
        """One group of obligations, from a clean state. An exception of the analysed
        code that is certain is a violation; one of the analyser leaves the group
        undecided; a vanished anchor breaks the run."""
        self.reset()
        label = name or fn.__name__
        try:
            fn(self)
        except RaiseSignal as e:
            self.add(label, self.last_where, "no exception on the domain", "violated", "raises %s" % e)
        except Anchor as e:
            self.missing.append("%s: %s" % (label, e))
        except Exception as e:  # analyser limits
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.add(label, self.last_where, "-", "undecided",
                     "analyser: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        finally:
            i = self.i
            self.used |= i.functions_seen

    # ------------------------------------------------------------------ results
    def finish(self):
        i = self._interp
        by = {}
        for o in self.obs:
            by.setdefault(o.status, []).append(o)
        viol = by.get("violated", [])
        undec = by.get("undecided", [])
        good = by.get("proved", []) + by.get("agree", [])
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "Source of the working tree parsed and interpreted abstractly (value numbering over "
                               "gated joins, no execution); each obligation is one rule applied to one construct. "
                               "'proved': decided exactly (same value number / normal form / structural fact). "
                               "'agree': identity of terms accepted by random interpretation on the declared domain.",
                "obligations": len(self.obs),
                "decided_exactly": len(by.get("proved", [])),
                "decided_by_random_interpretation": len(by.get("agree", [])),
                "undecided": len(undec),
                "known": len(by.get("known", [])),
                "violated": len(viol),
                "interpretation_points": sum(o.points for o in self.obs),
                "functions_analysed": sorted(self.used),
                "call_sites_interpreted": i.call_sites if i else 0,
                "modules_parsed": len(i.trees) if i else 0,
                "constructs": sorted({o.where for o in self.obs if o.where}),
                "rules": sorted({o.rule for o in self.obs}),
                "obligation_list": [[o.name, o.where, o.status] for o in self.obs][:400],
                "undecided_list": [o.js() for o in undec][:60],
            },
            "wall_s": round(time.time() - self.t0, 3),
            "assumptions": self.assumptions,
            "violations": [o.js() for o in viol],
        }
        evdir = os.environ.get("AEROSTAT_EVIDENCE", os.path.join(HERE, "evidence"))
        os.makedirs(evdir, exist_ok=True)
        path = os.path.join(evdir, "%s.json" % self.prop)
        with open(path, "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1, default=str)
        for key in sorted({k for k, _ in self.known_hits}):
            print("KNOWN-FINDING: property=%s %s %s" % (self.prop, key, self.findings.get((self.prop, key), "")))
        print("%s: %d obligations, %d exact, %d by random interpretation, %d undecided, %d violated, %.1fs"
              % (self.prop, len(self.obs), len(by.get("proved", [])), len(by.get("agree", [])), len(undec),
                 len(viol), time.time() - self.t0))
        for o in undec[:12]:
            print("  undecided: %s [%s] %s" % (o.name, o.where, o.detail))
        if viol:
            rp = os.path.join(evdir, "%s.violation.json" % self.prop)
            with open(rp, "w", encoding="utf-8") as fh:
                json.dump({"property": self.prop, "rerun": "python3-vt run.py %s" % self.prop,
                           "violations": [o.js() for o in viol]}, fh, indent=1, default=str)
            for o in viol[:20]:
                print("  violated: %s\n    at %s\n    rule: %s\n    %s %s" % (o.name, o.where, o.rule, o.detail, o.witness))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if self.missing:
            for m in self.missing:
                print("anchor lost: %s" % m)
            return 2
        if not good:
            print("nothing could be decided")
            return 2
        return 0
