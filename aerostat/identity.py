"""Deciding whether two value numbers are equal on a declared domain.

Nothing of the analysed program runs here: what is compared are two *terms*, one
extracted from the source by the interpreter of `interp.py`, one written down from
the physics.  Two steps:

 1. `normal.prove_zero` (exact): both sides are brought to a normal form of
    generalised power products; equal normal forms prove the identity everywhere.
 2. random interpretation (Gulwani & Necula, POPL 2003/2004): if the normal forms
    do not settle it, both terms are interpreted over points of the declared
    domain, with every gate of the terms forced to both sides where the domain
    allows it.  Differing interpretations refute the identity (and give a witness);
    agreement on all points accepts it with the error probability of polynomial
    identity testing.
"""
import hashlib
import random

import mpmath
from mpmath import mp, mpf, mpc

from . import terms as tm
from .terms import T

mp.dps = 50
RTOL = mpf(10) ** -8


class Root:
    """A value the analysis knows to be a zero of the residuals it satisfies."""


class Domain:
    def __init__(self, **ranges):
        self.ranges = {}
        self.defs = []          # (name, term), evaluated in order
        self.where = []         # boolean terms
        self.roots = []         # candidate terms for root nodes
        self.appranges = {}     # opaque function -> (lo, hi)
        self.brackets = []      # intervals holding one root each, for roots without candidates
        self.funcs = {}         # opaque function -> python callable on mp numbers
        self.direct = True      # look for points on both sides of every gate
        for k, v in ranges.items():
            self.add(k, v)

    def add(self, name, spec):
        """spec: (lo, hi) or (lo, hi, 'log'|'int') or (lo, hi, kind, wide lo, wide hi) or list of choices.

        Most points are drawn between lo and hi; the wide range is part of the domain, too."""
        self.ranges[name] = spec
        return self

    def define(self, name, term):
        self.defs.append((name, tm.lift(term)))
        return self

    def require(self, cond):
        self.where.append(cond)
        return self

    def root(self, *cands):
        self.roots.extend(tm.lift(c) for c in cands)
        return self

    def copy(self):
        d = Domain()
        d.ranges = dict(self.ranges)
        d.defs = list(self.defs)
        d.where = list(self.where)
        d.roots = list(self.roots)
        d.appranges = dict(self.appranges)
        d.funcs = dict(self.funcs)
        d.brackets = list(self.brackets)
        d.direct = self.direct
        return d

    def describe(self):
        out = []
        for k, v in self.ranges.items():
            out.append("%s in %s" % (k, list(v)))
        for k, v in self.defs:
            out.append("%s := %s" % (k, tm.show(v, 120)))
        for w in self.where:
            out.append(tm.show(w, 120))
        return "; ".join(out)


# ---------------------------------------------------------------- evaluation
def _hash01(key):
    h = hashlib.sha256(key.encode()).digest()
    return mpf(int.from_bytes(h[:12], "big")) / mpf(1 << 96)


def _spread(spec, h):
    """Value of a range at the fraction h; both ends of [0, 1] go to the outer parts of a wide range."""
    if spec is None:
        spec = ("0.3", "1.9")
    lo, hi = mpf(spec[0]), mpf(spec[1])
    if len(spec) > 3:
        a, b = mpf(spec[3]), mpf(spec[4])
        if h < 0.08 and a < lo:
            lo, hi, h = a, lo, h / mpf("0.08")
        elif h > 0.92 and b > hi:
            lo, hi, h = hi, b, (h - mpf("0.92")) / mpf("0.08")
    if len(spec) > 2 and spec[2] == "log":
        return lo * (hi / lo) ** h
    return lo + (hi - lo) * h


def _key(v):
    if v is None:
        return "nan"
    if v is True or v is False:
        return str(v)
    if isinstance(v, mpc):
        return "%s|%s" % (mpmath.nstr(v.real, 11), mpmath.nstr(v.imag, 11))
    if abs(v) < mpf(10) ** -25:
        return "0.0"
    return mpmath.nstr(mpf(v), 11)


COUNT = [0]        # interpreted nodes
BUDGET = 200000    # of the directed search, per obligation


class Eval:
    """Interpretation of terms at one point."""

    def __init__(self, env, dom, parent=None, bound=frozenset()):
        self.env = env
        self.dom = dom
        self.cache = {}
        self.parent = parent
        self.bound = bound

    def __call__(self, t):
        c = self.cache
        if t in c:
            return c[t]
        # depth-first without blowing the Python stack on long chains
        stack = [t]
        while stack:
            x = stack[-1]
            if x in c:
                stack.pop()
                continue
            if self.parent is not None and x.op not in ("sym", "num", "lam") and not (tm.free_vars(x) & self.bound):
                c[x] = self.parent(x)
                stack.pop()
                continue
            if x.op == "ite":
                k = x.args[0]
                if k not in c:
                    stack.append(k)
                    continue
                arm = x.args[1] if c[k] else x.args[2]
                if arm not in c:
                    stack.append(arm)
                    continue
                c[x] = c[arm]
                stack.pop()
                continue
            if x.op == "app" and x.args[0] in ("root",):
                pend = [a for a in x.args[2:] if a not in c]
            elif x.op == "lam":
                pend = []
            else:
                pend = [a for a in tm.children(x) if a not in c and a.op != "lam"]
            if pend:
                stack.extend(pend)
                continue
            c[x] = self.node(x)
            stack.pop()
        return c[t]

    def sub(self, binding):
        env = dict(self.env)
        env.update(binding)
        return Eval(env, self.dom, self, frozenset(binding))

    def node(self, x):
        COUNT[0] += 1
        op = x.op
        c = self.cache
        if op == "num":
            q = x.args[0]
            return mpf(q.numerator) / mpf(q.denominator)
        if op == "sym":
            n = x.args[0]
            v = self.env.get(n)
            if v is None and n not in self.env:
                if n.startswith("?"):
                    return _hash01("bool" + n + str(self.env.get("@seed", 0))) < 0.5
                v = _spread(self.dom.appranges.get(n), _hash01(n + str(self.env.get("@seed", 0))))
                self.env[n] = v
            return v
        if op == "const":
            n = x.args[0]
            return {"pi": mp.pi + 0, "I": mpc(0, 1), "inf": mpf("inf"), "nan": None}[n]
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "not":
            return not c[x.args[0]]
        if op == "and":
            return all(c[a] for a in x.args)
        if op == "or":
            return any(c[a] for a in x.args)
        if op in ("lt", "le", "eq"):
            a, b = c[x.args[0]], c[x.args[1]]
            if a is None or b is None:
                return False
            if isinstance(a, bool) or isinstance(b, bool):
                return bool(a) == bool(b) if op == "eq" else False
            d = a - b
            if isinstance(d, mpc):
                if op == "eq":
                    return abs(d) < mpf(10) ** -25 * (1 + abs(a))
                d = d.real
            tiny = mpf(10) ** -25 * (1 + abs(a)) if abs(a) != mpf("inf") and abs(b) != mpf("inf") else 0
            if op == "eq":
                return abs(d) <= tiny
            return d < -tiny if op == "lt" else d <= tiny
        if op == "add":
            s = mpf(0)
            for a in x.args:
                v = c[a]
                if v is None:
                    return None
                s = s + (1 if v is True else 0 if v is False else v)
            return s
        if op == "mul":
            s = mpf(1)
            for a in x.args:
                v = c[a]
                if v is None:
                    return None
                s = s * (1 if v is True else 0 if v is False else v)
            return s
        if op == "pow":
            return self.pow(c[x.args[0]], c[x.args[1]])
        if op == "app":
            return self.app(x)
        if op == "lam":
            return ("lam", x)
        raise AssertionError(op)

    def pow(self, b, e):
        if b is None or e is None:
            return None
        try:
            if isinstance(b, mpc) or isinstance(e, mpc):
                return b ** e
            if b == 0:
                return mpf(0) if e > 0 else (mpf(1) if e == 0 else None)
            if e == int(e) and abs(e) < 10 ** 6:
                return b ** int(e)
            if b < 0:
                return None
            return b ** e
        except (OverflowError, ValueError, ZeroDivisionError):
            return None

    def lamkey(self, l):
        """A function is identified by its values at fixed probe arguments."""
        bv, body = l.args
        return ",".join(_key(self.sub({bv.args[0]: mpf(p)})(body)) for p in ("0", "1", "2", "5", "7", "11"))

    def app(self, x):
        f = x.args[0]
        dom = self.dom
        if f == "root":
            return self.root(x)
        vals = []
        for a in x.args[1:]:
            vals.append(None if a.op == "lam" else self.cache[a])
        fn = dom.funcs.get(f) or _FUNCS.get(f)
        if fn is not None and not any(a.op == "lam" for a in x.args[1:]):
            if any(v is None for v in vals):
                return None
            try:
                return fn(*vals)
            except (ValueError, ZeroDivisionError, OverflowError):
                return None
        if f in ("arr_argsort", "arr_sorted") and len(x.args) > 3 and None not in vals[1:3] and 0 <= vals[2] <= 64:
            bv, body = x.args[1].args
            xs = [self.sub({bv.args[0]: mpf(j)})(body) for j in range(int(vals[2]))]
            if any(v is None or isinstance(v, mpc) for v in xs) or not 0 <= vals[1] < len(xs):
                return None
            p = _ndargsort(vals[1], *xs)
            return p if f == "arr_argsort" else xs[int(p)]
        if f == "interp" and len(vals) == 4:
            return self.table(x, vals[0], vals[3])
        if f in _FOLDS and x.args[1].op == "lam":
            r = self.fold(f, x, vals)
            if r is not NotImplemented:
                return r
        keys = []
        for a, v in zip(x.args[1:], vals):
            keys.append(self.lamkey(a) if a.op == "lam" else _key(v))
        if any(k == "nan" for k in keys) and f not in ("⊤",):
            pass
        h = _hash01("%s(%s)#%s" % (f, ";".join(keys), self.env.get("@seed", 0)))
        if f.startswith("?"):
            return h < 0.5
        return _spread(dom.appranges.get(f, dom.appranges.get(f.split(":")[0])), h)

    def fold(self, f, x, vals):
        """A reduction of a finite array whose number of entries is known at this point."""
        sel = f.endswith("_sel")
        k = 3 if sel else 2
        if len(x.args) <= k or vals[k - 1] is None:
            return NotImplemented
        n = vals[k - 1]
        if n != int(n) or n < 0 or n > 5000:
            return NotImplemented
        bv, body = x.args[1].args
        xs = []
        for j in range(int(n)):
            ev = self.sub({bv.args[0]: mpf(j)})
            if sel and ev(tm.subst(x.args[2].args[1], {x.args[2].args[0]: bv})) is not True:
                continue
            xs.append(ev(body))
        base = f[:-4] if sel else f
        if base == "?any":
            return any(v is not None and v is not False and v != 0 for v in xs)
        if base == "?all":
            return all(v is None or (v is not False and v != 0) for v in xs)
        if not xs or any(v is None for v in xs):
            return None if base not in ("asum",) else (mpf(0) if not xs else None)
        xs = [mpf(1) if v is True else mpf(0) if v is False else v for v in xs]
        if base == "amin":
            return min(xs)
        if base == "amax":
            return max(xs)
        if base == "argmin":
            return mpf(xs.index(min(xs)))
        if base == "argmax":
            return mpf(xs.index(max(xs)))
        if base == "asum":
            return sum(xs, mpf(0))
        if base == "amean":
            return sum(xs, mpf(0)) / len(xs)
        if base == "aprod":
            r = mpf(1)
            for v in xs:
                r *= v
            return r
        return NotImplemented

    def table(self, x, v, n):
        """linear interpolation in an increasing table, by bisection"""
        if v is None or n is None or isinstance(v, (bool, mpc)) or n != int(n) or n < 1:
            return None
        xp, fp = (lambda j, a=a: self.sub({a.args[0].args[0]: mpf(j)})(a.args[1]) for a in x.args[2:4])
        lo, hi = 0, int(n) - 1
        a, b = xp(lo), xp(hi)
        if a is None or b is None:
            return None
        if v <= a:
            return fp(lo)
        if v >= b:
            return fp(hi)
        while hi - lo > 1:
            m = (lo + hi) // 2
            q = xp(m)
            if q is None:
                return None
            lo, hi = (m, hi) if q <= v else (lo, m)
        a, b, p, q = xp(lo), xp(hi), fp(lo), fp(hi)
        return None if None in (a, b, p, q) else p + (q - p) * (v - a) / (b - a)

    def bracketed(self, bv, body, g):
        """The root on the interval of the domain that holds the starting point."""
        def f(v):
            return self.sub({bv.args[0]: v})(body)
        for lo, hi in self.dom.brackets:
            lo, hi = mpf(lo), mpf(hi)
            if g is None or not lo <= _real(g) <= hi:
                continue
            a, b = f(lo), f(hi)
            if a is None or b is None:
                continue
            if a * b > 0:
                # a double root at the end of the interval, missed by rounding only
                tiny = mpf(10) ** -25 * max(abs(a), abs(b))
                if abs(a) <= tiny or abs(b) <= tiny:
                    return lo if abs(a) < abs(b) else hi
                continue
            r = zero_in(f, lo, hi, a, b)
            if r is not None:
                return r
        return None

    def root(self, x):
        l, guess = x.args[1], x.args[2]
        bv, body = l.args
        g = self.cache[guess] if guess in self.cache else self(guess)
        best = None
        for cand in self.dom.roots:
            if cand is x or x in set(tm.walk(cand)):
                continue
            v = self(cand)
            if v is None or isinstance(v, bool):
                continue
            r = self.sub({bv.args[0]: v})(body)
            if r is None:
                continue
            r2 = self.sub({bv.args[0]: v * mpf("1.001") + mpf("1e-3")})(body)
            scale = abs(r2) if r2 is not None else mpf(1)
            if abs(r) <= mpf(10) ** -9 * (scale if scale > 0 else 1):
                d = abs(v - g) if g is not None else mpf(0)
                if best is None or d < best[0]:
                    best = (d, v)
        if best is not None:
            return best[1]
        if self.dom.brackets:
            r = self.bracketed(bv, body, g)
            if r is not None:
                return r
        probes = [self.sub({bv.args[0]: mpf(p)})(body) for p in ("0.7", "1.3", "1.9", "2.7")]
        base = next((p for p in probes if p is not None and abs(p) > mpf(10) ** -20), None)
        keys = [_key(p / base) if p is not None and base is not None else _key(p) for p in probes]
        lo, hi = self.dom.appranges.get("root", (mpf("1.1"), mpf("1.9")))
        return lo + (hi - lo) * _hash01("root(%s)#%s" % (";".join(keys), self.env.get("@seed", 0)))


def zero_in(f, a, b, fa=None, fb=None):
    """Zero of f on [a, b] (sign change): Ridders' method, to about 30 digits."""
    fa = f(a) if fa is None else fa
    fb = f(b) if fb is None else fb
    if fa is None or fb is None or fa * fb > 0:
        return None
    if fa == 0:
        return a
    if fb == 0:
        return b
    last = None
    for _ in range(120):
        m = (a + b) / 2
        fm = f(m)
        if fm is None:
            return None
        if fm == 0:
            return m
        q = mpmath.sqrt(fm * fm - fa * fb)
        x = m + (m - a) * (1 if fa > fb else -1) * fm / q if q else m
        fx = f(x)
        if fx is None:
            return None
        if fx == 0 or abs(b - a) <= mpf(10) ** -28 * abs(x):
            return x
        if last is not None and abs(x - last) <= mpf(10) ** -29 * abs(x):
            return x
        last = x
        if (fm > 0) != (fx > 0):
            a, fa, b, fb = (m, fm, x, fx) if m < x else (x, fx, m, fm)
        elif (fx > 0) != (fa > 0):
            b, fb = x, fx
        else:
            a, fa = x, fx
    return (a + b) / 2


def _real(v):
    return v.real if isinstance(v, mpc) else v


def _asin(v):
    v = _real(v)
    if abs(v) > 1:
        if abs(v) < 1 + mpf(10) ** -20:
            v = mpf(1) if v > 0 else mpf(-1)
        else:
            return None
    return mpmath.asin(v)


def _acos(v):
    v = _real(v)
    if abs(v) > 1:
        if abs(v) < 1 + mpf(10) ** -20:
            v = mpf(1) if v > 0 else mpf(-1)
        else:
            return None
    return mpmath.acos(v)


def _log(v):
    if isinstance(v, mpc):
        return mpmath.log(v)
    return None if v <= 0 else mpmath.log(v)


def _mat(vals, m, n):
    if any(v is None for v in vals):
        return None
    return mpmath.matrix([[vals[r * n + c] for c in range(n)] for r in range(m)])


_SOLVED = {}


def _linsolve(k, m, n, *vals):
    """entry k of the solution of a linear system"""
    key = (m, n) + vals
    if key not in _SOLVED:
        m, n = int(m), int(n)
        with mpmath.extradps(10):
            x = mpmath.lu_solve(_mat(vals, m, n), mpmath.matrix(list(vals[m * n:])))
        if len(_SOLVED) > 200:
            _SOLVED.clear()
        _SOLVED[key] = list(x)
    return +_SOLVED[key][int(k)]


def _pencil(n, vals):
    """a pencil (A, B) up to a common factor of A and B"""
    n = int(n)
    big = max(abs(v) for v in vals[:n * n])
    s = next(v for v in vals if abs(v) > big * mpf("1e-9"))
    return ";".join(_key(v / s) for v in vals)


def _eigval(k, n, *vals):
    h = _pencil(n, vals)
    return mpc(4 * _hash01("re%d:%s" % (int(k), h)) - 2, 4 * _hash01("im%d:%s" % (int(k), h)) - 2)


def _eigvec(r, k, n, *vals):
    h = _pencil(n, vals)
    return mpc(4 * _hash01("vr%d,%d:%s" % (int(r), int(k), h)) - 2, 4 * _hash01("vi%d,%d:%s" % (int(r), int(k), h)) - 2)


def _csel(j, n, *vals):
    n = int(n)
    at = [k for k in range(n) if vals[k] != 0]
    if j != int(j) or not -len(at) <= j < len(at):
        raise ValueError
    return vals[n + at[int(j)]]


def _ndargsort(k, *vals):
    if any(isinstance(v, mpc) for v in vals):
        raise ValueError
    return mpf(sorted(range(len(vals)), key=lambda p: vals[p])[int(k)])


def _place(pick, vals):
    if any(isinstance(v, mpc) for v in vals):
        raise ValueError
    return mpf(vals.index(pick(vals)))


_FOLDS = {"amin", "amax", "argmin", "argmax", "asum", "amean", "aprod", "?any", "?all"}
_FOLDS |= {k + "_sel" for k in _FOLDS}

_FUNCS = {
    "log": _log, "exp": mpmath.exp, "sin": mpmath.sin, "cos": mpmath.cos, "tan": mpmath.tan,
    "asin": _asin, "acos": _acos, "atan": lambda v: mpmath.atan(v),
    "atan2": lambda a, b: mpmath.atan2(_real(a), _real(b)),
    "abs": abs, "sign": lambda v: mpf(0) if v == 0 else (mpf(1) if v > 0 else mpf(-1)),
    "sinh": mpmath.sinh, "cosh": mpmath.cosh, "tanh": mpmath.tanh,
    "asinh": mpmath.asinh, "acosh": lambda v: None if v < 1 else mpmath.acosh(v),
    "atanh": lambda v: None if abs(v) >= 1 else mpmath.atanh(v),
    "floor": mpmath.floor, "ceil": mpmath.ceil, "rint": mpmath.nint,
    "trunc": lambda v: mpmath.floor(v) if v >= 0 else mpmath.ceil(v),
    "real": lambda v: _real(v), "imag": lambda v: v.imag if isinstance(v, mpc) else mpf(0),
    "conj": lambda v: mpmath.conj(v),
    "?finite": lambda v: True, "?isnan": lambda v: False,
    "linsolve": _linsolve, "lsqsolve": _linsolve, "eigval": _eigval, "eigvec": _eigvec, "csel": _csel,
    "rounded": lambda v, d: mpmath.nint(v * mpf(10) ** d) / mpf(10) ** d,
    "argmin": lambda *v: _place(min, v), "argmax": lambda *v: _place(max, v),
    "gammafn": lambda v: mpmath.gamma(v),
    "nd_argsort": _ndargsort, "nd_sorted": lambda k, *v: v[int(_ndargsort(k, *v))],
}


# ------------------------------------------------------------ points
class Points:
    """Points of a domain, including points on both sides of every gate."""

    def __init__(self, dom, roots, n, seed):
        self.dom = dom
        self.rng = random.Random(seed)
        self.terms = roots
        self.names = [k for k in dom.ranges]
        self.base = []
        tries = 0
        while len(self.base) < n and tries < 60 * n:
            tries += 1
            raw = {k: self._draw(k) for k in self.names}
            e = self._close(raw, len(self.base))
            if e is not None:
                self.base.append((raw, e))
        self.points = [e for _, e in self.base]
        self.gates = 0
        self.gates_both = 0
        if self.base and dom.direct:
            self._direct()

    def _draw(self, k):
        spec = self.dom.ranges[k]
        if isinstance(spec, list):
            v = self.rng.choice(spec)
            return v if isinstance(v, bool) else mpf(v)
        lo, hi = mpf(spec[0]), mpf(spec[1])
        kind = spec[2] if len(spec) > 2 else "lin"
        if kind == "int":
            return mpf(self.rng.randint(int(lo), int(hi)))
        u = mpf(self.rng.random())
        if len(spec) > 3 and self.rng.random() < 0.12:
            # the outer parts of the wide range
            a, b = (mpf(spec[3]), lo) if self.rng.random() < 0.5 else (hi, mpf(spec[4]))
            lo, hi = (a, b) if a < b else (lo, hi)
        if kind == "log":
            return lo * (hi / lo) ** u
        return lo + (hi - lo) * u

    def _close(self, raw, seed):
        env = dict(raw)
        env["@seed"] = seed
        ev = Eval(env, self.dom)
        for name, t in self.dom.defs:
            v = Eval(env, self.dom)(t)
            if v is None:
                return None
            env[name] = v
        ev = Eval(env, self.dom)
        for w in self.dom.where:
            if ev(w) is not True:
                return None
        return ev

    def _grid(self, k):
        spec = self.dom.ranges[k]
        if isinstance(spec, list):
            return [v if isinstance(v, bool) else mpf(v) for v in spec]
        lo, hi = mpf(spec[0]), mpf(spec[1])
        kind = spec[2] if len(spec) > 2 else "lin"
        if kind == "int":
            return [mpf(i) for i in range(int(lo), int(hi) + 1)][:60]
        us = [mpf(i) / 24 for i in range(25)] + [mpf("1e-6"), 1 - mpf("1e-6"), mpf("1e-3"), 1 - mpf("1e-3")]
        out = []
        spans = [(lo, hi)]
        if len(spec) > 3:
            spans += [(mpf(spec[3]), lo), (hi, mpf(spec[4]))]
        for lo, hi in spans:
            if lo < hi:
                out += [lo * (hi / lo) ** u if kind == "log" else lo + (hi - lo) * u for u in us]
        return out

    def _direct(self):
        cmps = []
        for t in tm.walk(*self.terms):
            if t.op in ("lt", "le", "eq") and not any(s.startswith("@b") for s in tm.free_vars(t)):
                if not tm.is_bool(t.args[0]):
                    cmps.append(t)
                    # a gate on |x| may open only where x changes sign
                    for a in t.args:
                        for q in (a.args if a.op in ("add", "mul") else (a,)):
                            if q.op == "app" and q.args[0] == "abs":
                                cmps.append(tm.eq(q.args[1], tm.ZERO))
        cmps = [t for t in dict.fromkeys(cmps) if t.op in ("lt", "le", "eq")]
        dep = {}
        for d, term in self.dom.defs:
            dep[d] = tm.syms(term)
        # cheap gates first: those without the result of an iteration
        cmps.sort(key=lambda c: (bool(tm.apps("root", c)), not self._of_length(c), c.op != "eq"))
        end = COUNT[0] + BUDGET
        at_zero = set()
        for c in cmps[:60]:
            self.gates += 1
            if COUNT[0] > end:
                continue
            names = set(tm.syms(c))
            todo = list(names)
            while todo:
                s = todo.pop()
                for q in dep.get(s, ()):
                    if q not in names:
                        names.add(q)
                        todo.append(q)
            seen = set()
            for e in self.points:
                if id(e) not in at_zero:
                    s = self._sgn(c, e)
                    if s is not None:
                        seen.add(s)
            if len(seen) < 2 or c.op == "eq":
                free = [k for k in self.names if k in names]
                n0 = len(self.points)
                self._search(c, free, seen, end)
                # where a difference vanishes both branches of a gate around may agree
                if c.op == "eq":
                    at_zero.update(id(e) for e in self.points[n0:])
            if 1 in seen and (-1 in seen or 0 in seen):
                self.gates_both += 1

    def _sgn(self, c, e):
        a, b = e(c.args[0]), e(c.args[1])
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return None
        d = _real(a) - _real(b)
        if abs(d) <= mpf(10) ** -25 * (1 + abs(_real(a))):
            return 0
        return 1 if d > 0 else -1

    def _search(self, c, free, seen, end):
        added = 0
        for raw, _ in self.base[:4]:
            for k in free:
                prev = None
                if COUNT[0] > end:
                    return
                for v in sorted(self._grid(k)) + self._sizes(k, c, seen):
                    if COUNT[0] > end or len(seen) > 1 and v > self._top(k):
                        return
                    r = dict(raw)
                    r[k] = v
                    e = self._close(r, self.rng.randint(0, 9))
                    if e is None:
                        prev = None
                        continue
                    s = self._sgn(c, e)
                    if s is None:
                        continue
                    if s not in seen:
                        seen.add(s)
                        self.points.append(e)
                        added += 1
                    if prev is not None and s != prev[1] and v > self._top(k):
                        self._threshold(c, raw, k, prev, (v, s))
                        return
                    if prev is not None and s != prev[1] and not self._discrete(k):
                        self._bisect(c, raw, k, prev, (v, s), seen)
                        added += 1
                        if added > 10:
                            return
                    prev = (v, s)

    def _top(self, k):
        """largest usual value of an array length"""
        spec = self.dom.ranges[k]
        return mpf(spec[1]) if k == "n" and not isinstance(spec, list) and len(spec) == 3 and spec[2] == "int" else mpf("inf")

    @staticmethod
    def _of_length(c):
        n = tm.sym("n")
        return c.op != "eq" and any(x is n or x.op == "add" and n in x.args for x in c.args)

    def _sizes(self, k, c, seen):
        """longer arrays, for a comparison of their length that the usual ones do not decide both ways"""
        top = self._top(k)
        if len(seen) > 1 or top == mpf("inf") or not self._of_length(c) or tm.apps("root", c):
            return []
        return [mpf(v) for v in (12, 25, 50, 100, 250, 600, 1500, 4000) if v > top]

    def _threshold(self, c, raw, k, a, b):
        x, y = int(a[0]), int(b[0])
        while y - x > 1:
            m = (x + y) // 2
            e = self._close(dict(raw, **{k: mpf(m)}), 0)
            s = None if e is None else self._sgn(c, e)
            if s is None:
                break
            x, y = (m, y) if s == a[1] else (x, m)
        end = 2 * y
        alone = any(q is tm.sym("n") for q in c.args)
        at = "@i" in raw
        todo = [(x, None), (y, None)] + ([(v, q) for v in (x, y) for q in (3 * v // 4, v - 1)] if at else [])
        if not alone:
            todo += [(end, end - 1 if at else None)] * 4
        for seed, (v, q) in enumerate(todo):
            e = self._close(dict(raw, **{k: mpf(v)}, **({} if q is None else {"@i": mpf(q)})), 11 + seed)
            if e is not None:
                self.points.append(e)

    def _discrete(self, k):
        spec = self.dom.ranges[k]
        return isinstance(spec, list) or len(spec) > 2 and spec[2] == "int"

    def _bisect(self, c, raw, k, a, b, seen):
        (x, sx), (y, sy) = a, b
        for _ in range(90):
            m = (x + y) / 2
            r = dict(raw)
            r[k] = m
            e = self._close(r, 0)
            if e is None:
                return
            s = self._sgn(c, e)
            if s is None:
                return
            if s == sx:
                x = m
            else:
                y = m
        for v in (x, y, x + (x - y) * 0 + (a[0] - x) * mpf("1e-4"), y + (b[0] - y) * mpf("1e-4"), (x + y) / 2):
            r = dict(raw)
            r[k] = v
            # thresholds written as short decimals are hit exactly
            e = self._close(r, self.rng.randint(0, 9))
            if e is not None:
                s = self._sgn(c, e)
                if s is not None:
                    seen.add(s)
                self.points.append(e)
        q = mpf(mpmath.nstr(x, 9))
        r = dict(raw)
        r[k] = q
        e = self._close(r, self.rng.randint(0, 9))
        if e is not None:
            self.points.append(e)


class Verdict:
    """status: 'proved' | 'agree' | 'differ' | 'undecided'"""

    def __init__(self, status, detail="", witness=None, points=0, gates=0, gates_both=0):
        self.status = status
        self.detail = detail
        self.witness = witness or {}
        self.points = points
        self.gates = gates
        self.gates_both = gates_both

    @property
    def ok(self):
        return self.status in ("proved", "agree")


def fmt(v):
    if v is None:
        return "undefined (nan)"
    if isinstance(v, bool):
        return str(v)
    return mpmath.nstr(v, 10)


def _witness(e, names, extra):
    w = {}
    for n in names:
        if n in e.env and not n.startswith("@"):
            w[n] = fmt(e.env[n])
    w.update(extra)
    return w


def close(a, b, rtol=RTOL, scale=0):
    if a is None and b is None:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, tuple) or isinstance(b, tuple):
        return a == b
    if a == b:
        return True
    m = max(abs(a), abs(b), scale)
    return abs(a - b) <= rtol * m + mpf(10) ** -24


SEED = 1
NPOINTS = 24


# reductions and functions of arrays that have no interpretation of their own
_OPEN = {"astd", "avar", "aptp", "amedian", "acount", "arr_cumsum", "arr_cumprod", "arr_diff", "trapz", "unique", "spacing"}


def unknown(code, spec, dom):
    """library functions in `code` of which nothing is known, not even that the requirement has them"""
    def names(t):
        return {x.args[0] for x in tm.walk(t) if x.op == "app" and isinstance(x.args[0], str)
                and (x.args[0].startswith("ext:") or x.args[0].split("_sel")[0] in _OPEN)}
    got = names(code)
    if got:
        got = got - names(spec) - set(dom.funcs)
    return sorted(got | {s for s in tm.free_syms(code) - tm.free_syms(spec) if s.split("#")[0] in ("len", "id", "hash") and "#" in s})


def equal(code, spec, dom, n=None, rtol=None, scale=None, exact=True):
    """Is `code` equal to `spec` wherever `spec` is defined on `dom`?"""
    code, spec = tm.lift(code), tm.lift(spec)
    top = tm.has_top(code)
    if top:
        return Verdict("undecided", "value not resolved: %s" % top)
    rt = RTOL if rtol is None else mpf(rtol)
    if code is spec:
        return Verdict("proved", "same value number")
    if exact:
        from . import normal
        r = normal.prove_equal(code, spec, dom)
        if r:
            return Verdict("proved", r)
    pts = Points(dom, [code, spec], n or NPOINTS, SEED)
    used = 0
    for e in pts.points:
        s = e(spec)
        if s is None:
            continue
        used += 1
        v = e(code)
        sc = abs(e(tm.lift(scale))) if scale is not None else 0
        if not close(v, s, rt, sc):
            lib = unknown(code, spec, dom)
            if lib:
                return Verdict("undecided", "library function not interpreted: %s" % lib[0].removeprefix("ext:"))
            names = sorted(tm.free_syms(code) | tm.free_syms(spec) | set(dom.ranges))
            return Verdict("differ", "terms differ", _witness(e, names, {"found": fmt(v), "required": fmt(s)}),
                           used, pts.gates, pts.gates_both)
    if used < 3:
        return Verdict("undecided", "no point of the domain interprets both sides (%d)" % used)
    return Verdict("agree", "random interpretation", None, used, pts.gates, pts.gates_both)


def holds(cond, dom, n=None):
    """Is the boolean term true everywhere on `dom`?"""
    cond = tm.lift(cond)
    top = tm.has_top(cond)
    if top:
        return Verdict("undecided", "value not resolved: %s" % top)
    if cond is tm.TRUE:
        return Verdict("proved", "constant")
    pts = Points(dom, [cond], n or NPOINTS, SEED)
    for e in pts.points:
        if e(cond) is not True:
            lib = unknown(cond, tm.TRUE, dom)
            if lib:
                return Verdict("undecided", "library function not interpreted: %s" % lib[0].removeprefix("ext:"))
            names = sorted(tm.free_syms(cond) | set(dom.ranges))
            return Verdict("differ", "condition is false", _witness(e, names, {"condition": tm.show(cond, 200)}),
                           len(pts.points), pts.gates, pts.gates_both)
    if len(pts.points) < 3:
        return Verdict("undecided", "no points")
    return Verdict("agree", "random interpretation", None, len(pts.points), pts.gates, pts.gates_both)


def independent(code, names, dom, n=None):
    """Does the value not depend on the symbols `names` (exact or prefix with *)?"""
    code = tm.lift(code)
    fs = tm.free_syms(code)
    match = lambda s: any(s == p or (p.endswith("*") and s.startswith(p[:-1])) for p in names)
    hit = sorted(s for s in fs if match(s))
    # entries of a table left by earlier calls
    held = [t for t in tm.walk(code) if t.op == "app" and isinstance(t.args[0], str) and match(t.args[0])]
    top = tm.has_top(code)
    if not hit and not held:
        if top:
            return Verdict("undecided", "value not resolved: %s" % top)
        return Verdict("proved", "symbol not in the value's dependence set")
    d = dom.copy()
    m = {}
    for s in hit:
        m[tm.sym(s)] = tm.sym(s + "'")
        for q in (s, s + "'"):
            if q not in d.ranges and not q.startswith("?"):
                d.add(q, d.appranges.get(s, (mpf("1.05"), mpf("1.9"))))
    for t in held:
        m[t] = tm.app(t.args[0] + "'", *t.args[1:])
    other = tm.subst(code, m)
    pts = Points(d, [code, other], n or NPOINTS, SEED)
    used = 0
    for e in pts.points:
        a, b = e(code), e(other)
        if a is None and b is None:
            continue
        used += 1
        if not close(a, b):
            return Verdict("differ", "depends on %s" % ", ".join(hit + sorted({t.args[0] for t in held})),
                           _witness(e, sorted(fs), {"with one value": fmt(a), "with another": fmt(b)}), used)
    if top:
        return Verdict("undecided", "value not resolved: %s" % top)
    if used < 3:
        return Verdict("undecided", "no points")
    return Verdict("agree", "random interpretation", None, used)
