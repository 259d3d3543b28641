"""Value numbers: hash-consed terms of the abstract value domain.

A term is what the analyser knows about a number the analysed program computes:
a finite expression DAG over the symbols of the analysis (parameters, attributes,
opaque library results), with `ite` gates where control flow joined.  Two terms
that are the same object are the same value number.
"""
from fractions import Fraction
import itertools

_table = {}
_next = itertools.count()

BOOL_OPS = {"lt", "le", "eq", "and", "or", "not", "true", "false"}


class T:
    __slots__ = ("op", "args", "id", "__weakref__")
    __array_priority__ = 1000.0

    def __new__(cls, op, args):
        key = (op, args)
        t = _table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t.id = next(_next)
            _table[key] = t
        return t

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __reduce__(self):
        raise TypeError("terms are not pickled")

    # -- arithmetic ---------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(self, o)

    def __radd__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(o, self)

    def __sub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(self, mul(MINUS1, o))

    def __rsub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(o, mul(MINUS1, self))

    def __mul__(self, o):
        o = lift(o)
        return NotImplemented if o is None else mul(self, o)

    def __rmul__(self, o):
        o = lift(o)
        return NotImplemented if o is None else mul(o, self)

    def __truediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else mul(self, power(o, MINUS1))

    def __rtruediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else mul(o, power(self, MINUS1))

    def __pow__(self, o):
        o = lift(o)
        return NotImplemented if o is None else power(self, o)

    def __rpow__(self, o):
        o = lift(o)
        return NotImplemented if o is None else power(o, self)

    def __neg__(self):
        return mul(MINUS1, self)

    def __pos__(self):
        return self

    def __bool__(self):
        raise TypeError("the truth of a term is not known")

    def __repr__(self):
        return show(self)


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return num(x)
    if isinstance(x, Fraction):
        return num(x)
    if isinstance(x, float):
        return fnum(x)
    if isinstance(x, complex):
        return add(fnum(x.real), mul(fnum(x.imag), I))
    return None


def num(x):
    return T("num", (Fraction(x),))


def fnum(x):
    """A float literal stands for the decimal the programmer wrote."""
    if x != x:
        return NAN
    if x in (float("inf"), float("-inf")):
        return INF if x > 0 else mul(MINUS1, INF)
    return num(Fraction(repr(float(x))))


def sym(name):
    return T("sym", (name,))


def app(f, *args):
    return T("app", (f,) + tuple(args))


def lam(bv, body):
    """A function of the bound symbol bv, canonical up to renaming."""
    canon = sym("@b%d" % _binder_depth(body))
    return T("lam", (canon, subst(body, {bv: canon})))


def _binder_depth(t):
    seen, best, todo = set(), 0, [t]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "lam":
            best = max(best, int(x.args[0].args[0][2:]) + 1)
        todo.extend(a for a in x.args if isinstance(a, T))
    return best


ZERO = num(0)
ONE = num(1)
TWO = num(2)
MINUS1 = num(-1)
HALF = num(Fraction(1, 2))
TRUE = T("true", ())
FALSE = T("false", ())
PI = T("const", ("pi",))
I = T("const", ("I",))
INF = T("const", ("inf",))
NAN = T("const", ("nan",))
IDX = sym("@i")


def is_num(t):
    return t.op == "num"


def is_bool(t):
    return t.op in BOOL_OPS or (t.op == "sym" and t.args[0].startswith("?")) or (
        t.op == "app" and t.args[0].startswith("?")) or (
        t.op == "ite" and is_bool(t.args[1]) and is_bool(t.args[2]))


def is_int(t):
    return t.op == "num" and t.args[0].denominator == 1


def _split(t):
    """t = coefficient * rest"""
    if t.op == "num":
        return t.args[0], ONE
    if t.op == "mul" and t.args[0].op == "num":
        rest = t.args[1:]
        return t.args[0].args[0], rest[0] if len(rest) == 1 else T("mul", rest)
    return Fraction(1), t


def add(*terms):
    acc = {}
    const = Fraction(0)
    stack = list(reversed(terms))
    while stack:
        t = stack.pop()
        if t.op in BOOL_OPS:
            t = ite(t, ONE, ZERO)
        if t.op == "add":
            stack.extend(reversed(t.args))
        elif t.op == "num":
            const += t.args[0]
        else:
            c, r = _split(t)
            acc[r] = acc.get(r, 0) + c
    out = []
    for r in sorted(acc, key=lambda x: x.id):
        c = acc[r]
        if c == 0:
            continue
        out.append(r if c == 1 else mul(num(c), r))
    if const != 0:
        out.insert(0, num(const))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return T("add", tuple(out))


def mul(*terms):
    coef = Fraction(1)
    acc = {}
    stack = list(reversed(terms))
    while stack:
        t = stack.pop()
        if t.op in BOOL_OPS:
            t = ite(t, ONE, ZERO)
        if t.op == "mul":
            stack.extend(reversed(t.args))
        elif t.op == "num":
            coef *= t.args[0]
        elif t.op == "pow":
            b, e = t.args
            acc[b] = add(acc[b], e) if b in acc else e
        else:
            acc[t] = add(acc[t], ONE) if t in acc else ONE
    if coef == 0:
        return ZERO
    out = []
    for b in sorted(acc, key=lambda x: x.id):
        p = power(b, acc[b])
        if p.op == "num":
            coef *= p.args[0]
        elif p.op == "mul":
            # a power of a product may have been distributed
            for q in p.args:
                if q.op == "num":
                    coef *= q.args[0]
                else:
                    out.append(q)
        else:
            out.append(p)
    if coef == 0:
        return ZERO
    out.sort(key=lambda x: x.id)
    if not out:
        return num(coef)
    if coef != 1:
        out.insert(0, num(coef))
    if len(out) == 1:
        return out[0]
    return T("mul", tuple(out))


def power(b, e):
    if b.op in BOOL_OPS:
        b = ite(b, ONE, ZERO)
    if e.op == "num":
        k = e.args[0]
        if k == 0:
            return ONE
        if k == 1:
            return b
        if b.op == "num":
            v = b.args[0]
            if k.denominator == 1 and abs(k) <= 400:
                if v != 0 or k > 0:
                    return num(v ** int(k))
            elif v > 0 and k.denominator == 2 and abs(k.numerator) <= 9:
                r = _fsqrt(v)
                if r is not None:
                    return num(r ** k.numerator)
        if b is I and k.denominator == 1:
            return [ONE, I, MINUS1, mul(MINUS1, I)][int(k) % 4]
        if b.op == "pow" and b.args[1].op == "num" and k.denominator == 1:
            return power(b.args[0], num(b.args[1].args[0] * k))
        if b.op == "mul" and k.denominator == 1:
            return mul(*[power(x, e) for x in b.args])
    if b is ONE:
        return ONE
    return T("pow", (b, e))


def _isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def _fsqrt(v):
    a, b = _isqrt(v.numerator), _isqrt(v.denominator)
    return None if a is None or b is None else Fraction(a, b)


def sqrt(x):
    return power(lift(x), HALF)


def _fn(name):
    def f(x):
        x = lift(x)
        if name == "log" and x is ONE:
            return ZERO
        if name == "exp" and x is ZERO:
            return ONE
        if x is ZERO and name in ("sin", "tan", "asin", "atan", "sinh", "tanh", "abs", "sign"):
            return ZERO
        if x is ZERO and name in ("cos", "cosh"):
            return ONE
        if name in ("abs",) and x.op == "num":
            return num(abs(x.args[0]))
        if name == "sign" and x.op == "num":
            return num(0 if x.args[0] == 0 else (1 if x.args[0] > 0 else -1))
        return app(name, x)
    return f


log = _fn("log")
exp = _fn("exp")
sin = _fn("sin")
cos = _fn("cos")
tan = _fn("tan")
asin = _fn("asin")
acos = _fn("acos")
atan = _fn("atan")
sinh = _fn("sinh")
cosh = _fn("cosh")
tanh = _fn("tanh")
absv = _fn("abs")
sign = _fn("sign")
floor = _fn("floor")


def atan2(a, b):
    return app("atan2", lift(a), lift(b))


def maximum(a, b):
    a, b = lift(a), lift(b)
    return a if a is b else ite(lt(a, b), b, a)


def minimum(a, b):
    a, b = lift(a), lift(b)
    return a if a is b else ite(lt(b, a), b, a)


DEG = mul(PI, num(Fraction(1, 180)))
RAD = mul(num(180), power(PI, MINUS1))


# -- conditions ---------------------------------------------------------------
def _cmp(op, a, b):
    a, b = lift(a), lift(b)
    if a.op == "num" and b.op == "num":
        x, y = a.args[0], b.args[0]
        return TRUE if {"lt": x < y, "le": x <= y, "eq": x == y}[op] else FALSE
    if a is b and "nan" not in a.args:
        return FALSE if op == "lt" else TRUE
    if op == "eq":
        if is_bool(a) and is_bool(b):
            if b in (TRUE, FALSE):
                a, b = b, a
            if a is TRUE:
                return b
            if a is FALSE:
                return notv(b)
        if a.id > b.id:
            a, b = b, a
    if op in ("lt", "le"):
        # infinities
        pass
    return T(op, (a, b))


def lt(a, b):
    return _cmp("lt", a, b)


def le(a, b):
    return _cmp("le", a, b)


def gt(a, b):
    return _cmp("lt", b, a)


def ge(a, b):
    return _cmp("le", b, a)


def eq(a, b):
    return _cmp("eq", a, b)


def ne(a, b):
    return notv(eq(a, b))


def notv(a):
    a = lift(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return T("not", (a,))


def truthy(a):
    a = lift(a)
    if is_bool(a):
        return a
    if a.op == "num":
        return FALSE if a.args[0] == 0 else TRUE
    if a.op == "ite":
        return ite(a.args[0], truthy(a.args[1]), truthy(a.args[2]))
    return ne(a, ZERO)


def andv(*xs):
    out = []
    for x in xs:
        x = truthy(x)
        for y in (x.args if x.op == "and" else (x,)):
            if y is FALSE:
                return FALSE
            if y is TRUE or y in out:
                continue
            if notv(y) in out:
                return FALSE
            out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", tuple(sorted(out, key=lambda t: t.id)))


def orv(*xs):
    out = []
    for x in xs:
        x = truthy(x)
        for y in (x.args if x.op == "or" else (x,)):
            if y is TRUE:
                return TRUE
            if y is FALSE or y in out:
                continue
            if notv(y) in out:
                return TRUE
            out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return T("or", tuple(sorted(out, key=lambda t: t.id)))


def ite(c, a, b):
    a, b = lift(a), lift(b)
    c = truthy(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if is_bool(a) and is_bool(b):
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return notv(c)
        if a is TRUE:
            return orv(c, b)
        if b is FALSE:
            return andv(c, a)
        if a is FALSE:
            return andv(notv(c), b)
        if b is TRUE:
            return orv(notv(c), a)
    # the same gate again inside an arm is already decided
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return T("ite", (c, a, b))


# -- traversal ----------------------------------------------------------------
def rebuild(t, args):
    op = t.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "pow":
        return power(*args)
    if op == "ite":
        return ite(*args)
    if op in ("lt", "le", "eq"):
        return _cmp(op, *args)
    if op == "and":
        return andv(*args)
    if op == "or":
        return orv(*args)
    if op == "not":
        return notv(*args)
    if op == "app":
        f = t.args[0]
        if f in _UNARY and len(args) == 1:
            return _UNARY[f](args[0])
        return app(f, *args)
    if op == "lam":
        return T("lam", (t.args[0], args[0]))
    return T(op, tuple(args))


_UNARY = {"log": log, "exp": exp, "sin": sin, "cos": cos, "tan": tan, "asin": asin,
          "acos": acos, "atan": atan, "abs": absv, "sign": sign, "sinh": sinh,
          "cosh": cosh, "tanh": tanh, "floor": floor}


def children(t):
    if t.op == "app":
        return t.args[1:]
    if t.op == "lam":
        return t.args[1:]
    return tuple(a for a in t.args if isinstance(a, T))


def subst(t, m, _memo=None):
    """Replace terms (usually symbols) by terms, everywhere."""
    memo = {} if _memo is None else _memo

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        ch = children(x)
        if not ch:
            r = x
        else:
            new = []
            same = True
            for a in ch:
                if isinstance(a, T):
                    b = go(a)
                    same = same and b is a
                    new.append(b)
                else:
                    new.append(a)
            r = x if same else rebuild(x, new)
        memo[x] = r
        return r

    return go(t)


def walk(*roots):
    seen = set()
    todo = [r for r in roots if isinstance(r, T)]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        todo.extend(a for a in children(x) if isinstance(a, T))


def syms(*roots):
    return {x.args[0] for x in walk(*roots) if x.op == "sym"}


_free = {}


def free_vars(t):
    """Names of the symbols free in t (bound variables of enclosing functions included)."""
    r = _free.get(t)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _free:
            stack.pop()
            continue
        ch = [a for a in children(x) if isinstance(a, T)]
        pend = [a for a in ch if a not in _free]
        if pend:
            stack.extend(pend)
            continue
        if x.op == "sym":
            v = frozenset((x.args[0],))
        elif not ch:
            v = frozenset()
        else:
            v = _free[ch[0]]
            for a in ch[1:]:
                v = v | _free[a] if not _free[a] <= v else v
            if x.op == "lam":
                v = v - {x.args[0].args[0]}
        _free[x] = v
        stack.pop()
    return _free[t]


def free_syms(t):
    return {s for s in syms(t) if not s.startswith("@b")}


def apps(f, *roots):
    return [x for x in walk(*roots) if x.op == "app" and x.args[0] == f]


def has_top(*roots):
    for x in walk(*roots):
        if x.op == "sym" and x.args[0].startswith("⊤"):
            return x.args[0]
        if x.op == "app" and x.args[0].startswith("⊤"):
            return x.args[0]
    return None


# -- printing -----------------------------------------------------------------
def show(t, limit=400):
    s = _show(t, 0, 9)
    return s if len(s) <= limit else s[: limit - 3] + "..."


def _fr(q):
    if q.denominator == 1:
        return str(q.numerator)
    f = float(q)
    if Fraction(repr(f)) == q and len(repr(f)) < 12:
        return repr(f)
    return "%d/%d" % (q.numerator, q.denominator)


def _show(t, prec, depth):
    if not isinstance(t, T):
        return str(t)
    if depth < 0:
        return "…"
    d = depth - 1
    op = t.op
    if op == "num":
        s = _fr(t.args[0])
        return "(%s)" % s if prec > 1 and (s.startswith("-") or "/" in s) else s
    if op in ("sym", "const"):
        return str(t.args[0])
    if op == "add":
        s = " + ".join(_show(a, 1, d) for a in t.args)
        return "(%s)" % s if prec > 0 else s
    if op == "mul":
        s = "*".join(_show(a, 2, d) for a in t.args)
        return "(%s)" % s if prec > 2 else s
    if op == "pow":
        if t.args[1] is HALF:
            return "sqrt(%s)" % _show(t.args[0], 0, d)
        return "%s**%s" % (_show(t.args[0], 3, d), _show(t.args[1], 3, d))
    if op == "app":
        return "%s(%s)" % (t.args[0], ", ".join(_show(a, 0, d) for a in t.args[1:]))
    if op == "lam":
        return "λ%s.%s" % (t.args[0].args[0], _show(t.args[1], 0, d))
    if op == "ite":
        return "[%s ? %s : %s]" % tuple(_show(a, 0, d) for a in t.args)
    if op in ("lt", "le", "eq"):
        return "%s %s %s" % (_show(t.args[0], 1, d), {"lt": "<", "le": "<=", "eq": "=="}[op], _show(t.args[1], 1, d))
    if op in ("and", "or"):
        return "(" + (" %s " % op).join(_show(a, 0, d) for a in t.args) + ")"
    if op == "not":
        return "not(%s)" % _show(t.args[0], 0, d)
    return op


# -- differentiation ------------------------------------------------------------
def diff(t, x):
    """Derivative of an analytic term with respect to the symbol x (gates branch-wise)."""
    memo = {}

    def d(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = go(t)
        return r

    def go(t):
        if t is x:
            return ONE
        if x.args[0] not in free_syms(t):
            return ZERO
        op = t.op
        if op == "add":
            return add(*[d(a) for a in t.args])
        if op == "mul":
            return add(*[mul(*[d(b) if j == k else b for j, b in enumerate(t.args)]) for k in range(len(t.args))])
        if op == "pow":
            b, e = t.args
            out = mul(e, power(b, add(e, num(-1))), d(b))
            return add(out, mul(t, log(b), d(e)))
        if op == "ite":
            return ite(t.args[0], d(t.args[1]), d(t.args[2]))
        if op == "app" and len(t.args) == 2:
            f, a = t.args
            k = {"log": lambda: power(a, num(-1)), "exp": lambda: t, "sin": lambda: cos(a), "cos": lambda: mul(num(-1), sin(a)),
                 "tan": lambda: add(ONE, mul(t, t)), "asin": lambda: power(add(ONE, mul(num(-1), a, a)), num(Fraction(-1, 2))),
                 "acos": lambda: mul(num(-1), power(add(ONE, mul(num(-1), a, a)), num(Fraction(-1, 2)))),
                 "atan": lambda: power(add(ONE, mul(a, a)), num(-1)), "sinh": lambda: cosh(a), "cosh": lambda: sinh(a),
                 "tanh": lambda: add(ONE, mul(num(-1), t, t))}.get(f)
            if k is not None:
                return mul(k(), d(a))
        return app("⊤", t)

    return d(t)
