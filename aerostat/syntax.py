"""Source constructs rewritten into plainer ones before interpretation."""
import ast


def _const(v):
    return ast.Constant(value=v)


def _name(n, store=False):
    return ast.Name(id=n, ctx=ast.Store() if store else ast.Load())


def _call(f, *args):
    return ast.Call(func=_name(f), args=list(args), keywords=[])


def _bind(name, value):
    """an expression that is true and gives `name` its value"""
    return ast.Compare(left=ast.Tuple(elts=[ast.NamedExpr(target=_name(name, True), value=value)], ctx=ast.Load()),
                       ops=[ast.IsNot()], comparators=[_const(None)])


class _Unknown(Exception):
    pass


def _test(p, subject):
    """conditions, in order, under which the pattern matches; [] when it always does"""
    if isinstance(p, ast.MatchValue):
        return [ast.Compare(left=subject, ops=[ast.Eq()], comparators=[p.value])]
    if isinstance(p, ast.MatchSingleton):
        return [ast.Compare(left=subject, ops=[ast.Is()], comparators=[_const(p.value)])]
    if isinstance(p, ast.MatchAs):
        out = _test(p.pattern, subject) if p.pattern is not None else []
        return out + ([_bind(p.name, subject)] if p.name else [])
    if isinstance(p, ast.MatchOr):
        alts = [_test(q, subject) for q in p.patterns]
        if any(not a for a in alts):
            return []
        return [ast.BoolOp(op=ast.Or(), values=[_all(a) for a in alts])]
    if isinstance(p, ast.MatchSequence):
        out = [_call("isinstance", subject, ast.Tuple(elts=[_name("tuple"), _name("list")], ctx=ast.Load()))]
        star = [k for k, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
        n = len(p.patterns)
        size = _call("len", subject)
        if not star:
            out.append(ast.Compare(left=size, ops=[ast.Eq()], comparators=[_const(n)]))
        else:
            out.append(ast.Compare(left=size, ops=[ast.GtE()], comparators=[_const(n - 1)]))
        for k, q in enumerate(p.patterns):
            if isinstance(q, ast.MatchStar):
                if q.name:
                    up = k - n + 1
                    cut = ast.Slice(lower=_const(k), upper=_const(up) if up else None, step=None)
                    out.append(_bind(q.name, _call("list", ast.Subscript(value=subject, slice=cut, ctx=ast.Load()))))
                continue
            at = k if not star or k < star[0] else k - n
            out += _test(q, ast.Subscript(value=subject, slice=_const(at), ctx=ast.Load()))
        return out
    if isinstance(p, ast.MatchMapping) and p.rest is None:
        out = [_call("isinstance", subject, _name("dict"))]
        for k, q in zip(p.keys, p.patterns):
            out.append(ast.Compare(left=k, ops=[ast.In()], comparators=[subject]))
            out += _test(q, ast.Subscript(value=subject, slice=k, ctx=ast.Load()))
        return out
    if isinstance(p, ast.MatchClass):
        out = [_call("isinstance", subject, p.cls)]
        if p.patterns:
            own = isinstance(p.cls, ast.Name) and p.cls.id in ("bool", "bytearray", "bytes", "dict", "float", "frozenset",
                                                               "int", "list", "set", "str", "tuple")
            if not own or len(p.patterns) > 1:
                raise _Unknown
            out += _test(p.patterns[0], subject)
        for a, q in zip(p.kwd_attrs, p.kwd_patterns):
            out.append(_call("hasattr", subject, _const(a)))
            out += _test(q, ast.Attribute(value=subject, attr=a, ctx=ast.Load()))
        return out
    raise _Unknown


def _all(tests):
    if not tests:
        return _const(True)
    return tests[0] if len(tests) == 1 else ast.BoolOp(op=ast.And(), values=tests)


class _Plain(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_Expr(self, node):
        """`yield from` in a statement of its own hands out the values one by one"""
        self.generic_visit(node)
        if not isinstance(node.value, ast.YieldFrom):
            return node
        self.n += 1
        name = "yield from %d" % self.n
        out = ast.For(target=_name(name, True), iter=node.value.value,
                      body=[ast.Expr(value=ast.Yield(value=_name(name)))], orelse=[])
        ast.copy_location(out, node)
        return ast.fix_missing_locations(out)

    def visit_Match(self, node):
        self.generic_visit(node)
        self.n += 1
        name = "match subject %d" % self.n
        try:
            cases = []
            for c in node.cases:
                tests = _test(c.pattern, _name(name))
                if c.guard is not None:
                    tests = tests + [c.guard]
                cases.append((tests, c.body))
        except _Unknown:
            return node
        rest = []
        for tests, body in reversed(cases):
            rest = [ast.If(test=_all(tests), body=body, orelse=rest)] if tests else body
        out = [ast.Assign(targets=[_name(name, True)], value=node.subject)] + rest
        for s in out:
            ast.copy_location(s, node)
            ast.fix_missing_locations(s)
        return out


def plain(tree):
    return _Plain().visit(tree)
