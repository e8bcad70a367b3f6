"""Path-sensitive definite assignment over one function's syntax tree.

A state is (facts, unbound): what the path is known to have decided (conditions, constants held by locals) and which locals are
not bound yet. Branches whose condition contradicts the facts are not taken, so a use guarded by the condition that guarded the
assignment is fine. Loops that are not known to be skipped are taken at least once (an empty iterable is not reported)."""

import ast

CAP = 192
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
NEGOP = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
_MISSING = object()


def bound_names(fn):
    """names that are local to fn (assigned somewhere in it), without parameters"""
    out, skip = set(), set()

    def tgt(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(c.name)
                for d in c.decorator_list:
                    go(d)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, COMP):
                for x in ast.walk(c):
                    if isinstance(x, ast.NamedExpr):
                        tgt(x.target)
                continue
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                skip.update(c.names)
                continue
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add((a.asname or a.name).split(".")[0])
                continue
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            if isinstance(c, (ast.MatchAs, ast.MatchStar)) and c.name:
                out.add(c.name)
            if isinstance(c, ast.MatchMapping) and c.rest:
                out.add(c.rest)
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            go(c)

    for b in fn.body:
        go(ast.Module(body=[b], type_ignores=[]))
    return out - skip


def params(fn):
    a = fn.args
    return [x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs, *([a.vararg] if a.vararg else []), *([a.kwarg] if a.kwarg else [])]]


class Definite:
    def __init__(self, fn, noreturn=lambda call: False):
        self.fn = fn
        self.noreturn = noreturn
        self.locals = bound_names(fn) - set(params(fn))
        self.found = {}  # (name, line) -> node
        self.uses = 0
        self.paths = 0
        self.brk, self.cont, self.ret, self.probe = [], [], [], []

    def run(self):
        st = {(frozenset(), frozenset(self.locals))}
        self.block(self.fn.body, st)
        return self

    # -------------------------------------------------------- facts
    @staticmethod
    def roots(e):
        return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)} | {"." + n.attr for n in ast.walk(e) if isinstance(n, ast.Attribute)}

    def norm(self, e):
        """(key, polarity, roots) of an atomic condition"""
        pol = True
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e, pol = e.operand, not pol
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in NEGOP:
            e = ast.Compare(left=e.left, ops=[NEGOP[type(e.ops[0])]()], comparators=e.comparators)
            pol = not pol
        if isinstance(e, ast.Call) and not (isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "len", "hasattr", "bool", "callable")):
            # the answer of an arbitrary call may differ the next time
            return None, pol, ()
        return ast.dump(e), pol, frozenset(self.roots(e))

    def const(self, e, facts):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            for f in facts:
                if f[0] == "c" and f[1] == e.id:
                    return f[2]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.const(e.operand, facts)
            return -v if isinstance(v, (int, float)) and not isinstance(v, bool) else _MISSING
        return _MISSING

    def decide(self, e, facts):
        if isinstance(e, ast.BoolOp):
            r = [self.decide(x, facts) for x in e.values]
            if isinstance(e.op, ast.And):
                return False if False in r else True if all(x is True for x in r) else None
            return True if True in r else False if all(x is False for x in r) else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = self.decide(e.operand, facts)
            return None if r is None else not r
        v = self.const(e, facts)
        if v is not _MISSING:
            return bool(v)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.const(e.left, facts), self.const(e.comparators[0], facts)
            if a is not _MISSING and b is not _MISSING:
                try:
                    return {
                        ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b,
                        ast.GtE: lambda: a >= b, ast.Is: lambda: a is b, ast.IsNot: lambda: a is not b,
                    }[type(e.ops[0])]()
                except Exception:
                    return None
        k, pol, _ = self.norm(e)
        if k is not None:
            for f in facts:
                if f[0] == "t" and f[1] == k:
                    return f[2] == pol
        return None

    def assume(self, e, val, facts):
        """facts after e evaluated to val, or None if impossible"""
        d = self.decide(e, facts)
        if d is not None:
            return facts if d == val else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.assume(e.operand, not val, facts)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And) == val:
                for x in e.values:
                    facts = self.assume(x, val, facts)
                    if facts is None:
                        return None
                return facts
            rest = [x for x in e.values if self.decide(x, facts) is None]
            if len(rest) == 1:
                return self.assume(rest[0], val, facts)
        k, pol, roots = self.norm(e)
        if k is None:
            return facts
        return facts | {("t", k, pol == val, roots)}

    def kill(self, facts, names):
        return frozenset(f for f in facts if not (f[0] == "t" and f[3] & names or f[0] == "c" and f[1] in names))

    # -------------------------------------------------------- expressions
    def use(self, node, states):
        if node.id in self.locals:
            self.uses += 1
            if any(node.id in u for _, u in states):
                self.found.setdefault((node.id, node.lineno), node)

    def expr(self, e, states, bound=frozenset()):
        """check the uses in e; returns the states after it (walrus)"""
        if e is None or not states:
            return states
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in bound:
                self.use(e, states)
            return states
        if isinstance(e, ast.IfExp):
            states = self.expr(e.test, states, bound)
            a, b = self.split(e.test, states)
            return self.expr(e.body, a, bound) | self.expr(e.orelse, b, bound)
        if isinstance(e, ast.BoolOp):
            cur, out = states, set()
            for i, x in enumerate(e.values):
                cur = self.expr(x, cur, bound)
                if i < len(e.values) - 1:
                    t, f = self.split(x, cur)
                    cur, done = (t, f) if isinstance(e.op, ast.And) else (f, t)
                    out |= done
            return out | cur
        if isinstance(e, ast.Lambda):
            for d in [*e.args.defaults, *[d for d in e.args.kw_defaults if d]]:
                states = self.expr(d, states, bound)
            return states  # runs later
        if isinstance(e, COMP):
            b = set(bound)
            inner = states
            for i, g in enumerate(e.generators):
                inner = self.expr(g.iter, inner, frozenset(b))
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        b.add(n.id)
                for c in g.ifs:
                    inner = self.expr(c, inner, frozenset(b))
                    inner, _ = self.split(c, inner)
            for x in [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]:
                self.expr(x, inner, frozenset(b))
            return states
        if isinstance(e, ast.NamedExpr):
            states = self.expr(e.value, states, bound)
            return self.bind(e.target, states, e.value)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                states = self.expr(c, states, bound)
            elif isinstance(c, ast.keyword):
                states = self.expr(c.value, states, bound)
            elif isinstance(c, ast.comprehension):
                pass
            elif isinstance(c, (ast.Slice, ast.FormattedValue)):
                states = self.expr(c, states, bound)
        return states

    def split(self, test, states):
        t, f = set(), set()
        for facts, u in states:
            a = self.assume(test, True, facts)
            if a is not None:
                t.add((a, u))
            b = self.assume(test, False, facts)
            if b is not None:
                f.add((b, u))
        return t, f

    def bind(self, target, states, value=None):
        names, attrs = set(), set()
        for n in ast.walk(target):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                attrs.add("." + n.attr)
        if not isinstance(target, ast.Name):
            for n in ast.walk(target):  # a[i] = .. uses a and i
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    self.use(n, states)
                    if isinstance(target, ast.Subscript):
                        attrs.add(n.id)
        out = set()
        for facts, u in states:
            new = None
            if isinstance(target, ast.Name) and value is not None:
                v = self.const(value, facts)
                if v is not _MISSING and isinstance(v, (int, float, str, bool, type(None))):
                    new = ("c", target.id, v)
                elif isinstance(value, (ast.Compare, ast.BoolOp)) and target.id not in self.roots(value):
                    d = self.decide(value, facts)
                    if d is not None:
                        new = ("c", target.id, d)
            f = self.kill(facts, frozenset(names | attrs))
            if new:
                f = f | {new}
            out.add((f, u - names))
        return out

    # -------------------------------------------------------- statements
    def cap(self, states):
        if len(states) <= CAP:
            return states
        by = {}
        for f, u in states:
            by[u] = f if u not in by else by[u] & f
        return {(f, u) for u, f in by.items()}

    def block(self, stmts, states):
        for s in stmts:
            if not states:
                return states
            for p in self.probe:
                p |= states
            states = self.cap(self.stmt(s, states))
        for p in self.probe:
            p |= states
        return states

    def loop(self, s, states, test=None):
        self.brk.append(set())
        self.cont.append(set())
        exits, seen, cur = set(), set(), states
        for rnd in range(12):
            if test is not None:
                cur = self.expr(test, cur)
                enter, leave = self.split(test, cur)
                if rnd:
                    exits |= leave
                else:
                    exits |= {x for x in cur if self.decide(test, x[0]) is False}
                cur = enter
            else:
                cur = self.expr(s.iter, cur) if rnd == 0 else cur
                if rnd:
                    exits |= cur
                cur = self.bind(s.target, cur)
            cur = {x for x in cur if x not in seen}
            if not cur:
                break
            seen |= cur
            end = self.block(s.body, cur)
            cur = self.cap(end | self.cont[-1])
            self.cont[-1] = set()
            if rnd > 3:  # converge: forget what the path decided
                by = {}
                for f, u in cur:
                    by[u] = f if u not in by else by[u] & f
                cur = {(f, u) for u, f in by.items()}
        else:
            exits |= cur
        if not exits and test is None:
            exits |= cur
        b = self.brk.pop()
        self.cont.pop()
        if s.orelse:
            exits = self.block(s.orelse, exits)
        return exits | b

    def stmt(self, s, st):
        if isinstance(s, ast.Expr):
            st = self.expr(s.value, st)
            return set() if isinstance(s.value, ast.Call) and self.noreturn(s.value) else st
        if isinstance(s, ast.Assign):
            st = self.expr(s.value, st)
            for t in s.targets:
                st = self.bind(t, st, s.value)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return st
            return self.bind(s.target, self.expr(s.value, st), s.value)
        if isinstance(s, ast.AugAssign):
            st = self.expr(s.value, st)
            if isinstance(s.target, ast.Name):
                self.use(s.target, st)
            return self.bind(s.target, st)
        if isinstance(s, (ast.Return,)):
            self.ret.append(len(self.expr(s.value, st)))
            return set()
        if isinstance(s, ast.Raise):
            self.expr(s.cause, self.expr(s.exc, st))
            return set()
        if isinstance(s, ast.If):
            st = self.expr(s.test, st)
            a, b = self.split(s.test, st)
            return self.block(s.body, a) | self.block(s.orelse, b)
        if isinstance(s, ast.While):
            return self.loop(s, st, s.test)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            return self.loop(s, st)
        if isinstance(s, ast.Break):
            self.brk[-1] |= st
            return set()
        if isinstance(s, ast.Continue):
            self.cont[-1] |= st
            return set()
        if isinstance(s, ast.Assert):
            st = self.expr(s.test, st)
            a, b = self.split(s.test, st)
            self.expr(s.msg, b)
            return a
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.bind(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            self.probe.append(set())
            out = self.block(s.body, st)
            mid = self.cap(self.probe.pop())
            for p in self.probe:
                p |= mid
            if s.orelse:
                out = self.block(s.orelse, out)
            for h in s.handlers:
                hs = self.expr(h.type, mid)
                if h.name:
                    hs = {(self.kill(f, frozenset({h.name})), u - {h.name}) for f, u in hs}
                out = out | self.block(h.body, hs)
            if s.finalbody:
                nxt = self.block(s.finalbody, out)
                self.block(s.finalbody, mid)
                out = nxt
            return out
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.use(t, st)
                    st = {(self.kill(f, frozenset({t.id})), u | ({t.id} & self.locals)) for f, u in st}
                else:
                    st = self.bind(t, st)
            return st
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                st = self.expr(d, st)
            if not isinstance(s, ast.ClassDef):
                for d in [*s.args.defaults, *[d for d in s.args.kw_defaults if d]]:
                    st = self.expr(d, st)
            return {(f, u - {s.name}) for f, u in st}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            nm = {(a.asname or a.name).split(".")[0] for a in s.names}
            return {(f, u - nm) for f, u in st}
        if isinstance(s, ast.Match):
            st = self.expr(s.subject, st)
            out, rest = set(), st
            for c in s.cases:
                nm = {n.name for n in ast.walk(c.pattern) if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name}
                nm |= {n.rest for n in ast.walk(c.pattern) if isinstance(n, ast.MatchMapping) and n.rest}
                inn = {(self.kill(f, frozenset(nm)), u - nm) for f, u in rest}
                if c.guard is not None:
                    inn = self.expr(c.guard, inn)
                    inn, _ = self.split(c.guard, inn)
                out |= self.block(c.body, inn)
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                    rest = set()
            return out | rest
        return st


def check(fn, noreturn=lambda c: False):
    return Definite(fn, noreturn).run()
