"""Errors raised by the caller's functions reach the caller."""

import ast

from .. import entries, scen
from ..terms import T, show
from ..world import Session

EXPLANATION = (
    "Exception-flow analysis. Every invocation of a caller-supplied function or of a metric object, in every public entry point, is "
    "examined together with the exception handlers that are active around it (across calls: the handlers of every function on the call "
    "path). A handler that can catch what the caller's function raises must re-raise on every path; suppressing context managers and "
    "`return`/`break` in a `finally` around such a call are violations too."
)
ASSUMPTIONS = ["a caller's function may raise any subclass of Exception, at any time"]

FIXTURE = '''
import contextlib
class A:
    def __init__(self, func):
        self.func = func
    def good(self, x):
        try:
            y = self.func(x)
        except ValueError as e:
            raise TypeError("bad") from e
        try:
            z = 1 / y
        except Exception:
            z = 0
        return z
    def swallow(self, x):
        try:
            return self._inner(x)
        except Exception:
            return None
    def _inner(self, x):
        return self.func(x)
    def suppress(self, x):
        with contextlib.suppress(Exception):
            return self.func(x)
    def final(self, x):
        try:
            y = self.func(x)
        finally:
            return 0
'''


def always_raises(stmts):
    """every path through the statements ends in a raise"""
    for s in stmts:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and always_raises(s.body) and always_raises(s.orelse):
            return True
        if isinstance(s, ast.With) and always_raises(s.body):
            return True
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return False
    return False


def leaves_finally(stmts):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Return):
                return True
    return False


def user_call(e):
    if e.kind == "callback":
        return True
    # a method of an object the library did not create (a metric of the caller)
    if e.kind == "extcall" and e.name.endswith(".compute") and e.recv is not None:
        if e.name == ".compute":
            return True
        return isinstance(e.recv, T) and e.recv.tag == "ref" and e.recv.a[0].kind == "param"
    return False


def caught_type(h):
    return "everything" if h.type is None else ast.unparse(h.type)


def harmless(h):
    """handlers of interpreter control signals only"""
    names = {n.id for n in ast.walk(h.type) if isinstance(n, ast.Name)} if h.type is not None else set()
    return bool(names) and names <= {"KeyboardInterrupt", "SystemExit", "GeneratorExit"}


def judge(ctx, events):
    for e in events:
        if not user_call(e):
            continue
        name = getattr(e, "label", None) or getattr(e, "name", "?")
        ctx.ob("invocation of a caller-supplied function", f"{e.where} {name}")
        for t in e.tries or ():
            for h in t.handlers:
                ctx.ob("handler active around such an invocation", f"{e.where}: except {caught_type(h)} at line {h.lineno}")
                if harmless(h) or always_raises(h.body):
                    continue
                ctx.fail("swallowed-error", f"{e.func}:{name}:{caught_type(h)}", f"an error raised by `{name}` is caught by `except {caught_type(h)}` (line {h.lineno}) and not re-raised", e)
            if t.finalbody and leaves_finally(t.finalbody):
                ctx.fail("swallowed-error", f"{e.func}:{name}:finally", f"an error raised by `{name}` is discarded by a return in `finally`", e)
        for w in e.withs or ():
            v = w[1] if isinstance(w, tuple) and len(w) > 1 else w
            if isinstance(v, T) and "contextlib.suppress" in show(v, 200):
                ctx.fail("swallowed-error", f"{e.func}:{name}:suppress", f"an error raised by `{name}` is discarded by contextlib.suppress", e)


def visit(ctx, sc, s, ev):
    ctx.ob("entry point", sc.name)
    judge(ctx, ev)


def selftest(ctx):
    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    got = {}
    for m in ("good", "swallow", "suppress", "final"):
        s = Session(w)
        o = s.new("A", [s.param("func", "callable")])
        s.method(o, m, [s.param("x")])
        sub = type(ctx)("C24", "quick", 1)
        judge(sub, s.take())
        got[m] = len(sub.findings)
    ctx.need(got == {"good": 0, "swallow": 1, "suppress": 1, "final": 1}, f"self-test: {got}")
    ctx.selftests.append("swallowing through a call, suppress and finally-return are reported; translation and handlers around other code are not")


def run(ctx):
    ctx.rule("every handler active around an invocation of a caller-supplied function re-raises on all paths")
    entries.catalogue(ctx, visit)
    ctx.at_least("entry point", 100)
    ctx.at_least("invocation of a caller-supplied function", 100)
