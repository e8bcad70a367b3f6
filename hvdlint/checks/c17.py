"""No function fails on its own naming: locals assigned, names, imports and own attributes defined, internal calls well-formed."""

import ast
import builtins

from .. import assigned, entries, scen
from ..interp import ClassObj
from ..terms import K

EXPLANATION = (
    "Every function of the library, executed by a test or not, is analysed: a path-sensitive definite-assignment analysis of its locals "
    "(a state keeps the conditions the path has decided, so a use guarded like its assignment is fine), resolution of every name against "
    "locals, enclosing scopes, module and builtins, of every internal import against the imported module, of every attribute read on self "
    "against what any method, class body or outside assignment of the package stores, and of every call to an internal function, class or "
    "method of self against the callee's parameters. Calls through instances are decided by interpreting all entry points."
)
ASSUMPTIONS = [
    "a loop runs at least once unless its condition is known to be false",
    "classes with bases outside the library may inherit further attributes from them",
]

NAMES = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__loader__", "__path__", "__builtins__", "__class__"}

FIXTURE = '''
import sys
from hvd.other import present, absent
class A:
    def __init__(self, n):
        self.n = n
        self.k = helper(n, scale=2)
    def good(self, flag, items):
        if flag:
            out = self.n
        first = None
        for i in items:
            if first is None:
                first, best = i, i
            elif i > best:
                best = i
        try:
            z = int(first)
        except ValueError:
            sys.exit(1)
        return (out if flag else best) + z
    def branch(self, flag):
        if flag:
            out = self.n
        return out
    def handler(self):
        try:
            z = int(self.n)
        except ValueError:
            pass
        return z
    def typo(self):
        return self.m + self.k
    def name(self):
        return nn
    def call(self):
        return self.good(1, itms=2)
    def call2(self):
        return helper(1, 2, 3, 4)
    def closure(self, x):
        def g():
            return x + later
        later = 1
        return g()
def helper(a, b=1, *, scale=1):
    return a
'''


# ------------------------------------------------------------------ names
def scope_names(node):
    if isinstance(node, ast.Module):
        f = ast.FunctionDef(name="m", args=ast.arguments([], [], None, [], [], None, []), body=node.body, decorator_list=[])
        out = assigned.bound_names(f)
        # globals declared inside functions
        for n in ast.walk(node):
            if isinstance(n, ast.Global):
                out.update(n.names)
        return out
    if isinstance(node, ast.ClassDef):
        return assigned.bound_names(node)
    if isinstance(node, ast.Lambda):
        return set(assigned.params(node)) | {n.target.id for n in ast.walk(node.body) if isinstance(n, ast.NamedExpr)}
    if isinstance(node, assigned.COMP):
        return {x.id for g in node.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
    return assigned.bound_names(node) | set(assigned.params(node))


def undefined_names(tree):
    """(node, function name) of every read of a name that no scope defines"""
    out, n = [], [0]

    def walk(node, scopes, fn):
        # scopes: list of (names, is_class)
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in [*node.decorator_list, *node.args.defaults, *[x for x in node.args.kw_defaults if x]]:
                walk(d, scopes, fn)
            inner = [s for s in scopes if not s[1]] + [(scope_names(node), False)]
            for b in node.body:
                walk(b, inner, (fn + "." if fn else "") + node.name)
            return
        if isinstance(node, ast.Lambda):
            for d in [*node.args.defaults, *[x for x in node.args.kw_defaults if x]]:
                walk(d, scopes, fn)
            walk(node.body, [s for s in scopes if not s[1]] + [(scope_names(node), False)], fn)
            return
        if isinstance(node, ast.ClassDef):
            for d in [*node.decorator_list, *node.bases, *[k.value for k in node.keywords]]:
                walk(d, scopes, fn)
            inner = [s for s in scopes if not s[1]] + [(scope_names(node), True)]
            for b in node.body:
                walk(b, inner, (fn + "." if fn else "") + node.name)
            return
        if isinstance(node, assigned.COMP):
            inner = scopes + [(scope_names(node), False)]
            for c in ast.iter_child_nodes(node):
                walk(c, inner, fn)
            return
        if isinstance(node, ast.AnnAssign):
            walk(node.target, scopes, fn)
            if node.value:
                walk(node.value, scopes, fn)
            return
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
            n[0] += 1
            if node.id not in NAMES and not any(node.id in s for s, _ in scopes):
                out.append((node, fn))
        for c in ast.iter_child_nodes(node):
            walk(c, scopes, fn)

    walk(ast.Module(body=[], type_ignores=[]), [], "")
    top = [(scope_names(tree), False)]
    for b in tree.body:
        walk(b, top, "")
    return out, n[0]


# ------------------------------------------------------------------ attributes of self
def stored_attributes(w):
    """every attribute name some code of the package stores (x.a = .., setattr with a literal, __slots__)"""
    out = set()
    for tree in w.modules.values():
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
    return out


def self_stores(cls):
    """(attributes stored on self in the class body, dynamic?)"""
    out, dyn = set(), False
    for fn in ast.walk(cls.node):
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if fn.name in ("__getattr__", "__getattribute__", "__setstate__"):
                dyn = dyn or fn.name != "__setstate__"
            a = [*fn.args.posonlyargs, *fn.args.args]
            me = a[0].arg if a else None
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        out.add(n.args[1].value)
                    else:
                        dyn = True
                if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                    dyn = True
    return out, dyn


OBJECT = set(dir(object)) | {"__dict__", "__class__", "__module__", "__name__", "__doc__"}


def own_methods(cls):
    for b in cls.node.body:
        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
            kinds = {d.id for d in b.decorator_list if isinstance(d, ast.Name)}
            if "staticmethod" in kinds or not (b.args.args or b.args.posonlyargs):
                continue
            yield b, "classmethod" in kinds


def known_attrs(cls):
    out, dyn, ext = set(OBJECT), False, False
    for c in cls.mro:
        s, d = self_stores(c)
        out |= s | set(c.ns) | scope_names(c.node)
        dyn |= d
        ext |= any(not (getattr(b, "tag", "") == "ext" and b.a[0] in ("builtins.object", "object", "abc.ABC", "typing.Protocol")) for b in c.ext_bases)
    return out, dyn, ext


def subclasses(w):
    out = {}
    for c in w.all_classes():
        for b in c.mro[1:]:
            out.setdefault(b, []).append(c)
    return out


# ------------------------------------------------------------------ signatures
def mismatch(fn, call, bound):
    """why the call does not fit fn's parameters, or None"""
    a = fn.args
    pos = [x.arg for x in [*a.posonlyargs, *a.args]]
    if bound:
        pos = pos[1:]
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    n = len(call.args)
    if n > len(pos) and not a.vararg:
        return f"{n} positional arguments for {len(pos)} parameters"
    names = {x.arg for x in a.args} | {x.arg for x in a.kwonlyargs}
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg not in names and not a.kwarg:
            return f"unexpected keyword argument '{k.arg}'"
        if k.arg in given:
            return f"argument '{k.arg}' given twice"
        given.add(k.arg)
    nd = len(a.defaults)
    req = [x.arg for x in [*a.posonlyargs, *a.args]]
    req = req[: len(req) - nd] if nd else req
    if bound:
        req = req[1:]
    req += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    miss = [x for x in req if x not in given]
    return f"missing argument {miss[0]!r}" if miss else None


def plain(fn, allow=()):
    return all(isinstance(d, ast.Name) and d.id in allow for d in fn.decorator_list)


def init_of(cls):
    for c in cls.mro:
        if any(isinstance(b, (ast.FunctionDef,)) and b.name in ("__new__",) for b in c.node.body):
            return None
        for b in c.node.body:
            if isinstance(b, ast.FunctionDef) and b.name == "__init__":
                return b
        if c.ext_bases and not all(getattr(x, "tag", "") == "ext" and x.a[0] in ("builtins.object", "object", "abc.ABC") for x in c.ext_bases):
            return None
        if c.node.decorator_list:
            return None
    return "object"


def static_part(ctx, w):
    subs = subclasses(w)
    stored = stored_attributes(w)
    for m, tree in sorted(w.modules.items()):
        rel = w.sources[m][0]
        # 1 locals
        noret = lambda c: isinstance(c.func, ast.Attribute) and ast.unparse(c.func) in ("sys.exit", "os._exit", "pytest.skip") or isinstance(c.func, ast.Name) and c.func.id in ("exit", "quit")
        for q, _, fn in assigned_functions(tree, m):
            d = assigned.check(fn, noret)
            ctx.ob("function analysed for definite assignment")
            ctx.ob("use of a local decided", n=d.uses)
            for (name, line), node in sorted(d.found.items(), key=lambda x: x[0][1]):
                ctx.fail("unassigned-local", f"{m}.{q}:{name}", f"{q} can read the local '{name}' before it is assigned", where=f"{rel}:{line} ({q})")
        # 2 names
        bad, n = undefined_names(tree)
        ctx.ob("name resolved", n=n)
        for node, fn in bad:
            ctx.fail("undefined-name", f"{m}.{fn}:{node.id}", f"no scope defines the name '{node.id}'", where=f"{rel}:{node.lineno} ({fn})")
        # 3 internal imports
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom):
                base = w.resolve_from(m, n)
                if base in w.modules:
                    have = scope_names(w.modules[base])
                    star = any(isinstance(x, ast.ImportFrom) and x.names[0].name == "*" for x in ast.walk(w.modules[base]))
                    for a in n.names:
                        ctx.ob("internal import resolved")
                        if a.name != "*" and a.name not in have and f"{base}.{a.name}" not in w.modules and not star:
                            ctx.fail("missing-import", f"{m}:{base}.{a.name}", f"'{a.name}' is imported from {base}, which does not define it", where=f"{rel}:{n.lineno}")
                elif base.split(".")[0] == w.package:
                    ctx.ob("internal import resolved")
                    ctx.fail("missing-import", f"{m}:{base}", f"the internal module {base} does not exist", where=f"{rel}:{n.lineno}")
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split(".")[0] == w.package:
                        ctx.ob("internal import resolved")
                        if a.name not in w.modules:
                            ctx.fail("missing-import", f"{m}:{a.name}", f"the internal module {a.name} does not exist", where=f"{rel}:{n.lineno}")
        # 5 calls of module-level functions and classes by name
        fr = w.base.heap[w.frames[m]].f
        for q, scopes, fn in assigned_functions(tree, m):
            local = set().union(*scopes) if scopes else set()
            for n in body_nodes(fn):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id not in local:
                    v = fr.get(n.func.id)
                    why = None
                    if v is not None and v.tag == "fn" and isinstance(v.a[0].node, ast.FunctionDef) and not v.a[0].node.decorator_list:
                        ctx.ob("internal call matched with its callee's parameters")
                        why = mismatch(v.a[0].node, n, False)
                    elif v is not None and v.tag == "cls" and isinstance(v.a[0], ClassObj):
                        i = init_of(v.a[0])
                        if i == "object":
                            ctx.ob("internal call matched with its callee's parameters")
                            why = f"{n.func.id} takes no arguments" if (n.args or n.keywords) and not v.a[0].node.decorator_list else None
                        elif i is not None and not i.decorator_list:
                            ctx.ob("internal call matched with its callee's parameters")
                            why = mismatch(i, n, True)
                    if why:
                        ctx.fail("bad-call", f"{m}.{q}:{n.func.id}", f"the call of {n.func.id} cannot succeed: {why}", where=f"{rel}:{n.lineno} ({q})")
    # 4 attributes and methods of self
    for cls in sorted(w.all_classes(), key=lambda c: (c.module, c.qual)):
        have, dyn, ext = known_attrs(cls)
        for s in subs.get(cls, ()):
            have = have | known_attrs(s)[0]
        rel = w.sources[cls.module][0]
        for fn, iscls in own_methods(cls):
            me = [*fn.args.posonlyargs, *fn.args.args][0].arg
            if any(isinstance(x, ast.Name) and x.id == me and isinstance(x.ctx, ast.Store) for x in ast.walk(fn)):
                continue
            tested = {x.args[1].value for x in ast.walk(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant)}
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me and not dyn:
                    if ext and n.attr not in have:
                        continue
                    ctx.ob("own attribute resolved")
                    if n.attr not in have and n.attr not in stored and n.attr not in tested:
                        ctx.fail("missing-attribute", f"{cls.qual}.{fn.name}:{n.attr}", f"{cls.qual} never defines the attribute '{n.attr}'", where=f"{rel}:{n.lineno} ({cls.qual}.{fn.name})")
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == me:
                    t = method_of(cls, n.func.attr)
                    if t is None or n.func.attr in self_stores_mro(cls):
                        continue
                    static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in t.decorator_list)
                    if not plain(t, ("staticmethod", "classmethod")):
                        continue
                    ctx.ob("internal call matched with its callee's parameters")
                    why = mismatch(t, n, not static)
                    if why and not any(not mismatch(x, n, not static) for s in subs.get(cls, ()) for x in [method_of(s, n.func.attr)] if x is not None and x is not t):
                        ctx.fail("bad-call", f"{cls.qual}.{fn.name}:{n.func.attr}", f"the call of {n.func.attr} cannot succeed: {why}", where=f"{rel}:{n.lineno} ({cls.qual}.{fn.name})")


def self_stores_mro(cls):
    return set().union(*[self_stores(c)[0] for c in cls.mro])


def method_of(cls, name):
    for c in cls.mro:
        for b in c.node.body:
            if isinstance(b, ast.FunctionDef) and b.name == name:
                return b
            if isinstance(b, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in b.targets):
                return None
    return None


def assigned_functions(tree, m):
    """(qualified name, name sets of the enclosing function scopes and itself, node) of every function, nested ones included"""

    def go(node, q, scopes):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                s = [*scopes, scope_names(c)]
                yield q + c.name, s, c
                yield from go(c, q + c.name + ".", s)
            elif isinstance(c, ast.ClassDef):
                yield from go(c, q + c.name + ".", scopes)
            else:
                yield from go(c, q, scopes)

    yield from go(tree, "", [])


def body_nodes(fn):
    """nodes of fn, without those of nested functions (they are visited on their own)"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Lambda, *assigned.COMP)):
            # names bound inside hide module names: leave calls through them alone
            hid = scope_names(n)
            todo += [c for c in ast.iter_child_nodes(n) if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in hid)]
            continue
        todo += list(ast.iter_child_nodes(n))


# ------------------------------------------------------------------ interpretation
MSG = {
    "unbound": "is read before it is assigned",
    "missing_attr": "is not an attribute of the object",
    "none_attr": "is read from None",
    "readonly_property": "is a property without setter",
    "missing_argument": "is not given by the call",
    "extra_argument": "more arguments than the callee takes",
    "unexpected_kwarg": "is not a parameter of the callee",
}


def private(fo):
    return fo.name.startswith("_") and not fo.name.startswith("__")


def switched(ctx, job):
    """one optimizer with its switches fixed: an attribute that only one setting defines is then definitely missing"""
    kind, variant, val = job
    s = ctx.session(f"{kind}[{variant}] with every switch {val}", entries.indicator_methods(ctx.w))
    names = [p.arg for p in scen.params_of(scen.ctor_of(ctx.w.find_class(kind)))]
    over = {n: K(val) for n in names if n in scen.BOOLS}
    o = scen.optimizer(s, kind, variant, over, leave=() if val else ("metrics",))
    scen.drive(s, o, kind, 2)
    visit(ctx, s, s, s.take())


def visit(ctx, sc, s, events):
    w = ctx.w
    subs = subclasses(w)
    ctx.ob("entry point interpreted", getattr(sc, "name", None))
    for e in events:
        if e.kind in ("attrget", "enter"):
            ctx.ob("attribute access or call resolved on an object")
        if e.kind not in MSG or not e.stack:
            continue
        name = getattr(e, "name", None) or getattr(e, "attr", None) or ", ".join(getattr(e, "names", None) or ()) or getattr(getattr(e, "callee", None), "name", "")
        if e.kind in ("missing_attr", "none_attr") and private(e.stack[0]):
            continue  # a helper run on its own, without the caller that sets what it reads
        if e.kind == "missing_attr":
            b = getattr(e, "base", None)
            c = getattr(b.a[0], "cls", None) if b is not None and b.tag == "ref" else None
            if c is not None and any(name in known_attrs(x)[0] for x in subs.get(c, ())):
                continue  # an abstract base: its subclasses define it
        ctx.fail({"unbound": "unassigned-local", "missing_attr": "missing-attribute", "none_attr": "none-attribute", "readonly_property": "readonly-property"}.get(e.kind, "bad-call"), f"{e.func}:{name}", f"'{name}' {MSG[e.kind]}", e)


def selftest(ctx):
    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE, "hvd/other.py": "present = 1\n"})
    got = _Collect()
    static_part(got, w)
    want = {
        "unassigned-local hvd.m.A.branch:out", "unassigned-local hvd.m.A.handler:z", "missing-import hvd.m:hvd.other.absent", "missing-attribute A.typo:m",
        "undefined-name hvd.m.A.name:nn", "bad-call A.call:good", "bad-call hvd.m.A.call2:helper",
    }
    ctx.need(got.found == want, f"self-test: {sorted(got.found ^ want)}")
    ctx.selftests.append("an unassigned local, name, attribute, import and a bad call are found; guarded uses, closures and good calls are not")


class _Collect:
    def __init__(self):
        self.found = set()

    def ob(self, *a, **k):
        pass

    def fail(self, rule, construct, *a, **k):
        self.found.add(f"{rule} {construct}")


def run(ctx):
    ctx.rule("every local is assigned on every path to its read")
    ctx.rule("every name, internal import and attribute of self is defined")
    ctx.rule("every internal call fits the callee's parameters")
    static_part(ctx, ctx.w)
    entries.catalogue(ctx, visit)
    ctx.parallel([(k, v, b) for k in scen.OPTIMIZERS for v in ("full", "eq", "ieq", "bare") for b in (False, True)], switched)
    ctx.at_least("function analysed for definite assignment", 200)
    ctx.at_least("use of a local decided", 1000)
    ctx.at_least("own attribute resolved", 300)
    ctx.at_least("internal call matched with its callee's parameters", 80)
