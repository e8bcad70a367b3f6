"""Loading of the analysed repository: module table, abstract execution of module bodies, entry points."""

import ast
import hashlib
import os

from .interp import MISS, AnalysisError, Cell, Frame, FuncObj, Interp, St
from .terms import K, Ext, Loc, Op, Phi, Top, Tup, mk


class World:
    def __init__(self, root="/repo", package="hvd", overlay=None):
        """overlay: {relative path: source text} replaces files (used for the self-test fixtures only)"""
        self.root, self.package = root, package
        self.modules = {}  # name -> (path, tree)
        self.sources = {}
        self.scope_parent = {}
        self.class_scopes = set()
        self.hooks = None
        base = os.path.join(root, package) if root else "/nonexistent"
        overlay = overlay or {}
        rels = []
        for dp, dn, fn in os.walk(base) if root else ():
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    rels.append(os.path.relpath(os.path.join(dp, f), root))
        for r in overlay:
            if r not in rels:
                rels.append(r)
        for rel in rels:
            if rel in overlay:
                src = overlay[rel]
            else:
                with open(os.path.join(root, rel), encoding="utf-8") as fh:
                    src = fh.read()
            name = rel[:-3].replace(os.sep, ".")
            if name.endswith(".__init__"):
                name = name[: -len(".__init__")]
            try:
                tree = ast.parse(src, rel)
            except SyntaxError as e:
                raise AnalysisError(f"{rel} does not parse: {e}")
            self.sources[name] = (rel, src)
            self.modules[name] = tree
        if not self.modules:
            raise AnalysisError(f"no modules found under {base}")
        self.frames = {}
        self.fns = {}
        self.loading = set()
        self.base = St({})
        self.interp = Interp(self)
        self.load_events = []

    # -- module loading -----------------------------------------------------
    def load_all(self):
        I = self.interp
        for m in self.modules:
            self.load(m, I, self.base)
        self.load_events = I.events
        I.events = []
        return self

    def load(self, name, I, st):
        if name in self.frames:
            return
        loc = Loc(("module", name), "frame", f"module {name}")
        self.frames[name] = loc
        tree = self.modules[name]
        fo = FuncObj(tree, name, "<module>", None)
        fo.name = "<module>"
        self.fns[name] = fo
        st.heap[loc] = Cell("frame", f={})
        fr = Frame(fo, loc)
        saved = I.cur_module_fn, list(I.callstack), I.ctx, I.loopdepth, list(I.try_stack), list(I.handler_ctx)
        I.cur_module_fn = fo
        I.callstack = []
        I.ctx = (name,)
        out = I.block(tree.body, st, fr)
        I.cur_module_fn, I.callstack, I.ctx, I.loopdepth, I.try_stack, I.handler_ctx = saved
        if out is not None and out is not st:
            st.heap = out.heap
            st.guards = out.guards

    def is_repo(self, name):
        return name in self.modules

    def import_module(self, name, I):
        if name in self.modules:
            parts = name.split(".")
            for i in range(1, len(parts) + 1):
                p = ".".join(parts[:i])
                if p in self.modules:
                    self.load(p, I, self.cur_st)
            return mk("mod", name)
        return Ext(name)

    cur_st = None

    def import_name(self, base, name, I, st):
        if base in self.modules:
            self.load(base, I, st)
            fr = self.frames[base]
            c = st.heap.get(fr) or self.base.heap.get(fr)
            if c is not None and name in c.f:
                return c.f[name]
            sub = f"{base}.{name}"
            if sub in self.modules:
                self.load(sub, I, st)
                return mk("mod", sub)
            return Ext(f"{base}.{name}")
        if base == "typing" and name == "TYPE_CHECKING":
            return K(False)
        return Ext(f"{base}.{name}")

    def resolve_from(self, module, node):
        if not node.level:
            return node.module or ""
        parts = module.split(".")
        rel = self.sources[module][0] if module in self.sources else ""
        if not rel.endswith("__init__.py"):
            parts = parts[:-1]
        for _ in range(node.level - 1):
            parts = parts[:-1]
        if node.module:
            parts += node.module.split(".")
        return ".".join(parts)

    def global_loc(self, module):
        return self.frames[module]

    def is_class_scope(self, loc):
        return loc.label.startswith("class ")

    # -- lookups ------------------------------------------------------------
    def get(self, module, name):
        fr = self.frames.get(module)
        if fr is None:
            raise AnalysisError(f"module {module} has vanished")
        v = self.base.heap[fr].f.get(name)
        if v is None:
            raise AnalysisError(f"{module}.{name} has vanished")
        return v

    def find_class(self, name):
        """class by public name, wherever it lives"""
        out = []
        for m, fr in self.frames.items():
            v = self.base.heap[fr].f.get(name)
            if v is not None and v.tag == "cls" and v.a[0].module == m:
                out.append(v.a[0])
        if not out:
            raise AnalysisError(f"class {name} not found in the analysed tree")
        return out[0]

    def find_func(self, name):
        out = []
        for m, fr in self.frames.items():
            v = self.base.heap[fr].f.get(name)
            if v is not None and v.tag in ("fn", "wrap"):
                f = v
                while f.tag == "wrap":
                    f = f.a[1]
                if f.tag == "fn" and f.a[0].module == m:
                    out.append(v)
        if not out:
            raise AnalysisError(f"function {name} not found in the analysed tree")
        return out[0]

    def all_classes(self):
        seen = {}
        for m, fr in self.frames.items():
            for v in self.base.heap[fr].f.values():
                if v.tag == "cls" and v.a[0].module == m:
                    seen[v.a[0]] = 1
        return list(seen)

    def all_functions(self):
        """(qualified name, module, FuncDef node) of every function definition in the source"""
        for m, tree in self.modules.items():
            yield from _walk_fns(tree, m, "")

    def heavy(self):
        """qualified names of functions that (inside their own module) reach a recursive function.

        They are summarised as uninterpreted functions when analysed as part of a larger entry point, and
        analysed in full as entry points of their own."""
        if getattr(self, "_heavy", None) is not None:
            return self._heavy
        out = set()
        for m, tree in self.modules.items():
            fns = {}
            for q, _, node in _walk_fns(tree, m, ""):
                names = set()
                for x in ast.walk(node):
                    if isinstance(x, ast.Call):
                        f = x.func
                        if isinstance(f, ast.Name):
                            names.add(f.id)
                        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls"):
                            names.add(f.attr)
                fns[q] = names
            by = {}
            for q in fns:
                by.setdefault(q.split(".")[-1], []).append(q)
            reach = {q: set() for q in fns}
            changed = True
            while changed:
                changed = False
                for q, ns in fns.items():
                    new = set(reach[q])
                    for n in ns:
                        for t in by.get(n, ()):
                            new.add(t)
                            new |= reach[t]
                    if new != reach[q]:
                        reach[q] = new
                        changed = True
            rec = {q for q in fns if q in reach[q]}
            out |= {q for q in fns if reach[q] & rec or q in rec}
        self._heavy = out
        return out

    def digest(self):
        h = hashlib.sha256()
        for m in sorted(self.sources):
            h.update(m.encode())
            h.update(self.sources[m][1].encode())
        return h.hexdigest()[:16]

    # -- analysis sessions ----------------------------------------------------
    def session(self):
        return Session(self)


def _walk_fns(node, m, prefix):
    for ch in ast.iter_child_nodes(node):
        if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = f"{prefix}{ch.name}"
            yield q, m, ch
            yield from _walk_fns(ch, m, q + ".")
        elif isinstance(ch, ast.ClassDef):
            yield from _walk_fns(ch, m, f"{prefix}{ch.name}.")
        else:
            yield from _walk_fns(ch, m, prefix)


class Session:
    """one abstract run: a heap plus convenience constructors for symbolic arguments"""

    def __init__(self, w, parent=None):
        self.w = w
        self.I = w.interp
        self.I.events = []
        self.I.shapes = {}
        self.I.cb_values = {}
        self.I.row_count = None
        self.I.ctx = ("s", id(self))
        self.I.callstack = []
        self.I.loopdepth = 0
        self.I.steps = 0
        self.results = []
        self.st = w.base.fork()
        w.cur_st = self.st
        tree = ast.parse("pass").body[0]
        fo = FuncObj(tree, next(iter(w.frames)), "<entry>", None)
        fo.name = "<entry>"
        loc = Loc(("entry", id(self)), "frame", "entry")
        self.st.heap[loc] = Cell("frame", f={})
        self.fr = Frame(fo, loc)
        self.I.cur_module_fn = fo
        self.n = 0

    def node(self):
        self.n += 1
        n = ast.parse("pass").body[0]
        n.lineno = 0
        self._keep = getattr(self, "_keep", [])
        self._keep.append(n)
        return n

    def param(self, label, origin="array", root=True, shape=None):
        """symbolic argument; ``shape``: what is known about the shape of an array"""
        if shape is not None:
            self.I.shapes[Op("sym", K(label))] = tuple(shape)
        loc = Loc(("param", label, id(self)), "param", label, root=label if root else None, origin=origin)
        self.st.heap[loc] = Cell("param", val=Op("sym", K(label)), f={})
        return mk("ref", loc, ())

    def callable(self, label):
        return self.param(label, "callable")

    def new(self, cls, args=(), kwargs=None):
        if isinstance(cls, str):
            cls = self.w.find_class(cls)
        return self.I.instantiate(cls, list(args), dict(kwargs or {}), self.node(), self.st, self.fr)

    def call(self, f, args=(), kwargs=None):
        r = self.I.call(f, list(args), dict(kwargs or {}), self.node(), self.st, self.fr)
        self.results.append((f, r))
        return r

    def method(self, obj, name, args=(), kwargs=None):
        m = self.I.getattr_(obj, name, self.node(), self.st, self.fr)
        return self.call(m, args, kwargs)

    def has(self, obj, name):
        return obj.a[0].cls.lookup(name)[0] is not None

    def get(self, obj, name):
        return self.I.getattr_(obj, name, self.node(), self.st, self.fr, quiet=True)

    def set(self, obj, name, v):
        self.I.setattr_(obj, name, v, self.node(), self.st, self.fr)

    def fields(self, obj):
        return dict(self.st.heap[obj.a[0]].f or {})

    def val(self, v):
        return self.I.val(v, self.st)

    @property
    def events(self):
        return self.I.events

    def take(self):
        ev = self.I.events
        self.I.events = []
        return ev
