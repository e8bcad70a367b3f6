"""Flow-sensitive, context-sensitive abstract interpreter over Python syntax trees.

The program is never executed: every expression is mapped to an interned abstract value
(value number), every object to an abstract heap cell (allocation site x calling context),
branches are joined, loops are iterated to a fixpoint with widening, and repository callees
are analysed in place.  External callables are described by ``models.py``.  What the checks
consume are (a) the abstract heap / values at chosen program points and (b) the recorded
effect events (stores, external calls, callback invocations) with their guards and call path.
"""

import ast
import builtins

from .terms import K, Ext, Loc, Op, Phi, T, Top, Tup, is_k, kval, leaves_of, missing, mk, show, size_of, skey, viewref

NONE = K(None)
TRUE = K(True)
FALSE = K(False)
MISS = missing()

MAXDEPTH = 60
ARRAY_ATTRS = {"shape", "ndim", "size", "dtype", "flat", "real", "imag", "nbytes", "itemsize"}


class FuncObj:
    def __init__(self, node, module, qual, frame, cls=None, defaults=(), kwdefaults=None):
        self.node, self.module, self.qual, self.frame, self.cls = node, module, qual, frame, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.kind = "function"  # function | property | staticmethod | classmethod
        self.name = qual.split(".")[-1]

    def __repr__(self):
        return f"fn {self.qual}"

    def __hash__(self):
        return hash((self.module, self.qual))

    def __lt__(self, o):
        return self.qual < o.qual


class PropObj:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class ClassObj:
    def __init__(self, name, module, qual, bases, node):
        self.name, self.module, self.qual, self.bases, self.node = name, module, qual, bases, node
        self.ns = {}  # name -> T or PropObj (wrapped)
        self.mro = None
        self.ext_bases = []

    def __repr__(self):
        return f"class {self.qual}"

    def __hash__(self):
        return hash((self.module, self.qual))

    def __lt__(self, o):
        return self.qual < o.qual

    def compute_mro(self):
        repo = [b for b in self.bases if isinstance(b, ClassObj)]
        self.ext_bases = [b for b in self.bases if not isinstance(b, ClassObj)]
        seqs = [list(b.mro) for b in repo] + [list(repo)]
        out = [self]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    del s[0]
        self.mro = out

    def has_ext_base(self):
        return any(c.ext_bases for c in self.mro)

    def lookup(self, name, after=None):
        seq = self.mro
        if after is not None:
            seq = seq[seq.index(after) + 1 :] if after in seq else seq
        for c in seq:
            if name in c.ns:
                return c.ns[name], c
        return None, None


class Cell:
    __slots__ = ("kind", "val", "f", "items", "star", "summary")

    def __init__(self, kind, val=None, f=None, items=None, star=None, summary=False):
        self.kind, self.val, self.f, self.items, self.star, self.summary = kind, val, f, items, star, summary

    def copy(self):
        return Cell(self.kind, self.val, dict(self.f) if self.f is not None else None, self.items, self.star, self.summary)

    def same(self, o):
        return (
            self is o
            or self.kind == o.kind
            and self.val is o.val
            and self.items == o.items
            and self.star is o.star
            and self.summary == o.summary
            and self.f == o.f
        )


class Heap:
    """Persistent map: a writable top layer over a chain of frozen ones (cheap fork, cheap join)."""

    __slots__ = ("own", "parent")

    def __init__(self, own=None, parent=None):
        self.own = {} if own is None else own
        self.parent = parent

    def get(self, k, d=None):
        h = self
        while h is not None:
            v = h.own.get(k)
            if v is not None:
                return v
            h = h.parent
        return d

    def __getitem__(self, k):
        v = self.get(k)
        if v is None:
            raise KeyError(k)
        return v

    def __contains__(self, k):
        return self.get(k) is not None

    def __setitem__(self, k, v):
        self.own[k] = v

    def fork(self):
        if self.own:
            own, p = self.own, self.parent
            while p is not None and len(p.own) <= 2 * len(own):
                own = {**p.own, **own}
                p = p.parent
            self.parent = Heap(own, p)
            self.own = {}
        return Heap({}, self.parent)

    def items(self):
        seen = {}
        h = self
        while h is not None:
            for k, v in h.own.items():
                if k not in seen:
                    seen[k] = v
            h = h.parent
        return seen.items()

    def __len__(self):
        return len(self.items())

    def diff(self, o):
        """(common ancestor layer, keys that may differ between the two)"""
        anc = {}
        h = self
        while h is not None:
            anc[id(h)] = h
            h = h.parent
        keys = {}
        h = o
        while h is not None and id(h) not in anc:
            keys.update(h.own)
            h = h.parent
        lca = h
        h = self
        while h is not lca:
            for k in h.own:
                keys.setdefault(k)
            h = h.parent
        return lca, list(keys)


class St:
    __slots__ = ("heap", "guards")

    def __init__(self, heap=None, guards=()):
        if heap is None or isinstance(heap, dict):
            heap = Heap(heap)
        self.heap = heap
        self.guards = guards

    def fork(self):
        return St(self.heap.fork(), self.guards)


class Ev:
    """one recorded effect"""

    def __init__(self, kind, node, fn, stack, guards, **kw):
        self.kind, self.node, self.fn, self.stack, self.guards = kind, node, fn, stack, guards
        self.__dict__.update(kw)

    @property
    def where(self):
        m = self.fn.module if self.fn else "?"
        return f"{m}:{getattr(self.node, 'lineno', 0)}"

    @property
    def func(self):
        return self.fn.qual if self.fn else "<module>"

    def path(self):
        return " > ".join(f.qual for f in self.stack) or "<module>"


class AnalysisError(Exception):
    pass


class Frame:
    def __init__(self, fn, loc, selfv=None, ctx=()):
        self.fn, self.loc, self.selfv, self.ctx = fn, loc, selfv, ctx
        self.returns = []
        self.loops = []
        self.yields = []
        self.yield_cb = None
        self.globals = set()
        self.nonlocals = set()


def _locn(loc):
    return loc.n


def phi2(a, b):
    if a is b:
        return a
    return Phi((a, b))


class Interp:
    def __init__(self, world):
        from . import models

        self.w = world
        self.models = models
        self.events = []
        self.shapes = {}
        self.cb_values = {}  # label of a callback -> fn(args, kwargs, node, st): what it returns
        models.BIG[0] = 1
        self.record = True
        self.callstack = []  # FuncObj stack
        self.ctx = ()
        self.locs = {}
        self.try_stack = []
        self.handler_ctx = []  # active enclosing try statements (for checks)
        self.with_ctx = []
        self.fnobjs = {}
        self.unmodelled = {}
        self.curnode = None
        self.fn_seen = {}
        self.steps = 0
        self.traced = 0
        self.baked = 0  # depth of calls whose attribute reads are kept by a cache (jit, lru_cache)
        self.modframes = {}
        self.recursion_cuts = {}
        self.opaque = frozenset()
        self.stubs = {}  # qualified name -> fn(args, kwargs, node, st): replaces a callee's body
        self.row_count = None  # fn(term) -> number of rows: iterate arrays row by row
        self.precise = False  # a completed try body did not raise; len(None) raises
        self.raised = False
        self.tracer = None  # observer of JAX-traced code (c09)
        self.oracle = None  # value -> True / False / None: decides a condition the program leaves open
        self.mark_attr = None
        self.unroll_while = 0
        self.ext_stubs = {}  # external name -> fn(args, kwargs, node, st)

    # ------------------------------------------------------------------ heap helpers
    def newloc(self, node, kind, st, label="", extra=None, **kw):
        key = (id(node) if isinstance(node, ast.AST) else node, self.ctx, extra, kind)
        loc = self.locs.get(key)
        if loc is None:
            loc = Loc(key, kind, label, node=node, **kw)
            self.locs[key] = loc
        return loc

    def alloc(self, node, cell, st, label="", extra=None, **kw):
        loc = self.newloc(node, cell.kind, st, label, extra, **kw)
        old = st.heap.get(loc)
        if old is not None and not old.same(cell) and loc.kind != "frame" and self.loopdepth:
            # allocated again inside a loop: keep the newest, remember it stands for several objects
            cell = cell.copy()
            cell.summary = True
        st.heap[loc] = cell
        return mk("ref", loc, ())

    loopdepth = 0

    def arr(self, node, val, st, extra=None, label=""):
        return self.alloc(node, Cell("arr", val=val), st, label, extra)

    def cell(self, ref, st):
        return st.heap.get(ref.a[0])

    def val(self, v, st, depth=0):
        """value number of ``v`` in state ``st`` (pointers replaced by their contents)"""
        if depth > 12:
            return Top(())
        tag = v.tag
        if tag == "ref":
            loc, path = v.a
            c = st.heap.get(loc)
            if c is None:
                return v
            k = c.kind
            if k == "arr" or k == "param":
                base = c.val
                for p in path:
                    base = self.apply_view(p, base)
                return base
            if k in ("list", "set", "tuple"):
                if c.items is not None:
                    base = Op("list", *[self.val(x, st, depth + 1) for x in c.items])
                elif k == "set" and c.val is not None and c.val.tag == "tup" and self.precise:
                    base = Op("list", *c.val.a)
                else:
                    base = Op("listof", self.val(c.star, st, depth + 1) if c.star is not None else Top(()))
                for p in path:
                    base = self.apply_view(p, base)
                return base
            if k == "dict":
                items = sorted(((kk, self.val(x, st, depth + 1)) for kk, x in c.f.items()), key=lambda z: z[0].n)
                flat = []
                for kk, x in items:
                    flat += [kk, x]
                if c.star is not None:
                    flat += [K("*"), self.val(c.star, st, depth + 1)]
                return Op("dict", *flat)
            return v
        if tag == "tup":
            return Op("tuple", *[self.val(x, st, depth + 1) for x in v.a])
        if tag == "phi":
            return Phi([self.val(x, st, depth + 1) for x in v.a[0]])
        if tag == "sl":
            return mk("sl", *[self.val(x, st, depth + 1) for x in v.a])
        return v

    def apply_view(self, p, base):
        n = p.a[0]
        if n in ("idx", "idx?"):
            return self.models.nsub(base, p.a[1])
        return self.models.norm_op(n, (base,) + tuple(p.a[1:]))

    # ------------------------------------------------------------------ joins
    def join_cell(self, a, b):
        if a.same(b):
            return a
        if a.kind != b.kind:
            return Cell("arr", val=Top(()))
        r = Cell(a.kind, summary=a.summary or b.summary)
        if a.val is not None or b.val is not None:
            r.val = phi2(a.val if a.val is not None else Top(()), b.val if b.val is not None else Top(()))
        if a.f is not None or b.f is not None:
            af, bf = a.f or {}, b.f or {}
            r.f = {}
            for k in list(af) + [k for k in bf if k not in af]:
                x, y = af.get(k, MISS), bf.get(k, MISS)
                r.f[k] = phi2(x, y)
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            r.items = tuple(phi2(x, y) for x, y in zip(a.items, b.items))
        elif a.items is not None or b.items is not None or a.star is not None or b.star is not None:
            vs = list(a.items or ()) + list(b.items or ())
            if a.star is not None:
                vs.append(a.star)
            if b.star is not None:
                vs.append(b.star)
            r.items = None
            r.star = Phi(vs) if vs else None
            if r.kind in ("list", "set", "tuple") and r.star is None:
                r.star = Top(())
        if a.kind == "dict":
            r.star = phi2(a.star, b.star) if a.star is not None and b.star is not None else (a.star if a.star is not None else b.star)
        return r

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        lca, keys = a.heap.diff(b.heap)
        own = {}
        keys.sort(key=_locn)
        for loc in keys:
            ca, cb = a.heap.get(loc), b.heap.get(loc)
            if ca is None:
                own[loc] = cb
            elif cb is None or ca is cb:
                own[loc] = ca
            else:
                own[loc] = self.join_cell(ca, cb)
        heap = Heap(own, lca)
        g = []
        for x, y in zip(a.guards, b.guards):
            if x == y:
                g.append(x)
            else:
                break
        return St(heap, tuple(g))

    def same(self, a, b):
        _, keys = a.heap.diff(b.heap)
        for loc in keys:
            c, d = a.heap.get(loc), b.heap.get(loc)
            if c is d:
                continue
            if c is None or d is None or not c.same(d):
                return False
        return True

    def widen(self, old, new):
        """replace what still changes by unknown-with-provenance"""
        lca, keys = old.heap.diff(new.heap)
        own = {}
        for loc in keys:
            o, c = old.heap.get(loc), new.heap.get(loc)
            if c is None:
                continue
            if o is None or o is c or o.same(c):
                own[loc] = c
            else:
                own[loc] = self.widen_cell(o, c)
        return St(Heap(own, lca), new.guards)

    def wv(self, a, b):
        if a is b:
            return b
        if a is None or b is None:
            return b if a is None else a
        keep, pure = [], []
        for v in (b.a[0] if b.tag == "phi" else (b,)):
            if v.tag in ("ref", "fn", "cls", "bound", "wrap", "missing", "mod", "ext"):
                keep.append(v)
            else:
                pure.append(v)
        for v in (a.a[0] if a.tag == "phi" else (a,)):
            if v.tag in ("ref", "fn", "cls", "bound", "wrap", "missing", "mod", "ext"):
                keep.append(v)
            else:
                pure.append(v)
        lv = frozenset().union(*(leaves_of(p) for p in pure)) if pure else None
        vals = list(keep)
        if lv is not None:
            vals.append(Top(lv))
        return Phi(vals)

    def widen_cell(self, o, c):
        r = c.copy()
        if r.val is not None:
            r.val = self.wv(o.val, c.val)
        if r.f is not None:
            r.f = {k: self.wv((o.f or {}).get(k), v) for k, v in c.f.items()}
        if r.items is not None:
            r.items = None
            r.star = self.wv(
                o.star if o.star is not None else (Phi(o.items) if o.items else None),
                Phi(c.items) if c.items else Top(()),
            )
        elif r.star is not None:
            r.star = self.wv(o.star if o.star is not None else (Phi(o.items) if o.items else None), c.star)
        return r

    # ------------------------------------------------------------------ events
    def ev(self, kind, node, st, **kw):
        if not self.record:
            return
        fn = self.callstack[-1] if self.callstack else self.cur_module_fn
        e = Ev(
            kind,
            node,
            fn,
            tuple(self.callstack),
            st.guards,
            tries=tuple(self.handler_ctx),
            withs=tuple(self.with_ctx),
            loop=self.loopdepth,
            traced=self.traced,
            baked=self.baked,
            ctx=self.ctx,
            **kw,
        )
        self.events.append(e)

    cur_module_fn = None

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st, fr)
        return st

    def stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > 3_000_000:
            raise AnalysisError("analysis budget exceeded")
        self.curnode = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError(f"unsupported statement {type(s).__name__} in {fr.fn.module}:{s.lineno}")
        return m(s, st, fr)

    def s_Expr(self, s, st, fr):
        self.expr(s.value, st, fr)
        return st

    def s_Pass(self, s, st, fr):
        return st

    def s_Global(self, s, st, fr):
        fr.globals |= set(s.names)
        return st

    def s_Nonlocal(self, s, st, fr):
        fr.nonlocals |= set(s.names)
        return st

    def s_Assign(self, s, st, fr):
        v = self.expr(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, st, fr), st, fr)
        return st

    def s_AugAssign(self, s, st, fr):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.name(t.id, t, st, fr)
            rhs = self.expr(s.value, st, fr)
            new = self.inplace(s, cur, op, rhs, st, fr)
            self.setname(t.id, new, st, fr)
        elif isinstance(t, ast.Attribute):
            base = self.expr(t.value, st, fr)
            cur = self.getattr_(base, t.attr, t, st, fr)
            rhs = self.expr(s.value, st, fr)
            new = self.inplace(s, cur, op, rhs, st, fr)
            self.setattr_(base, t.attr, new, t, st, fr)
        elif isinstance(t, ast.Subscript):
            base = self.expr(t.value, st, fr)
            idx = self.expr(t.slice, st, fr)
            cur = self.subscript(base, idx, t, st, fr)
            rhs = self.expr(s.value, st, fr)
            new = self.binop(s, op, cur, rhs, st, fr)
            self.setsub(base, idx, new, t, st, fr)
        return st

    def arraylike(self, ref, st):
        """does in-place arithmetic on this value act on shared storage?"""
        c = self.cell(ref, st)
        if c is None:
            return False
        if c.kind == "arr":
            return not self.scalarish(c.val)
        if c.kind == "param":
            loc = ref.a[0]
            if ref.a[1]:
                # element / slice of a caller array: a basic index into a matrix may itself be a row
                return True
            return loc.origin in ("array", "list")
        return c.kind in ("list", "set")

    def scalarish(self, t):
        if is_k(t):
            return True
        if t.tag == "op":
            n = t.a[0]
            if n in ("len", "int", "float", "round", "bool", "abs_scalar", "range_elem", "enum_idx", "attr"):
                return True
            if n in ("add", "mul", "bin", "neg"):
                return all(self.scalarish(x) for x in t.a[1:] if isinstance(x, T))
        if t.tag == "phi":
            return all(self.scalarish(x) for x in t.a[0])
        return False

    def inplace(self, node, cur, op, rhs, st, fr):
        if cur.tag == "phi":
            return Phi([self.inplace(node, x, op, rhs, st, fr) for x in cur.a[0]])
        if cur.tag == "ref":
            c = self.cell(cur, st)
            if c is not None and c.kind in ("list", "set") and op in ("Add", "BitOr", "Sub", "BitAnd") and not cur.a[1]:
                ms = self.set_op(op, cur, rhs, st) if c.kind == "set" else None
                self.store_event(cur, node, st, how=f"augmented assignment", idx=None, value=rhs)
                if ms is not None:
                    self.set_members(cur, ms, st)
                elif c.kind == "list" and op == "Add":
                    self.list_extend(cur, rhs, node, st, fr)
                elif op == "BitOr":
                    self.list_star(cur, self.elem(rhs, node, st, fr), st)
                return cur
            if c is not None and c.kind == "list" and op == "Mult" and not cur.a[1] and c.items is not None and not c.summary:
                self.store_event(cur, node, st, how="augmented assignment", idx=None, value=rhs)
                c = self.cell(cur, st).copy()
                if is_k(rhs) and isinstance(kval(rhs), int) and 0 <= kval(rhs) * len(c.items) <= 40:
                    c.items = c.items * kval(rhs)
                else:
                    c = Cell("arr", val=Op("repeat", Op("list", *[self.val(z, st) for z in c.items]), self.val(rhs, st)))
                st.heap[cur.a[0]] = c
                return cur
            if c is not None and self.arraylike(cur, st):
                newv = self.models.nbin(op, self.val(cur, st), self.val(rhs, st))
                self.store_event(cur, node, st, how="in-place arithmetic", idx=None, value=rhs)
                self.write_content(cur, newv, st)
                return cur
        return self.binop(node, op, cur, rhs, st, fr)

    def write_content(self, ref, newv, st, weak=False):
        loc, path = ref.a
        c = st.heap.get(loc)
        if c is None:
            return
        c = c.copy()
        if not path:
            nv = newv
        else:
            nv = Op("upd", c.val if c.val is not None else Top(()), Tup(tuple(path)), newv)
        if c.summary or weak:
            nv = phi2(c.val, nv) if c.val is not None else nv
        if size_of(nv) > 4000 * self.models.BIG[0]:
            nv = Top(leaves_of(nv))
        c.val = nv
        st.heap[loc] = c

    def store_event(self, ref, node, st, how, idx, value=None, attr=None):
        certain = not any(p.tag == "op" and p.a[0] == "idx?" for p in ref.a[1]) if ref.tag == "ref" else True
        c = st.heap.get(ref.a[0]) if ref.tag == "ref" else None
        if c is not None and c.kind == "set" and c.val is not None:
            st.heap[ref.a[0]] = c = c.copy()
            c.val = None  # no longer the literal
        self.ev("store", node, st, ref=ref, loc=ref.a[0] if ref.tag == "ref" else None, how=how, idx=idx, value=value,
                attr=attr, certain=certain, valnum=self.val(value, st) if value is not None else None)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setname(t.id, MISS, st, fr)
            elif isinstance(t, ast.Attribute):
                b = self.expr(t.value, st, fr)
                self.ev("delattr", t, st, base=b, attr=t.attr)
                for r in self.refs(b):
                    c = self.cell(r, st)
                    if c is not None and c.f is not None:
                        c = c.copy()
                        c.f.pop(t.attr, None)
                        st.heap[r.a[0]] = c
            elif isinstance(t, ast.Subscript):
                b = self.expr(t.value, st, fr)
                i = self.expr(t.slice, st, fr)
                self.ev("delitem", t, st, base=b, idx=i)
                if b.tag == "op" and b.a[0] == "instdict" and is_k(i):
                    c = self.cell(b.a[1], st)
                    if c is not None and c.f is not None:
                        if kval(i) not in c.f:
                            self.ev("missing_key", t, st, base=b, key=i)
                        c = c.copy()
                        c.f.pop(kval(i), None)
                        st.heap[b.a[1].a[0]] = c
                    continue
                for r in self.refs(b):
                    c = self.cell(r, st)
                    if c is not None and c.kind == "dict" and c.star is None and is_k(i) and i not in (c.f or {}) and all(is_k(k) for k in c.f or {}):
                        self.ev("missing_key", t, st, base=b, key=i)
                    self.store_event(r, t, st, how="item deletion", idx=i)
                    c = self.cell(r, st)
                    if c is not None and c.kind == "dict" and i in (c.f or {}):
                        c = c.copy()
                        c.f.pop(i, None)
                        st.heap[r.a[0]] = c
                    elif c is not None and c.kind == "list" and c.items is not None:
                        c = c.copy()
                        if is_k(i) and isinstance(kval(i), int) and -len(c.items) <= kval(i) < len(c.items):
                            l = list(c.items)
                            del l[kval(i)]
                            c.items = tuple(l)
                        st.heap[r.a[0]] = c
        return st

    def s_Return(self, s, st, fr):
        v = self.expr(s.value, st, fr) if s.value is not None else NONE
        fr.returns.append((v, st))
        return None

    def s_Raise(self, s, st, fr):
        if s.exc is not None:
            self.expr(s.exc, st, fr)
        self.ev("raise", s, st)
        if self.try_stack:
            self.try_stack[-1].append(st.fork())
        return None

    def s_Assert(self, s, st, fr):
        c = self.expr(s.test, st, fr)
        t = self.truth(c, st)
        if self.try_stack:
            self.try_stack[-1].append(st.fork())
        if t is False:
            return None
        self.refine(s.test, True, st, fr)
        return st

    def s_Import(self, s, st, fr):
        for a in s.names:
            self.ev("import", s, st, module=a.name)
            if a.asname:
                v = self.w.import_module(a.name, self)
            else:
                top = a.name.split(".")[0]
                self.w.import_module(a.name, self)
                v = self.w.import_module(top, self)
            self.setname(a.asname or a.name.split(".")[0], v, st, fr)
        return st

    def s_ImportFrom(self, s, st, fr):
        base = self.w.resolve_from(fr.fn.module, s)
        self.ev("import", s, st, module=base)
        for a in s.names:
            v = self.w.import_name(base, a.name, self, st)
            self.setname(a.asname or a.name, v, st, fr)
        return st

    def s_FunctionDef(self, s, st, fr):
        v = self.make_fn(s, st, fr)
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st, fr)
        self.setname(s.name, v, st, fr)
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def make_fn(self, s, st, fr, qual=None, cls=None):
        key = (id(s), fr.loc)
        fo = self.fnobjs.get(key)
        a = s.args
        defaults = [self.mark_default(self.expr(d, st, fr), d, st) for d in a.defaults]
        kwd = {
            p.arg: self.mark_default(self.expr(d, st, fr), d, st)
            for p, d in zip(a.kwonlyargs, a.kw_defaults)
            if d is not None
        }
        if fo is None:
            name = getattr(s, "name", "<lambda>")
            if cls is None:
                cls = getattr(fr, "cls", None)
            base = qual or (f"{cls.qual}.{name}" if cls is not None else (name if fr.fn.name == "<module>" else f"{fr.fn.qual}.{name}"))
            fo = FuncObj(s, fr.fn.module, base, fr.loc, cls, defaults, kwd)
            fo.encl_selfv = fr.selfv
            fo.encl_cls = getattr(fr, "defcls", None)
            self.fnobjs[key] = fo
        return mk("fn", fo)

    def mark_default(self, v, node, st):
        if v.tag == "ref":
            loc = v.a[0]
            if loc.root is None:
                loc.root = f"default argument at line {node.lineno}"
        return v

    def decorate(self, d, v, st, fr):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter") and isinstance(d.value, ast.Name):
            cur = self.name(d.value.id, d, st, fr)
            if cur.tag == "op" and cur.a[0] == "property":
                return Op("property", cur.a[1], v) if d.attr == "setter" else cur
        dv = self.expr(d, st, fr)
        if dv.tag == "ext":
            p = dv.a[0]
            if p == "builtins.property" or p == "functools.cached_property":
                return Op("property", v, NONE)
            if p == "builtins.staticmethod":
                return Op("staticmethod", v)
            if p == "builtins.classmethod":
                return Op("classmethod", v)
        return self.call(dv, [v], {}, d, st, fr)

    def s_ClassDef(self, s, st, fr):
        bases = []
        for b in s.bases:
            bv = self.expr(b, st, fr)
            bases.append(bv.a[0] if bv.tag == "cls" else bv)
        qual = s.name if fr.fn.name == "<module>" else f"{fr.fn.qual}.{s.name}"
        key = (id(s), fr.loc, "cls")
        co = self.fnobjs.get(key)
        if co is None:
            co = ClassObj(s.name, fr.fn.module, qual, bases, s)
            co.compute_mro()
            self.fnobjs[key] = co
        loc = self.newloc(s, "frame", st, label=f"class {qual}")
        st.heap[loc] = Cell("frame", f={"__qualname__": K(qual)})
        cfr = Frame(fr.fn, loc, ctx=fr.ctx)
        cfr.parent_loc = fr.loc
        cfr.cls = co
        cfr.is_class = True
        self.w.scope_parent[loc] = fr.loc
        st2 = self.block(s.body, st, cfr)
        ns = st.heap[loc].f if st2 is None else st2.heap[loc].f
        co.ns = {k: v for k, v in ns.items() if k != "__qualname__"}
        v = mk("cls", co)
        for d in reversed(s.decorator_list):
            self.expr(d, st, fr)
        self.setname(s.name, v, st, fr)
        return st

    def s_If(self, s, st, fr):
        c = self.expr(s.test, st, fr)
        t = self.truth(c, st)
        if t is True:
            return self.block(s.body, st, fr)
        if t is False:
            return self.block(s.orelse, st, fr)
        cv = self.val(c, st)
        outer = st.guards
        a, b = st.fork(), st.fork()
        a.guards = outer + ((cv, True, id(s)),)
        b.guards = outer + ((cv, False, id(s)),)
        self.refine(s.test, True, a, fr)
        self.refine(s.test, False, b, fr)
        a = self.block(s.body, a, fr)
        b = self.block(s.orelse, b, fr)
        if a is None:
            return b
        if b is None:
            return a
        r = self.join(a, b)
        r.guards = outer
        return r

    def refine(self, test, pol, st, fr):
        """narrow names by simple tests"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not pol, st, fr)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and pol or isinstance(test.op, ast.Or) and not pol:
                for v in test.values:
                    self.refine(v, pol, st, fr)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            is_none = isinstance(test.ops[0], ast.Is) == pol if isinstance(test.ops[0], (ast.Is, ast.IsNot)) else None
            if is_none is None:
                return
            tgt = test.left

            def narrow(v):
                alts = list(v.a[0]) if v.tag == "phi" else [v]
                if is_none:
                    k = [x for x in alts if x is NONE]
                    return NONE if not k else k[0]
                k = [x for x in alts if x is not NONE]
                return Phi(k) if k else v

            if isinstance(tgt, ast.Name):
                v = self.lookup(tgt.id, st, fr)
                if v is not None and v.tag == "phi":
                    self.setname(tgt.id, narrow(v), st, fr)
            elif isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name):
                b = self.lookup(tgt.value.id, st, fr)
                if b is not None and b.tag == "ref":
                    c = self.cell(b, st)
                    if c is not None and c.f and tgt.attr in c.f and c.f[tgt.attr].tag == "phi":
                        c = c.copy()
                        c.f[tgt.attr] = narrow(c.f[tgt.attr])
                        st.heap[b.a[0]] = c
        if (
            isinstance(test, ast.Call)
            and isinstance(test.func, ast.Name)
            and test.func.id == "hasattr"
            and len(test.args) == 2
            and isinstance(test.args[1], ast.Constant)
            and isinstance(test.args[0], ast.Name)
        ):
            b = self.lookup(test.args[0].id, st, fr)
            if b is not None and b.tag == "ref":
                c = self.cell(b, st)
                nm = test.args[1].value
                if c is not None and c.f is not None and nm in c.f and c.f[nm].tag == "phi":
                    c = c.copy()
                    alts = [x for x in c.f[nm].a[0] if x is not MISS]
                    if pol:
                        c.f[nm] = Phi(alts)
                    else:
                        c.f.pop(nm)
                    st.heap[b.a[0]] = c

    def truth(self, v, st):
        """True / False / None(unknown)"""
        r = self.truth_of(v, st)
        if r is None and self.tracer is not None and self.traced:
            self.tracer.branch(self, v, st)
        if r is None and self.oracle is not None:
            r = self.oracle(v if v.tag == "phi" else self.val(v, st))
        return r

    def truth_of(self, v, st):
        tag = v.tag
        if tag == "k":
            return bool(kval(v))
        if tag in ("fn", "cls", "bound", "wrap", "mod", "super", "ext"):
            return True
        if tag == "phi":
            r = {self.truth(x, st) for x in v.a[0]}
            return r.pop() if len(r) == 1 else None
        if tag == "tup":
            return len(v.a) > 0
        if tag == "ref":
            c = st.heap.get(v.a[0])
            if c is None:
                return None
            if c.kind in ("list", "tuple", "set"):
                if c.items is not None and not v.a[1]:
                    return len(c.items) > 0
                return None
            if c.kind == "dict":
                if c.f and any(x is not MISS and not (x.tag == "phi" and MISS in x.a[0]) for x in c.f.values()):
                    return True
                if c.f and any(x is not MISS for x in c.f.values()):
                    return None
                return False if (c.star is None and not c.summary) else None
            if c.kind == "inst":
                return None if v.a[0].cls and v.a[0].cls.lookup("__len__")[0] else True
            if c.kind == "param":
                return True if v.a[0].origin == "callable" else None
            if c.kind == "arr" and is_k(c.val) and not v.a[1]:
                return bool(kval(c.val))
            return None
        if tag == "op" and v.a[0] in ("or", "and"):
            r = [self.truth(x, st) for x in v.a[1:]]
            if v.a[0] == "or":
                return True if True in r else False if all(x is False for x in r) else None
            return False if False in r else True if all(x is True for x in r) else None
        return None

    def s_While(self, s, st, fr):
        if self.unroll_while:
            ctx0 = self.ctx
            cur = st
            fr.loops.append(([], []))
            decided = False
            for i in range(self.unroll_while):
                if cur is None:
                    decided = True
                    break
                self.ctx = ctx0 + ((id(s), i),)
                probe = cur.fork()
                nev = len(self.events)
                c = self.truth(self.expr(s.test, probe, fr), probe)
                if c is None:
                    del self.events[nev:]
                    break
                cur = probe
                if not c:
                    decided = True
                    break
                cur = self.block(s.body, cur, fr)
                for x in fr.loops[-1][1]:
                    cur = self.join(cur, x)
                fr.loops[-1][1].clear()
            self.ctx = ctx0
            brk, _ = fr.loops.pop()
            if not decided and cur is not None:
                cur = self.loop(s, cur, fr, None)
            elif cur is not None:
                cur = self.block(s.orelse, cur, fr)
            for b in brk:
                cur = self.join(cur, b)
            return cur
        return self.loop(s, st, fr, None)

    def s_For(self, s, st, fr):
        it = self.expr(s.iter, st, fr)
        seq = self.iter_seq(it, st, fr)
        if seq is not None and len(seq) <= 40:
            fr.loops.append(([], []))
            self.loopnodes = getattr(self, "loopnodes", [])
            ctx0 = self.ctx
            outs = []
            cur = st
            for i, v in enumerate(seq):
                if cur is None:
                    break
                self.ctx = ctx0 + ((id(s), i),)
                self.assign(s.target, v, cur, fr)
                cur = self.block(s.body, cur, fr)
                brk, cont = fr.loops[-1]
                for c in cont:
                    cur = self.join(cur, c)
                cont.clear()
            self.ctx = ctx0
            brk, _ = fr.loops.pop()
            if cur is not None:
                cur = self.block(s.orelse, cur, fr)
            for b in brk:
                cur = self.join(cur, b)
            return cur
        return self.loop(s, st, fr, it)

    s_AsyncFor = s_For

    def loop(self, s, st, fr, it):
        outer = st.guards
        self.loopdepth += 1
        exits = []
        cur = st
        tmark = None
        is_for = it is not None
        nonterm = False
        infinite = False
        for rnd in range(8):
            nev = len(self.events)
            head = cur.fork()
            head.guards = outer
            nret = len(fr.returns)
            nyld = len(fr.yields)
            fr.loops.append(([], []))
            body_st = head.fork()
            if is_for:
                ev = self.elem(it, s, body_st, fr)
                body_st.guards = outer + ((Op("iter", self.val(it, body_st)), True, id(s)),)
                self.assign(s.target, ev, body_st, fr)
                exit_st = head.fork()
            else:
                c = self.expr(s.test, body_st, fr)
                t = self.truth(c, body_st)
                cv = self.val(c, body_st)
                exit_st = body_st.fork()
                exit_st.guards = outer
                if t is True:
                    exit_st = None
                if t is False:
                    fr.loops.pop()
                    cur = body_st
                    exits = []
                    self.loopdepth -= 1
                    cur.guards = outer
                    return self.block(s.orelse, cur, fr)
                body_st.guards = outer + ((cv, True, id(s)),)
                self.refine(s.test, True, body_st, fr)
                if exit_st is not None:
                    self.refine(s.test, False, exit_st, fr)
            end = self.block(s.body, body_st, fr)
            brk, cont = fr.loops.pop()
            for c in cont:
                end = self.join(end, c)
            nxt = self.join(head, end) if end is not None else head
            nxt.guards = outer
            stable = self.same(nxt, head)
            if rnd >= 2 and not stable:
                nxt = self.widen(head, nxt)
            if stable or rnd == 7:
                break
            # discard the events / returns of the non-final round
            if self.record:
                del self.events[nev:]
            del fr.returns[nret:]
            del fr.yields[nyld:]
            cur = nxt
        self.loopdepth -= 1
        out = exit_st
        if out is not None:
            out.guards = outer
            out = self.block(s.orelse, out, fr)
        for b in brk:
            b.guards = outer
            out = self.join(out, b)
        if out is not None:
            out.guards = outer
        return out

    def s_Break(self, s, st, fr):
        fr.loops[-1][0].append(st)
        return None

    def s_Continue(self, s, st, fr):
        fr.loops[-1][1].append(st)
        return None

    def s_With(self, s, st, fr):
        return self.with_items(s, 0, st, fr)

    s_AsyncWith = s_With

    def with_items(self, s, i, st, fr):
        if i == len(s.items):
            return self.block(s.body, st, fr)
        item = s.items[i]
        cm = self.expr(item.context_expr, st, fr)
        if cm.tag == "op" and cm.a[0] == "ctxmgr":
            # a repository @contextmanager generator: analyse it in place, the with-body at its yield
            f, args, kwargs = cm.a[1], cm.a[2], cm.a[3]
            res = {}

            def body(yv, st2):
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, yv, st2, fr)
                self.with_ctx.append(("ctxmgr", f, s))
                try:
                    saved, self.callstack = self.callstack, caller_stack
                    ctxs, self.ctx = self.ctx, caller_ctx
                    out = self.with_items(s, i + 1, st2, fr)
                    self.callstack, self.ctx = saved, ctxs
                finally:
                    self.with_ctx.pop()
                return out

            caller_stack, caller_ctx = list(self.callstack), self.ctx
            st_after = self.call_ctxmgr(f, list(args), dict(kwargs), item.context_expr, st, fr, body)
            return st_after
        self.ev("with", item.context_expr, st, cm=self.val(cm, st))
        self.with_ctx.append(("ext", self.val(cm, st), s))
        if item.optional_vars is not None:
            v = Op("enter", cm) if cm.tag != "ref" else cm
            if cm.tag == "op" and cm.a[0] == "call":
                v = self.arr(item, Op("enter", cm), st)
            self.assign(item.optional_vars, v, st, fr)
        out = self.with_items(s, i + 1, st, fr)
        self.with_ctx.pop()
        return out

    def call_ctxmgr(self, f, args, kwargs, node, st, fr, body):
        fo = f.a[0]
        out = self.inline(fo, args, kwargs, node, st, fr, yield_cb=body)
        return out[1] if out is not None else None

    def s_Try(self, s, st, fr):
        outer = st.guards
        nret = len(fr.returns)
        nl = [(len(b), len(c)) for b, c in fr.loops]
        snaps = []
        depth = len(self.handler_ctx)
        if s.finalbody:  # active around the handlers and the else part too
            self.handler_ctx.append(ast.Try(body=[], handlers=[], orelse=[], finalbody=s.finalbody))
        if s.handlers:
            self.try_stack.append(snaps)
            self.handler_ctx.append(s)
        snaps.append(st.fork())
        cur = st
        for b in s.body:
            if cur is None:
                break
            self.raised = False
            cur = self.stmt(b, cur, fr)
            if self.raised:
                cur = None
            if cur is not None and s.handlers:
                snaps.append(cur.fork())
        if s.handlers:
            self.try_stack.pop()
            self.handler_ctx.pop()
        if cur is not None and s.orelse:
            cur = self.block(s.orelse, cur, fr)
        exits = [cur] if cur is not None else []
        if s.handlers and not (self.precise and cur is not None):
            # an exception can surface after any completed statement except a completed body
            hs = None
            for x in snaps[:-1] if len(snaps) > 1 and cur is not None and not self._returns(s.body) else snaps:
                hs = self.join(hs, x)
            for h in s.handlers:
                hst = hs.fork()
                hst.guards = outer + ((Op("except", K(id(s))), True, id(h)),)
                if h.type is not None:
                    self.expr(h.type, hst, fr)
                if h.name:
                    self.setname(h.name, self.arr(h, Op("exception"), hst), hst, fr)
                r = self.block(h.body, hst, fr)
                if r is not None:
                    exits.append(r)
        out = None
        for e in exits:
            out = self.join(out, e)
        if out is not None:
            out.guards = outer
        del self.handler_ctx[depth:]
        if s.finalbody:
            new = []
            pending = fr.returns[nret:]
            del fr.returns[nret:]
            for v, rst in pending:
                r = self.block(s.finalbody, rst, fr)
                if r is not None:
                    new.append((v, r))
            fr.returns.extend(new)
            for (b, c), (nb, nc) in zip(fr.loops, nl):
                b[nb:] = [x for x in (self.block(s.finalbody, y, fr) for y in b[nb:]) if x is not None]
                c[nc:] = [x for x in (self.block(s.finalbody, y, fr) for y in c[nc:]) if x is not None]
            if out is not None:
                out = self.block(s.finalbody, out, fr)
        return out

    s_TryStar = s_Try

    def _returns(self, body):
        return False

    def s_Match(self, s, st, fr):
        subj = self.expr(s.subject, st, fr)
        out = None
        for case in s.cases:
            c = st.fork()
            for n in ast.walk(case.pattern):
                nm = getattr(n, "name", None)
                if isinstance(nm, str):
                    self.setname(nm, Top(leaves_of(self.val(subj, c))), c, fr)
            if case.guard is not None:
                self.expr(case.guard, c, fr)
            out = self.join(out, self.block(case.body, c, fr))
        return self.join(out, st)

    # ------------------------------------------------------------------ names
    def lookup(self, name, st, fr):
        if getattr(fr, "is_class", False):
            c = st.heap[fr.loc]
            if name in c.f:
                return c.f[name]
        loc = fr.loc
        if name in fr.globals:
            loc = self.w.global_loc(fr.fn.module)
        first = True
        while loc is not None:
            c = st.heap.get(loc)
            if c is not None and name in c.f and (first or not self.w.is_class_scope(loc)):
                v = c.f[name]
                if v is not MISS:
                    return v
            first = False
            loc = self.w.scope_parent.get(loc)
        return None

    def name(self, name, node, st, fr):
        v = self.lookup(name, st, fr)
        if v is None:
            if name == "__class__" :
                return Top(())
            if hasattr(builtins, name):
                return Ext("builtins." + name)
            if name in ("__file__", "__name__", "__doc__", "__package__", "__path__"):
                return K(fr.fn.module if name == "__name__" else name)
            self.ev("unbound", node, st, name=name)
            return Top(())
        if v.tag == "phi" and MISS in v.a[0]:
            self.ev("maybe_unbound", node, st, name=name)
            v = Phi([x for x in v.a[0] if x is not MISS])
        return v

    def setname(self, name, v, st, fr):
        loc = fr.loc
        if name in fr.globals:
            loc = self.w.global_loc(fr.fn.module)
            self.ev("global_store", self.curnode, st, name=name)
        elif name in fr.nonlocals:
            p = self.w.scope_parent.get(loc)
            while p is not None and name not in st.heap[p].f:
                p = self.w.scope_parent.get(p)
            loc = p or loc
        c = st.heap[loc].copy()
        c.f[name] = v
        st.heap[loc] = c

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            seq = self.exact_seq(v, st, fr)
            if seq is not None and not stars and len(seq) == n:
                for e, x in zip(t.elts, seq):
                    self.assign(e, x, st, fr)
            elif seq is not None and stars and len(seq) >= n - 1:
                i = stars[0]
                after = n - i - 1
                mid = seq[i : len(seq) - after]
                for e, x in zip(t.elts[:i], seq[:i]):
                    self.assign(e, x, st, fr)
                lv = self.alloc(t.elts[i], Cell("list", items=tuple(mid)), st)
                self.assign(t.elts[i].value, lv, st, fr)
                for e, x in zip(t.elts[i + 1 :], seq[len(seq) - after :]):
                    self.assign(e, x, st, fr)
            elif v.tag == "phi":
                alts = []
                for x in v.a[0]:
                    sq = self.exact_seq(x, st, fr)
                    alts.append(sq if sq is not None and len(sq) == n else None)
                for i, e in enumerate(t.elts):
                    tt = e.value if isinstance(e, ast.Starred) else e
                    vs = []
                    for x, sq in zip(v.a[0], alts):
                        vs.append(sq[i] if sq is not None else self.subscript(x, K(i), e, st, fr))
                    self.assign(tt, Phi(vs), st, fr)
            else:
                for i, e in enumerate(t.elts):
                    tt = e.value if isinstance(e, ast.Starred) else e
                    x = self.unpack_item(v, i, n, e, st, fr)
                    self.assign(tt, x, st, fr)
        elif isinstance(t, ast.Attribute):
            base = self.expr(t.value, st, fr)
            self.setattr_(base, t.attr, v, t, st, fr)
        elif isinstance(t, ast.Subscript):
            base = self.expr(t.value, st, fr)
            idx = self.expr(t.slice, st, fr)
            self.setsub(base, idx, v, t, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def unpack_item(self, v, i, n, node, st, fr):
        vv = self.val(v, st)
        if vv.tag == "op" and vv.a[0] == "attr" and vv.a[2] is K("shape"):
            return Op("dim", vv.a[1], K(i))
        return self.subscript(v, K(i), node, st, fr)

    def refs(self, v):
        if v.tag == "ref":
            return [v]
        if v.tag == "phi":
            return [x for x in v.a[0] if x.tag == "ref"]
        return []

    # ------------------------------------------------------------------ attributes
    def getattr_(self, base, attr, node, st, fr, quiet=False):
        tag = base.tag
        if tag == "phi":
            vs = [self.getattr_(x, attr, node, st, fr, quiet) for x in sorted(base.a[0], key=skey) if x is not NONE and x is not MISS]
            return Phi(vs) if vs else Top(())
        if tag == "mod":
            return self.w.import_name(base.a[0], attr, self, st)
        if tag == "ext":
            return Ext(base.a[0] + "." + attr)
        if tag == "ref":
            loc, path = base.a
            c = st.heap.get(loc)
            if c is None:
                return Top(())
            if c.kind == "inst":
                return self.inst_attr(base, loc.cls, attr, node, st, fr, quiet)
            if attr == "__dict__":
                return base
            if c.kind == "param" and not path:
                if c.f and attr in c.f:
                    return c.f[attr]
                if loc.origin in ("array", "list"):
                    return self.array_attr(base, attr, node, st)
                if attr in ("T",) or attr in ARRAY_ATTRS:
                    if loc.origin in ("any", None) and attr in ("shape", "ndim", "dtype", "T"):
                        loc_o = loc
                    return self.array_attr(base, attr, node, st)
                return self.param_child(loc, attr, st)
            return self.array_attr(base, attr, node, st)
        if tag == "cls":
            return self.class_attr(base, attr, node, st, fr)
        if tag == "super":
            co, selfv = base.a
            rt = selfv.a[0].cls if selfv.tag == "ref" and selfv.a[0].cls is not None else (selfv.a[0] if selfv.tag == "cls" else co)
            v, owner = rt.lookup(attr, after=co)
            if v is None:
                return mk("extm", base, attr)
            return self.bind(v, selfv, rt, node, st, fr)
        if tag in ("fn", "bound", "wrap"):
            if attr == "__name__":
                return self.fn_name(base)
            if attr == "__self__" and tag == "bound":
                return base.a[0]
            if attr == "func" and tag == "wrap" and base.a[0] == "partial":
                return base.a[1]
            if attr == "__qualname__" and tag == "fn":
                return K(base.a[0].qual)
            return mk("extm", base, attr)
        if tag == "op" and base.a[0] == "property":
            return base
        if tag == "k" and kval(base) is None:
            self.ev("none_attr", node, st, attr=attr)
            return Top(())
        if tag == "top":
            return Top(base.a[0])
        if attr in ARRAY_ATTRS or attr == "T":
            return self.array_attr(base, attr, node, st)
        if tag == "op" and base.a[0] not in ("attr",):
            return mk("extm", base, attr)
        return mk("extm", base, attr)

    def fn_name(self, v):
        if v.tag == "fn":
            n = getattr(v.a[0], "wraps_name", None)
            return K(n or v.a[0].name)
        if v.tag == "bound":
            return self.fn_name(v.a[1])
        if v.tag == "wrap" and v.a[0] in ("jit",):
            return self.fn_name(v.a[1])
        return Top(())

    def param_child(self, loc, attr, st):
        key = ("child", loc.key, attr)
        ch = self.locs.get(key)
        if ch is None:
            ch = Loc(key, "param", f"{loc.label}.{attr}", root=loc.root, origin="any")
            self.locs[key] = ch
        if ch not in st.heap:
            st.heap[ch] = Cell("param", val=Op("attr", st.heap[loc].val, K(attr)), f={})
        return mk("ref", ch, ())

    def array_attr(self, base, attr, node, st):
        if attr == "T":
            if base.tag == "ref":
                return viewref(base.a[0], base.a[1] + (Op("T"),))
            return self.models.norm_op("T", (self.val(base, st),))
        if attr in ARRAY_ATTRS:
            v = self.val(base, st)
            if attr in ("shape", "ndim") and v in self.shapes:
                return Tup(self.shapes[v]) if attr == "shape" else K(len(self.shapes[v]))
            if self.shapes and attr in ("size", "shape", "ndim"):
                sh = self.models.shape_of(self, v)
                if sh is not None:
                    n = self.models.size_known(self, v) if attr == "size" else Tup(tuple(sh)) if attr == "shape" else K(len(sh))
                    if n is not None:
                        return n
            return Op("attr", v, K(attr))
        return mk("extm", base, attr)

    def inst_attr(self, base, cls, attr, node, st, fr, quiet=False):
        c = self.cell(base, st)
        if attr == "__class__":
            return mk("cls", cls)
        if attr == "__dict__":
            return Op("instdict", base)
        clsv, owner = cls.lookup(attr)
        if clsv is not None and clsv.tag == "op" and clsv.a[0] == "property":
            self.ev("propget", node, st, base=base, attr=attr)
            return self.call(clsv.a[1], [base], {}, node, st, fr)
        if attr in c.f:
            v = c.f[attr]
            if v.tag == "phi" and MISS in v.a[0]:
                rest = [x for x in v.a[0] if x is not MISS]
                if clsv is not None:
                    rest.append(self.bind(clsv, base, cls, node, st, fr))
                elif not quiet:
                    self.ev("maybe_missing_attr", node, st, base=base, attr=attr)
                self.ev("attrget", node, st, base=base, attr=attr)
                return Phi(rest) if rest else Top(())
            if v is not MISS:
                self.ev("attrget", node, st, base=base, attr=attr)
                return v
        if clsv is not None:
            return self.bind(clsv, base, cls, node, st, fr)
        ga, _ = cls.lookup("__getattr__")
        if ga is not None:
            return self.call(self.bind(ga, base, cls, node, st, fr), [K(attr)], {}, node, st, fr)
        if cls.has_ext_base():
            key = ("extattr", base.a[0].key, attr)
            ch = self.locs.get(key)
            if ch is None:
                ch = Loc(key, "param", f"{cls.name}.{attr}", root=None, origin="any")
                self.locs[key] = ch
            if ch not in st.heap:
                st.heap[ch] = Cell("param", val=Op("attr", base, K(attr)), f={})
            return mk("ref", ch, ())
        if not quiet:
            self.ev("missing_attr", node, st, base=base, attr=attr)
        return Top(())

    def bind(self, v, selfv, cls, node, st, fr):
        if v.tag == "fn":
            return mk("bound", selfv, v)
        if v.tag == "op":
            if v.a[0] == "staticmethod":
                return v.a[1]
            if v.a[0] == "classmethod":
                return mk("bound", mk("cls", cls), v.a[1])
            if v.a[0] == "property":
                return self.call(v.a[1], [selfv], {}, node, st, fr)
        if v.tag == "wrap":
            # jit/partial objects are not descriptors except functions wrapped by jit
            return mk("bound", selfv, v) if v.a[0] == "jit" else v
        return v

    def class_attr(self, base, attr, node, st, fr):
        co = base.a[0]
        if attr == "__name__":
            return K(co.name)
        if attr == "__qualname__":
            return K(co.qual)
        v, owner = co.lookup(attr)
        if v is None:
            if attr == "__new__":
                return mk("extm", base, "__new__")
            if attr == "mro":
                return mk("extm", base, "mro")
            if co.has_ext_base():
                return Top(())
            self.ev("missing_attr", node, st, base=base, attr=attr)
            return Top(())
        if v.tag == "op" and v.a[0] == "staticmethod":
            return v.a[1]
        if v.tag == "op" and v.a[0] == "classmethod":
            return mk("bound", base, v.a[1])
        return v

    def setattr_(self, base, attr, v, node, st, fr):
        if base.tag == "phi":
            for x in base.a[0]:
                if x.tag == "ref":
                    self._setattr1(x, attr, v, node, st, fr, weak=True)
            return
        if base.tag == "ref":
            self._setattr1(base, attr, v, node, st, fr)
        elif base.tag == "cls":
            self.ev("classattr_store", node, st, base=base, attr=attr)
            base.a[0].ns[attr] = phi2(base.a[0].ns.get(attr, v), v)
        elif base.tag in ("ext", "extm", "mod"):
            self.ev("ext_attr_store", node, st, base=base, attr=attr, value=self.val(v, st))
        else:
            self.ev("ext_attr_store", node, st, base=base, attr=attr, value=self.val(v, st))

    def _setattr1(self, base, attr, v, node, st, fr, weak=False):
        loc = base.a[0]
        c = st.heap.get(loc)
        if c is None:
            return
        if c.kind == "inst":
            clsv, owner = loc.cls.lookup(attr)
            if clsv is not None and clsv.tag == "op" and clsv.a[0] == "property":
                if clsv.a[2] is not NONE:
                    self.call(clsv.a[2], [base, v], {}, node, st, fr)
                else:
                    self.ev("readonly_property", node, st, base=base, attr=attr)
                return
            self.ev("attrset", node, st, base=base, attr=attr, value=v, valnum=self.val(v, st))
            if self.mark_attr and (loc.cls.name, attr) == self.mark_attr and v.tag == "ref":
                # analysis-only marker: later arithmetic on this value stays distinguishable from earlier values
                vc = st.heap.get(v.a[0])
                if vc is not None and vc.kind == "arr":
                    vc = vc.copy()
                    vc.val = Op("mark", K(v.a[0].n if isinstance(v.a[0].n, int) else str(v.a[0].n)), self.val(v, st))
                    st.heap[v.a[0]] = vc
            c = c.copy()
            if weak or c.summary:
                c.f[attr] = phi2(c.f[attr], v) if attr in c.f else (v if not weak else phi2(MISS, v))
            else:
                c.f[attr] = v
            st.heap[loc] = c
        elif c.kind == "param":
            self.ev("param_attr_store", node, st, base=base, loc=loc, attr=attr, value=v)
            c = c.copy()
            c.f = dict(c.f or {})
            c.f[attr] = v
            st.heap[loc] = c
        elif c.kind == "arr":
            if attr in ("shape", "dtype"):
                self.store_event(base, node, st, how=f"attribute {attr} assignment", idx=None)
        else:
            self.ev("ext_attr_store", node, st, base=base, attr=attr, value=self.val(v, st))

    # ------------------------------------------------------------------ subscripts
    def index_kind(self, i, st, depth=0):
        if depth > 6:
            return "unknown"
        if i.tag == "k":
            v = kval(i)
            if isinstance(v, bool):
                return "fancy"
            return "basic" if isinstance(v, int) or v is None or v is Ellipsis else "key"
        if i.tag == "sl":
            return "basic"
        if i.tag == "tup":
            ks = {self.index_kind(x, st, depth + 1) for x in i.a}
            if "fancy" in ks:
                return "fancy"
            return "basic" if ks <= {"basic"} else "unknown"
        if i.tag == "phi":
            ks = {self.index_kind(x, st, depth + 1) for x in i.a[0]}
            return ks.pop() if len(ks) == 1 else "unknown"
        if i.tag == "ref":
            c = st.heap.get(i.a[0])
            if c is None:
                return "unknown"
            if c.kind in ("list", "set"):
                return "fancy" if not i.a[1] else self.index_kind(self.val(i, st), st, depth + 1)
            if c.kind == "param":
                if not i.a[1]:
                    return {"int": "basic", "array": "fancy", "list": "fancy"}.get(i.a[0].origin, "unknown")
                return "unknown"
            return self.index_kind(self.val(i, st), st, depth + 1)
        if i.tag == "op":
            n = i.a[0]
            if n == "sym":
                return "unknown"
            if n in ("len", "int", "range_elem", "enum_idx", "numpy.argmin", "numpy.argmax", "dim"):
                return "basic"
            if n in ("attr",):
                return "unknown"
            if n in ("cmp", "not", "invert", "and", "or", "list", "listof", "bit"):
                return "fancy"
            if n in ("call", "sub", "elem") and len(i.a) > 1:
                p = i.a[1]
                q = p.a[0] if isinstance(p, T) and p.tag == "ext" else None
                if n == "call" and q in self.models.FANCY_RESULTS:
                    return "fancy"
                if n == "call" and q in self.models.INT_RESULTS and len(i.a) <= 3:
                    return "basic"
                if n == "sub":
                    b = i.a[1]
                    if b.tag == "op" and b.a[0] == "call" and b.a[1].tag == "ext" and b.a[1].a[0] in ("numpy.nonzero", "numpy.where", "scipy.optimize.linear_sum_assignment", "numpy.unique", "numpy.triu_indices"):
                        return "fancy"
                    if self.index_kind(b, st, depth + 1) == "fancy":
                        ik = i.a[2]
                        if ik.tag == "k" and isinstance(kval(ik), int) or ik.tag == "op" and ik.a[0] in ("range_elem", "enum_idx", "anyrow"):
                            return "basic"
                        return "fancy"
                if n == "elem":
                    b = i.a[1]
                    if b.tag == "op" and b.a[0] == "call" and b.a[1].tag == "ext" and b.a[1].a[0] in ("builtins.range",):
                        return "basic"
                    if self.index_kind(b, st, depth + 1) == "fancy":
                        return "basic"
            if n in ("add", "mul", "neg", "bin"):
                ks = {self.index_kind(x, st, depth + 1) for x in i.a[1:] if isinstance(x, T) and not (n == "bin" and x is i.a[1])}
                if ks == {"basic"}:
                    return "basic"
                if "fancy" in ks:
                    return "fancy"
        return "unknown"

    def iter_seq(self, v, st, fr=None):
        """elements over which a loop iterates, if exactly known; the rows of an array when their number is known"""
        s = self.exact_seq(v, st, fr)
        if s is None and self.row_count is not None and v.tag in ("ref", "op"):
            c = self.cell(v, st) if v.tag == "ref" else None
            if v.tag == "op" or c is not None and c.kind in ("arr", "param"):
                n = self.row_count(self.val(v, st))
                if n is not None:
                    return [self.subscript(v, K(i), self.curnode, st, fr) for i in range(n)]
        return s

    def const_set(self, v, st):
        """members of a set or sequence of constants, when exactly known"""
        if not self.precise:
            return None
        s = self.exact_seq(v, st)
        return s if s is not None and all(is_k(x) for x in s) else None

    def new_set(self, node, members, st, extra=None):
        ms = []
        for x in members:
            if x not in ms:
                ms.append(x)
        if all(type(kval(x)) is int for x in ms):
            ms.sort(key=kval)
        return self.alloc(node, Cell("set", val=Tup(ms), star=Phi(ms) if ms else None), st, extra=extra)

    def set_members(self, ref, ms, st):
        c = st.heap[ref.a[0]].copy()
        c.val, c.star = Tup(ms), Phi(ms) if ms else None
        st.heap[ref.a[0]] = c

    def set_op(self, op, a, b, st):
        """members of a set expression, when exactly known"""
        x, y = self.const_set(a, st), self.const_set(b, st)
        if x is None or y is None:
            return None
        if op == "BitOr":
            return x + [z for z in y if z not in x]
        if op == "Sub":
            return [z for z in x if z not in y]
        if op == "BitAnd":
            return [z for z in x if z in y]
        return [z for z in x if z not in y] + [z for z in y if z not in x]

    def exact_seq(self, v, st, fr=None):
        """list of elements if statically known"""
        if v.tag == "tup":
            return list(v.a)
        if v.tag == "ref" and not v.a[1]:
            c = st.heap.get(v.a[0])
            if c is not None and c.kind in ("list", "tuple", "set") and c.items is not None and not c.summary:
                return list(c.items)
            if c is not None and c.kind == "dict" and c.star is None and not c.summary and MISS not in c.f.values():
                return list(c.f.keys())
            if self.precise and c is not None and c.kind == "set" and c.val is not None and c.val.tag == "tup" and not c.summary:
                return list(c.val.a)
            if c is not None and c.kind == "arr" and c.val is not None:
                return self.exact_seq(c.val, st)
        if v.tag == "op" and (v.a[0] == "tuple" or v.a[0] == "list" and self.precise):
            return list(v.a[1:])
        if self.precise and v.tag == "op" and v.a[0] == "call" and v.a[1].tag == "ext" and v.a[1].a[0] == "numpy.arange" and len(v.a) == 3 and is_k(v.a[2]) and isinstance(kval(v.a[2]), int) and kval(v.a[2]) <= 40:
            return [K(i) for i in range(kval(v.a[2]))]
        if v.tag == "op" and v.a[0] == "dictitems":
            r = v.a[1]
            c = st.heap.get(r.a[0]) if r.tag == "ref" else None
            if c is not None and c.kind == "dict" and c.star is None and not c.summary and MISS not in c.f.values():
                return [Tup((k, x)) for k, x in c.f.items()]
        if v.tag == "op" and v.a[0] in ("dictvalues",):
            r = v.a[1]
            c = st.heap.get(r.a[0]) if r.tag == "ref" else None
            if c is not None and c.kind == "dict" and c.star is None and not c.summary and MISS not in c.f.values():
                return list(c.f.values())
        if v.tag == "op" and v.a[0] == "zip":
            seqs = [self.iter_seq(x, st) for x in v.a[1:]]
            if seqs and all(s is not None for s in seqs):
                return [Tup(t) for t in zip(*seqs)]
        if v.tag == "op" and v.a[0] == "mapiter" and self.precise:
            seqs = [self.iter_seq(x, st) for x in v.a[2:]]
            if seqs and all(s is not None for s in seqs):
                out, ctx0 = [], self.ctx
                for i, xs in enumerate(zip(*seqs)):
                    self.ctx = ctx0 + (("map", i),)
                    out.append(self.call(v.a[1], list(xs), {}, self.curnode, st, fr))
                self.ctx = ctx0
                return out
        if v.tag == "op" and v.a[0] == "enumerate":
            s = self.iter_seq(v.a[1], st)
            if s is not None:
                return [Tup((K(i), x)) for i, x in enumerate(s)]
        if v.tag == "k" and isinstance(kval(v), (tuple, str)) and v.a[0] == "str" and False:
            return None
        return None

    def literal_seq(self, t):
        """elements of a sequence or array value given by its elements"""
        if t.tag == "tup":
            return list(t.a)
        if t.tag != "op":
            return None
        if t.a[0] in ("tuple", "list"):
            return list(t.a[1:])
        if t.a[0] == "call" and t.a[1].tag == "ext" and t.a[1].a[0] in ("numpy.array", "numpy.asarray") and len(t.a) >= 3:
            return self.literal_seq(t.a[2])
        if t.a[0] == "sub" and len(t.a) == 3 and t.a[2].tag == "sl" and all(is_k(x) for x in t.a[2].a):
            l = self.literal_seq(t.a[1])
            return None if l is None else l[slice(*[kval(x) for x in t.a[2].a])]
        return None

    def subscript(self, base, idx, node, st, fr):
        tag = base.tag
        if tag == "phi":
            vs = [self.subscript(x, idx, node, st, fr) for x in sorted(base.a[0], key=skey) if x is not NONE and x is not MISS]
            return Phi(vs) if vs else Top(())
        if tag == "ext":
            # numpy.c_[...] style constructors, typing generics
            if base.a[0].split(".")[-1] in ("c_", "r_", "s_", "ix_", "mgrid", "ogrid"):
                return self.models.ext_call(self, base, [idx], {}, node, st, fr)
            return base
        if tag == "cls":
            return base
        if tag == "tup":
            if is_k(idx) and isinstance(kval(idx), int) and -len(base.a) <= kval(idx) < len(base.a):
                return base.a[kval(idx)]
            if idx.tag == "sl" and all(is_k(x) for x in idx.a):
                return Tup(base.a[slice(*[kval(x) for x in idx.a])])
            if idx.tag in ("ref", "op") and base.a:
                # an array literal selected by a list of known positions
                lit = self.literal_seq(self.val(idx, st))
                if lit is not None and all(is_k(x) and type(kval(x)) is int and -len(base.a) <= kval(x) < len(base.a) for x in lit):
                    return Tup([base.a[kval(x)] for x in lit])
            return Phi(base.a) if base.a else Top(())
        if tag == "op" and base.a[0] == "instdict":
            if is_k(idx) and isinstance(kval(idx), str):
                return self.inst_attr(base.a[1], base.a[1].a[0].cls, kval(idx), node, st, fr)
            return Top(())
        if tag == "ref":
            loc, path = base.a
            c = st.heap.get(loc)
            if c is None:
                return Top(())
            if c.kind == "inst":
                gi, _ = loc.cls.lookup("__getitem__")
                if gi is not None:
                    return self.call(self.bind(gi, base, loc.cls, node, st, fr), [idx], {}, node, st, fr)
                return Op("sub", base, self.val(idx, st))
            if c.kind in ("list", "tuple", "set") and not path:
                if c.items is not None:
                    if is_k(idx) and isinstance(kval(idx), int) and not isinstance(kval(idx), bool):
                        i = kval(idx)
                        if -len(c.items) <= i < len(c.items) and not c.summary:
                            return c.items[i]
                        return Phi(c.items) if c.items else Top(())
                    if idx.tag == "sl":
                        if all(is_k(x) for x in idx.a):
                            return self.alloc(node, Cell(c.kind, items=tuple(c.items[slice(*[kval(x) for x in idx.a])])), st)
                        return self.alloc(node, Cell(c.kind, star=Phi(c.items) if c.items else Top(())), st)
                    return Phi(c.items) if c.items else Top(())
                if idx.tag == "sl":
                    return self.alloc(node, Cell(c.kind, star=c.star), st)
                el = c.star if c.star is not None else Top(())
                return el
            if c.kind == "dict" and not path:
                if idx in c.f and c.f[idx] is not MISS:
                    v = c.f[idx]
                    if v.tag == "phi":
                        v = Phi([x for x in v.a[0] if x is not MISS])
                    return v
                if is_k(idx) or idx.tag in ("tup",) and c.star is None:
                    if c.star is not None:
                        return c.star
                    if c.f and not is_k(idx):
                        return Phi(c.f.values())
                    self.ev("missing_key", node, st, base=base, key=idx)
                    return Top(())
                vs = [x for x in c.f.values() if x is not MISS]
                if c.star is not None:
                    vs.append(c.star)
                return Phi(vs) if vs else Top(())
            if c.kind == "param" and is_k(idx) and isinstance(kval(idx), str):
                # keyed access of a caller mapping
                if c.f and ("[]", kval(idx)) in c.f:
                    return c.f[("[]", kval(idx))]
                ch = self.param_child(loc, f"[{kval(idx)!r}]", st)
                return ch
            vi = self.val(idx, st)
            ik = self.index_kind(idx, st)
            if c.kind == "param" and loc.origin == "dict" and not path:
                # element of a caller's dict: an object of the caller
                ch = self.param_child(loc, "[*]", st)
                ch.a[0].origin = "array"
                return ch
            if ik == "fancy":
                return self.arr(node, self.models.nsub(self.val(base, st), vi), st, extra="sub")
            if ik == "basic":
                bv = self.val(base, st)
                el = self.models.sub_of_known(bv, vi)
                if c.kind == "arr" and el is not None:
                    return el
                return viewref(loc, path + (Op("idx", vi),))
            return viewref(loc, path + (Op("idx?", vi),))
        vi = self.val(idx, st)
        bv = self.val(base, st)
        return self.models.nsub(bv, vi)

    def setsub(self, base, idx, v, node, st, fr, weak=False):
        if base.tag == "phi":
            for x in base.a[0]:
                if x.tag == "ref":
                    self.setsub(x, idx, v, node, st, fr, weak=True)
            return
        if base.tag == "op" and base.a[0] == "instdict":
            if is_k(idx) and isinstance(kval(idx), str):
                self._setattr1(base.a[1], kval(idx), v, node, st, fr)
            return
        if base.tag != "ref":
            self.ev("ext_item_store", node, st, base=self.val(base, st), idx=self.val(idx, st), value=self.val(v, st))
            return
        loc, path = base.a
        c = st.heap.get(loc)
        if c is None:
            return
        if c.kind == "inst":
            si, _ = loc.cls.lookup("__setitem__")
            if si is not None:
                self.call(self.bind(si, base, loc.cls, node, st, fr), [idx, v], {}, node, st, fr)
            return
        self.store_event(base, node, st, how="item assignment", idx=self.val(idx, st), value=v)
        if c.kind == "dict" and not path:
            c = c.copy()
            if is_k(idx) or idx.tag == "tup":
                c.f[idx] = phi2(c.f.get(idx, MISS), v) if (weak or c.summary) and idx in c.f else v
            else:
                c.star = phi2(c.star, v) if c.star is not None else v
            st.heap[loc] = c
            return
        if c.kind in ("list", "tuple") and not path:
            c = c.copy()
            if c.items is not None and is_k(idx) and isinstance(kval(idx), int) and -len(c.items) <= kval(idx) < len(c.items) and not weak and not c.summary:
                l = list(c.items)
                l[kval(idx)] = v
                c.items = tuple(l)
            else:
                vs = list(c.items or ()) + ([c.star] if c.star is not None else []) + [v]
                c.items = None
                c.star = Phi(vs)
            st.heap[loc] = c
            return
        if c.kind == "param" and is_k(idx) and isinstance(kval(idx), str):
            c = c.copy()
            c.f = dict(c.f or {})
            c.f[("[]", kval(idx))] = v
            st.heap[loc] = c
            return
        vi = self.val(idx, st)
        full = Op("idx", vi)
        nv = Op("upd", c.val if c.val is not None else Top(()), Tup(tuple(path) + (full,)), self.val(v, st))
        if weak or c.summary:
            nv = phi2(c.val, nv)
        if size_of(nv) > 4000 * self.models.BIG[0]:
            nv = Top(leaves_of(nv))
        c = c.copy()
        c.val = nv
        st.heap[loc] = c

    # ------------------------------------------------------------------ iteration
    def elem(self, it, node, st, fr):
        """abstract element of an iterable"""
        tag = it.tag
        if tag == "phi":
            return Phi([self.elem(x, node, st, fr) for x in it.a[0]])
        if tag == "tup":
            return Phi(it.a) if it.a else Top(())
        if tag == "op":
            n = it.a[0]
            if n == "zip":
                return Tup([self.elem(x, node, st, fr) for x in it.a[1:]])
            if n == "enumerate":
                return Tup((Op("enum_idx", self.val(it.a[1], st)), self.elem(it.a[1], node, st, fr)))
            if n in ("reversed", "iter", "sorted_view"):
                return self.elem(it.a[1], node, st, fr)
            if n == "range":
                return Op("range_elem", *[self.val(x, st) for x in it.a[1:]])
            if n == "mapiter":
                f = it.a[1]
                args = [self.elem(x, node, st, fr) for x in it.a[2:]]
                return self.call(f, args, {}, node, st, fr)
            if n == "filteriter":
                return self.elem(it.a[2], node, st, fr)
            if n in ("dictitems", "dictkeys", "dictvalues"):
                r = it.a[1]
                if r.tag == "phi":
                    return Phi([self.elem(Op(n, x), node, st, fr) for x in r.a[0]])
                c = st.heap.get(r.a[0]) if r.tag == "ref" else None
                if c is not None and c.kind == "dict":
                    ks = Phi(list(c.f.keys()) + ([Op("anykey", K(r.a[0].n))] if c.star is not None else [])) if (c.f or c.star is not None) else Top(())
                    vs = [x for x in c.f.values() if x is not MISS] + ([c.star] if c.star is not None else [])
                    vv = Phi(vs) if vs else Top(())
                else:
                    if r.tag == "ref" and c is not None and c.kind == "param":
                        ch = self.param_child(r.a[0], "[*]", st)
                        if r.a[0].origin == "dict":
                            ch.a[0].origin = "array"
                        vv = ch
                    else:
                        vv = Op("elem", Op("values", self.val(r, st)))
                    ks = Op("elem", Op("keys", self.val(r, st)))
                return {"dictitems": Tup((ks, vv)), "dictkeys": ks, "dictvalues": vv}[n]
            if n in ("tuple", "list"):
                return Phi(it.a[1:]) if len(it.a) > 1 else Top(())
            if n == "listof":
                return it.a[1]
            return Op("elem", it)
        if tag == "ref":
            loc, path = it.a
            c = st.heap.get(loc)
            if c is None:
                return Top(())
            if c.kind in ("list", "set", "tuple") and not path:
                if c.items is not None:
                    return Phi(c.items) if c.items else Top(())
                return c.star if c.star is not None else Top(())
            if c.kind == "dict" and not path:
                return self.elem(Op("dictkeys", it), node, st, fr)
            if c.kind == "inst":
                return Op("elem", it)
            v = self.val(it, st)
            if v.tag == "op" and v.a[0] in ("list", "tuple") and c.kind == "arr":
                return Phi(v.a[1:]) if len(v.a) > 1 else Top(())
            if c.kind == "param" and loc.origin == "dict":
                return Op("elem", Op("keys", v))
            return viewref(loc, path + (Op("idx", Op("anyrow")),))
        if tag == "top":
            return it
        return Op("elem", self.val(it, st))

    # ------------------------------------------------------------------ expressions
    def expr(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError(f"unsupported expression {type(e).__name__} in {fr.fn.module}:{e.lineno}")
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return K(e.value)

    def e_Name(self, e, st, fr):
        return self.name(e.id, e, st, fr)

    def e_Tuple(self, e, st, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value, st, fr)
                s = self.exact_seq(v, st, fr)
                if s is None:
                    if len(e.elts) == 1:
                        return self.alloc(e, Cell("tuple", star=self.elem(v, x, st, fr)), st)
                    out.append(Op("star", self.val(v, st)))
                else:
                    out += s
            else:
                out.append(self.expr(x, st, fr))
        return Tup(out)

    def e_List(self, e, st, fr):
        out, exact, star = [], True, []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value, st, fr)
                s = self.exact_seq(v, st, fr)
                if s is None:
                    exact = False
                    star.append(self.elem(v, x, st, fr))
                else:
                    out += s
            else:
                out.append(self.expr(x, st, fr))
        if exact:
            return self.alloc(e, Cell("list", items=tuple(out)), st)
        return self.alloc(e, Cell("list", star=Phi(out + star)), st)

    def e_Set(self, e, st, fr):
        vals = [self.expr(x, st, fr) for x in e.elts]
        return self.alloc(e, Cell("set", val=Tup(vals) if vals and all(is_k(v) for v in vals) else None, star=Phi(vals)), st)

    def e_Dict(self, e, st, fr):
        f, star = {}, None
        for k, v in zip(e.keys, e.values):
            vv = self.expr(v, st, fr)
            if k is None:
                c = self.cell(vv, st) if vv.tag == "ref" else None
                if c is not None and c.kind == "dict":
                    f.update(c.f)
                    if c.star is not None:
                        star = c.star if star is None else phi2(star, c.star)
                else:
                    x = Op("elem", Op("values", self.val(vv, st)))
                    star = x if star is None else phi2(star, x)
                continue
            kk = self.expr(k, st, fr)
            if is_k(kk) or kk.tag == "tup":
                f[kk] = vv
            else:
                star = vv if star is None else phi2(star, vv)
        return self.alloc(e, Cell("dict", f=f, star=star), st)

    def e_BinOp(self, e, st, fr):
        a = self.expr(e.left, st, fr)
        b = self.expr(e.right, st, fr)
        return self.binop(e, type(e.op).__name__, a, b, st, fr)

    def binop(self, node, op, a, b, st, fr):
        if is_k(a) and is_k(b):
            r = self.models.const_bin(op, kval(a), kval(b))
            if r is not None:
                return K(r[0])
        # sequences
        if op == "Add":
            sa, sb = self.exact_seq(a, st, fr), self.exact_seq(b, st, fr)
            ka, kb = self.container_kind(a, st), self.container_kind(b, st)
            if ka in ("list", "tuple") and kb in ("list", "tuple") and ka == kb:
                if sa is not None and sb is not None:
                    if ka == "tuple":
                        return Tup(sa + sb)
                    return self.alloc(node, Cell("list", items=tuple(sa + sb)), st, extra="cat")
                vs = [self.elem(a, node, st, fr), self.elem(b, node, st, fr)]
                return self.alloc(node, Cell(ka, star=Phi(vs)), st, extra="cat")
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if self.container_kind(x, st) == "list":
                    s = self.exact_seq(x, st, fr)
                    if s is not None and is_k(y) and isinstance(kval(y), int) and 0 <= kval(y) * len(s) <= 40:
                        return self.alloc(node, Cell("list", items=tuple(s * kval(y))), st, extra="rep")
                    if s is not None:
                        return self.arr(node, Op("repeat", Op("list", *[self.val(z, st) for z in s]), self.val(y, st)), st, extra="rep")
        if op == "BitOr" and (a.tag in ("ext", "cls") or b.tag in ("ext", "cls")):
            return Ext("typing.Union")
        if op == "Mod" and is_k(a) and isinstance(kval(a), str):
            return Op("fstr", a, self.val(b, st))
        for x in (a, b):
            if x.tag == "ref":
                c = self.cell(x, st)
                if c is not None and c.kind == "inst":
                    nm = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "MatMult": "__matmul__"}.get(op)
                    m = x.a[0].cls.lookup(nm)[0] if nm else None
                    if m is not None:
                        return self.call(self.bind(m, x, x.a[0].cls, node, st, fr), [b if x is a else a], {}, node, st, fr)
        if op in ("BitOr", "Sub", "BitAnd", "BitXor") and self.container_kind(a, st) == "set":
            ms = self.set_op(op, a, b, st)
            if ms is not None:
                return self.new_set(node, ms, st, extra="setop")
            vs = [self.elem(a, node, st, fr)]
            if op in ("BitOr", "BitXor"):
                vs.append(self.elem(b, node, st, fr))
            return self.alloc(node, Cell("set", star=Phi(vs)), st, extra="setop")
        t = self.models.nbin(op, self.val(a, st), self.val(b, st))
        self.ev_arith(node, op, a, b, st)
        if is_k(t):
            return t
        if self.scalarish(t) or (self.norefs(a) and self.norefs(b)):
            return t
        return self.arr(node, t, st, extra="bin")

    def norefs(self, v):
        if v.tag == "phi":
            return all(self.norefs(x) for x in v.a[0])
        return v.tag in ("k", "op", "top")

    def ev_arith(self, node, op, a, b, st):
        pass

    def container_kind(self, v, st):
        if v.tag == "tup":
            return "tuple"
        if v.tag == "ref" and not v.a[1]:
            c = st.heap.get(v.a[0])
            if c is not None and c.kind in ("list", "dict", "set", "tuple"):
                return c.kind
        return None

    def e_UnaryOp(self, e, st, fr):
        v = self.expr(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v, st)
            if t is not None:
                return K(not t)
            return Op("not", self.val(v, st))
        if is_k(v):
            try:
                c = kval(v)
                return K({ast.USub: lambda: -c, ast.UAdd: lambda: +c, ast.Invert: lambda: ~c}[type(e.op)]())
            except Exception:
                return Top(())
        vv = self.val(v, st)
        if isinstance(e.op, ast.USub):
            t = self.models.nneg(vv)
        elif isinstance(e.op, ast.Invert):
            t = Op("invert", vv)
        else:
            t = vv
        if self.scalarish(t):
            return t
        return self.arr(e, t, st, extra="un")

    def e_BoolOp(self, e, st, fr):
        vals = []
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.expr(x, st, fr)
            t = self.truth(v, st)
            if t is not None:
                if t != isand:
                    # short circuit
                    if not vals:
                        return v
                    vals.append(v)
                    break
                if i < len(e.values) - 1:
                    continue
            vals.append(v)
        if len(vals) == 1:
            return vals[0]
        if any(v.tag in ("ref", "fn", "bound", "wrap") for v in vals) and not isand:
            return Phi(vals)
        return Op("and" if isand else "or", *[self.val(v, st) for v in vals])

    def e_Compare(self, e, st, fr):
        left = self.expr(e.left, st, fr)
        parts = []
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r, st, fr)
            parts.append(self.compare(op, left, right, e, st, fr))
            left = right
        if len(parts) == 1:
            p = parts[0]
            if is_k(p):
                return p
            if p.a[1] in ("In", "NotIn", "Is", "IsNot") or self.scalarish(p.a[2]) and self.scalarish(p.a[3]):
                return p
            return self.arr(e, p, st, extra="cmp")
        if all(is_k(p) for p in parts):
            return K(all(kval(p) for p in parts))
        return Op("and", *parts)

    def compare(self, op, a, b, node, st, fr):
        n = type(op).__name__
        if n in ("Is", "IsNot"):
            r = self.is_same(a, b, st)
            if r is not None:
                return K(r if n == "Is" else not r)
        va, vb = self.val(a, st), self.val(b, st)
        if is_k(va) and is_k(vb):
            try:
                x, y = kval(va), kval(vb)
                r = {
                    "Eq": lambda: x == y, "NotEq": lambda: x != y, "Lt": lambda: x < y, "LtE": lambda: x <= y,
                    "Gt": lambda: x > y, "GtE": lambda: x >= y, "Is": lambda: x is y, "IsNot": lambda: x is not y,
                    "In": lambda: x in y, "NotIn": lambda: x not in y,
                }[n]()
                return K(bool(r))
            except Exception:
                pass
        if va is vb and va.tag == "op" and va.a[0] in ("int", "len", "dim") and n in ("Eq", "NotEq", "LtE", "GtE", "Lt", "Gt"):
            return K(n in ("Eq", "LtE", "GtE"))
        if n in ("In", "NotIn") and is_k(va):
            s = self.exact_seq(b, st, fr)
            if s is not None and all(is_k(x) for x in s):
                r = kval(va) in [kval(x) for x in s]
                return K(r if n == "In" else not r)
            c = self.cell(b, st) if b.tag == "ref" else None
            if c is not None and c.kind == "set" and getattr(b.a[0].node, "elts", None) is not None and c.star is not None and c.val is not None:
                # a literal set of constants nothing has been added to
                return K((va in c.val.a) == (n == "In"))
            if b.tag == "op" and b.a[0] == "instdict":
                c = self.cell(b.a[1], st)
                v = c.f.get(kval(va), MISS)
                if v is MISS:
                    return K(n == "NotIn")
                if not (v.tag == "phi" and MISS in v.a[0]):
                    return K(n == "In")
        # canonical orientation: a < b only
        if n == "Gt":
            n, va, vb = "Lt", vb, va
        elif n == "GtE":
            n, va, vb = "LtE", vb, va
        elif n in ("Eq", "NotEq") and vb.n < va.n:
            va, vb = vb, va
        return mk("op", "cmp", n, va, vb)

    def is_same(self, a, b, st):
        if a.tag == "phi" or b.tag == "phi":
            return None
        if b is NONE or a is NONE:
            x = a if b is NONE else b
            if x is NONE:
                return True
            if x.tag in ("fn", "cls", "bound", "wrap", "mod", "tup", "k", "ext", "super", "sl"):
                return False
            if x.tag == "extm":
                return False
            if x.tag == "ref":
                c = st.heap.get(x.a[0])
                if c is None:
                    return None
                if c.kind == "param":
                    if x.a[1]:
                        return None
                    return None if x.a[0].origin == "maybe" or "." in x.a[0].label else False
                if c.kind == "arr":
                    v = c.val
                    if v is NONE:
                        return True
                    if v.tag in ("top", "phi"):
                        return None
                    if v.tag == "op" and v.a[0] in ("call", "cb"):
                        return self.models.maybe_none(v)
                    return False
                return False
            if x.tag == "op" and x.a[0] not in ("sub", "elem", "attr", "call", "cb"):
                return False
            return None
        if is_k(a) and is_k(b):
            return kval(a) is kval(b) or kval(a) == kval(b) and type(kval(a)) is type(kval(b))
        if a.tag in ("cls", "ext") and b.tag in ("cls", "ext"):
            return a is b
        if a.tag == "ref" and b.tag == "ref" and not a.a[1] and not b.a[1]:
            if a.a[0] is not b.a[0]:
                return False
        return None

    def e_IfExp(self, e, st, fr):
        c = self.expr(e.test, st, fr)
        t = self.truth(c, st)
        if t is True:
            return self.expr(e.body, st, fr)
        if t is False:
            return self.expr(e.orelse, st, fr)
        cv = self.val(c, st)
        a, b = st.fork(), st.fork()
        a.guards = st.guards + ((cv, True, id(e)),)
        b.guards = st.guards + ((cv, False, id(e)),)
        self.refine(e.test, True, a, fr)
        self.refine(e.test, False, b, fr)
        va = self.expr(e.body, a, fr)
        vb = self.expr(e.orelse, b, fr)
        g = st.guards
        j = self.join(a, b)
        st.heap = j.heap
        st.guards = g
        if va is vb:
            return va
        return Phi((va, vb))

    def e_Attribute(self, e, st, fr):
        base = self.expr(e.value, st, fr)
        return self.getattr_(base, e.attr, e, st, fr)

    def e_Subscript(self, e, st, fr):
        base = self.expr(e.value, st, fr)
        idx = self.expr(e.slice, st, fr)
        return self.subscript(base, idx, e, st, fr)

    def e_Slice(self, e, st, fr):
        f = lambda x: self.expr(x, st, fr) if x is not None else NONE
        a, b, c = f(e.lower), f(e.upper), f(e.step)
        a, b, c = self.val(a, st), self.val(b, st), self.val(c, st)
        if is_k(a) and kval(a) == 0:
            a = NONE
        if is_k(c) and kval(c) == 1:
            c = NONE
        return mk("sl", a, b, c)

    def e_Starred(self, e, st, fr):
        return self.expr(e.value, st, fr)

    def e_Lambda(self, e, st, fr):
        return self.make_fn(e, st, fr)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for x in e.values:
            v = self.expr(x.value, st, fr) if isinstance(x, ast.FormattedValue) else K(x.value)
            parts.append(self.val(v, st))
        if all(is_k(p) for p in parts):
            return K("".join(str(kval(p)) for p in parts))
        return Op("fstr", *parts)

    def e_FormattedValue(self, e, st, fr):
        return self.expr(e.value, st, fr)

    def e_NamedExpr(self, e, st, fr):
        v = self.expr(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Await(self, e, st, fr):
        return self.expr(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        v = self.expr(e.value, st, fr) if e.value is not None else NONE
        if fr.yield_cb is not None:
            out = fr.yield_cb(v, st)
            if out is not None:
                st.heap = out.heap
            return Top(())
        fr.yields.append(v)
        return Top(())

    def e_YieldFrom(self, e, st, fr):
        v = self.expr(e.value, st, fr)
        fr.yields.append(self.elem(v, e, st, fr))
        return Top(())

    # comprehensions: one abstract element, inner scope is the enclosing frame (names restored)
    def comp(self, e, elts, st, fr):
        gens = e.generators
        saved = {}
        names = {n.id for g in gens for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        cur = st.heap[fr.loc].f
        for n in names:
            saved[n] = cur.get(n, MISS)
        first = self.expr(gens[0].iter, st, fr)
        if len(gens) == 1:
            seq = self.iter_seq(first, st, fr)
            if seq is not None and len(seq) <= 40:
                out = []
                ctx0 = self.ctx
                before = st.fork() if gens[0].ifs else None
                nev = len(self.events)
                for i, v in enumerate(seq):
                    self.ctx = ctx0 + ((id(e), i),)
                    self.assign(gens[0].target, v, st, fr)
                    keep = True
                    for c in gens[0].ifs:
                        keep = self.truth(self.expr(c, st, fr), st)
                        if not keep:
                            break
                    if keep is None:
                        break
                    if keep:
                        out.append([self.expr(x, st, fr) for x in elts])
                self.ctx = ctx0
                if not gens[0].ifs or keep is not None or not seq:
                    self.restore(saved, st, fr)
                    return "exact", out, None
                # an undecided filter: interpreted as a loop over an unknown element
                if self.record:
                    del self.events[nev:]
                st.heap = before.heap
        elif not any(g.ifs for g in gens):
            out = self.nested(e, gens, elts, first, st, fr)
            if out is not None:
                self.restore(saved, st, fr)
                return "exact", out, None
        self.loopdepth += 1
        outer = st.guards
        iters = []
        res = None
        for rnd in range(3):
            nev = len(self.events)
            before = st.fork()
            iters = []
            for gi, g in enumerate(gens):
                it = first if gi == 0 else self.expr(g.iter, st, fr)
                iters.append(self.val(it, st))
                self.assign(g.target, self.elem(it, g.target, st, fr), st, fr)
                st.guards = st.guards + ((Op("iter", self.val(it, st)), True, id(g)),)
                for c in g.ifs:
                    cv = self.expr(c, st, fr)
                    st.guards = st.guards + ((self.val(cv, st), True, id(c)),)
            res = [self.expr(x, st, fr) for x in elts]
            st.guards = outer
            j = self.join(before, st)
            stable = self.same(j, before)
            st.heap = j.heap
            if stable or rnd == 2:
                break
            if self.record:
                del self.events[nev:]
        self.loopdepth -= 1
        self.restore(saved, st, fr)
        conds = [c for g in gens for c in g.ifs]
        return "star", res, (iters, bool(conds))

    def nested(self, e, gens, elts, first, st, fr):
        """several generators over exactly known sequences: element by element, or None"""
        ctx0, nev, before = self.ctx, len(self.events), st.fork()
        out = []

        def rec(gi, it):
            seq = self.iter_seq(it, st, fr)
            if seq is None or len(seq) > 40:
                return False
            for v in seq:
                self.ctx = ctx0 + ((id(e), len(out)),)
                self.assign(gens[gi].target, v, st, fr)
                if gi + 1 < len(gens):
                    if not rec(gi + 1, self.expr(gens[gi + 1].iter, st, fr)):
                        return False
                elif len(out) >= 40:
                    return False
                else:
                    out.append([self.expr(x, st, fr) for x in elts])
            return True

        ok = rec(0, first)
        self.ctx = ctx0
        if ok:
            return out
        if self.record:
            del self.events[nev:]
        st.heap = before.heap
        return None

    def restore(self, saved, st, fr):
        c = st.heap[fr.loc].copy()
        for n, v in saved.items():
            if v is MISS:
                c.f.pop(n, None)
            else:
                c.f[n] = v
        st.heap[fr.loc] = c

    def e_ListComp(self, e, st, fr):
        kind, res, info = self.comp(e, [e.elt], st, fr)
        if kind == "exact":
            return self.alloc(e, Cell("list", items=tuple(r[0] for r in res)), st)
        return self.alloc(e, Cell("list", star=res[0]), st)

    def e_SetComp(self, e, st, fr):
        kind, res, info = self.comp(e, [e.elt], st, fr)
        if kind == "exact":
            if self.precise and all(is_k(r[0]) for r in res):
                return self.new_set(e, [r[0] for r in res], st)
            return self.alloc(e, Cell("set", star=Phi([r[0] for r in res]) if res else Top(())), st)
        return self.alloc(e, Cell("set", star=res[0]), st)

    def e_GeneratorExp(self, e, st, fr):
        return self.e_ListComp(e, st, fr)

    def e_DictComp(self, e, st, fr):
        kind, res, info = self.comp(e, [e.key, e.value], st, fr)
        if kind == "exact":
            f, star = {}, None
            for k, v in res:
                if is_k(k) or k.tag == "tup":
                    f[k] = v
                else:
                    star = v if star is None else phi2(star, v)
            return self.alloc(e, Cell("dict", f=f, star=star), st)
        return self.alloc(e, Cell("dict", f={}, star=res[1]), st)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.lookup("super", st, fr) is None:
            if not e.args:
                f = fr
                co = getattr(fr, "defcls", None)
                selfv = fr.selfv
                if co is None:
                    return Top(())
                return mk("super", co, selfv)
            args = [self.expr(a, st, fr) for a in e.args]
            if len(args) == 2 and args[0].tag == "cls":
                return mk("super", args[0].a[0], args[1])
        f = self.expr(e.func, st, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, st, fr)
                s = self.exact_seq(v, st, fr)
                if s is not None:
                    args += s
                else:
                    args.append(Op("star", self.val(v, st)) if v.tag != "ref" else Op("star", v))
            else:
                args.append(self.expr(a, st, fr))
        for k in e.keywords:
            v = self.expr(k.value, st, fr)
            if k.arg is None:
                c = self.cell(v, st) if v.tag == "ref" else None
                if c is not None and c.kind == "dict":
                    for kk, x in c.f.items():
                        if is_k(kk) and x is not MISS:
                            kwargs[str(kval(kk))] = x
                    if c.star is not None:
                        kwargs["**"] = c.star
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, e, st, fr)

    def call(self, f, args, kwargs, node, st, fr):
        tag = f.tag
        if tag == "phi":
            alts = [x for x in sorted(f.a[0], key=skey) if x is not NONE and x is not MISS]
            outs, states = [], None
            g = st.guards
            for i, x in enumerate(alts):
                s2 = st.fork()
                c0 = self.ctx
                self.ctx = self.ctx + (("alt", i),)
                outs.append(self.call(x, args, kwargs, node, s2, fr))
                self.ctx = c0
                states = self.join(states, s2)
            if states is not None:
                st.heap = states.heap
                st.guards = g
            return Phi(outs) if outs else Top(())
        if tag == "fn":
            r = self.inline(f.a[0], args, kwargs, node, st, fr)
            return r[0] if r is not None else mk("missing") if False else (r[0] if r else self.noreturn(st))
        if tag == "bound":
            return self.call(f.a[1], [f.a[0]] + args, kwargs, node, st, fr)
        if tag == "cls":
            return self.instantiate(f.a[0], args, kwargs, node, st, fr)
        if tag == "wrap":
            return self.models.call_wrap(self, f, args, kwargs, node, st, fr)
        if tag == "ext":
            return self.models.ext_call(self, f, args, kwargs, node, st, fr)
        if tag == "extm":
            return self.models.method_call(self, f.a[0], f.a[1], args, kwargs, node, st, fr)
        if tag == "ref":
            c = self.cell(f, st)
            if c is not None and c.kind == "inst":
                m, _ = f.a[0].cls.lookup("__call__")
                if m is not None:
                    return self.call(self.bind(m, f, f.a[0].cls, node, st, fr), args, kwargs, node, st, fr)
            return self.models.callback(self, f, args, kwargs, node, st, fr)
        if tag == "op" and f.a[0] in ("staticmethod", "classmethod"):
            return self.call(f.a[1], args, kwargs, node, st, fr)
        return self.models.callback(self, f, args, kwargs, node, st, fr)

    def noreturn(self, st):
        return Top(())

    def instantiate(self, co, args, kwargs, node, st, fr):
        loc = self.newloc(node, "inst", st, label=co.name, extra=co.qual, cls=co)
        old = st.heap.get(loc)
        again = old is not None and self.loopdepth > 0
        # allocated again inside a loop: one cell stands for the instances of all rounds
        st.heap[loc] = Cell("inst", f=dict(old.f) if again else {}, summary=again)
        ref = mk("ref", loc, ())
        self.ev("new", node, st, cls=co, ref=ref)
        init, owner = co.lookup("__init__")
        if init is not None:
            self.call(self.bind(init, ref, co, node, st, fr), args, kwargs, node, st, fr)
        else:
            if co.has_ext_base():
                self.ev("extcall", node, st, name="super().__init__", args=args, kwargs=kwargs,
                        argvals=[self.val(a, st) for a in args], kwvals={k: self.val(v, st) for k, v in kwargs.items()}, recv=ref, result=NONE)
        return ref

    def bind_args(self, fo, args, kwargs, node, st):
        a = fo.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        bound = {}
        rest = []
        n = len(pos)
        flat = []
        for x in args:
            flat.append(x)
        i = 0
        for x in flat:
            if x.tag == "op" and x.a[0] == "star":
                # unknown number of positionals
                for p in pos[i:]:
                    if p not in kwargs:
                        bound.setdefault(p, Op("elem", x.a[1]))
                i = n
                rest.append(x)
                continue
            if i < n:
                bound[pos[i]] = x
                i += 1
            else:
                rest.append(x)
        kw = dict(kwargs)
        unknown_kw = kw.pop("**", None)
        names = set(pos) | {p.arg for p in a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in names:
                bound[k] = v
            else:
                extra[k] = v
        defaults = dict(zip(pos[n - len(fo.defaults) :], fo.defaults)) if fo.defaults else {}
        for p in pos + [q.arg for q in a.kwonlyargs]:
            if p not in bound:
                if p in defaults:
                    bound[p] = defaults[p]
                elif p in fo.kwdefaults:
                    bound[p] = fo.kwdefaults[p]
                else:
                    bound[p] = Top(())
                    if unknown_kw is None:
                        self.ev("missing_argument", node, st, callee=fo, name=p)
        if a.vararg:
            if any(x.tag == "op" and x.a[0] == "star" for x in rest):
                bound[a.vararg.arg] = ("va", rest)
            else:
                bound[a.vararg.arg] = Tup(rest)
        elif rest and not any(x.tag == "op" and x.a[0] == "star" for x in rest):
            self.ev("extra_argument", node, st, callee=fo)
        if a.kwarg:
            bound[a.kwarg.arg] = ("kw", extra, unknown_kw)
        elif extra:
            self.ev("unexpected_kwarg", node, st, callee=fo, names=sorted(extra))
        return bound

    def inline(self, fo, args, kwargs, node, st, fr, yield_cb=None):
        if fo.qual in self.stubs:
            r = self.stubs[fo.qual](args, kwargs, node, st)
            if r is not NotImplemented:
                self.fn_seen[(fo.module, fo.qual)] = fo
                return r, st
        if fo.qual in self.opaque:
            # summarised callee: analysed on its own elsewhere, here an uninterpreted function of its arguments
            av = [self.val(x, st) for x in args]
            kv = {k: self.val(v, st) for k, v in kwargs.items()}
            self.fn_seen[(fo.module, fo.qual)] = fo
            self.ev("summary", node, st, callee=fo, args=args, kwargs=kwargs, argvals=av, kwvals=kv)
            t = Op("call", K(fo.qual), *av, *[Op("kw", K(k), v) for k, v in sorted(kv.items())])
            if size_of(t) > 3000 * self.models.BIG[0]:
                t = Top(leaves_of(t))
            return self.arr(node, t, st, extra="summary"), st
        if len(self.callstack) > MAXDEPTH or any(f.node is fo.node and f.frame is fo.frame for f in self.callstack):
            self.recursion_cuts[fo.qual] = self.recursion_cuts.get(fo.qual, 0) + 1
            lv = frozenset()
            for x in args:
                lv |= leaves_of(self.val(x, st))
            return Top(lv), st
        self.fn_seen[(fo.module, fo.qual)] = fo
        bound = self.bind_args(fo, args, kwargs, node, st)
        ctx0 = self.ctx
        self.ctx = ctx0 + (id(node),)
        loc = self.newloc(fo.node, "frame", st, label=fo.qual)
        self.w.scope_parent[loc] = fo.frame
        self.callstack.append(fo)
        f = {}
        for k, v in bound.items():
            if isinstance(v, tuple):
                if v[0] == "kw":
                    _, extra, unk = v
                    v = self.alloc(fo.node, Cell("dict", f={K(x): y for x, y in extra.items()}, star=unk), st, extra="kwargs")
                else:
                    v = self.alloc(fo.node, Cell("tuple", star=Phi([Op("elem", x.a[1]) if x.tag == "op" and x.a[0] == "star" else x for x in v[1]])), st, extra="va")
            f[k] = v
        st.heap[loc] = Cell("frame", f=f)
        self.ev("enter", node, st, callee=fo, bound=dict(f))
        nfr = Frame(fo, loc, ctx=self.ctx)
        nfr.yield_cb = yield_cb
        allpos = [p.arg for p in fo.node.args.posonlyargs + fo.node.args.args]
        if fo.cls is not None and allpos:
            nfr.selfv = f[allpos[0]]
            nfr.defcls = fo.cls
        else:
            nfr.selfv = getattr(fo, "encl_selfv", None)
            nfr.defcls = getattr(fo, "encl_cls", None)
        outer = st.guards
        try:
            if isinstance(fo.node, ast.Lambda):
                v = self.expr(fo.node.body, st, nfr)
                st.guards = outer
                return v, st
            end = self.block(fo.node.body, st.fork(), nfr)
        finally:
            self.callstack.pop()
            self.ctx = ctx0
        outs = list(nfr.returns)
        if end is not None:
            outs.append((NONE, end))
        if nfr.yields or (yield_cb is None and self.is_generator(fo)):
            joined = None
            for _, s in outs:
                joined = self.join(joined, s)
            if joined is not None:
                st.heap = joined.heap
                st.guards = outer
            return self.alloc(node, Cell("list", star=Phi(nfr.yields) if nfr.yields else Top(())), st, extra="gen"), st
        if not outs:
            st.guards = outer
            self.ev("noreturn", node, st, callee=fo)
            return None
        joined = None
        vals = []
        for v, s in outs:
            vals.append(v)
            joined = self.join(joined, s)
        st.heap = joined.heap
        st.guards = outer
        v = vals[0] if len(vals) == 1 else Phi(vals)
        return v, st

    def is_generator(self, fo):
        r = getattr(fo, "_isgen", None)
        if r is None:
            r = False
            stack = list(fo.node.body) if not isinstance(fo.node, ast.Lambda) else []
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
            fo._isgen = r
        return r

    # list helpers
    def list_extend(self, ref, other, node, st, fr):
        c = self.cell(ref, st).copy()
        seq = self.exact_seq(other, st, fr)
        if c.items is not None and seq is not None and not c.summary:
            c.items = c.items + tuple(seq)
        else:
            el = [self.elem(other, node, st, fr)] if seq is None else list(seq)
            vs = list(c.items or ()) + ([c.star] if c.star is not None else []) + el
            c.items = None
            c.star = Phi(vs) if vs else Top(())
        st.heap[ref.a[0]] = c

    def list_append(self, ref, v, st):
        c = self.cell(ref, st).copy()
        if c.items is not None and not c.summary and len(c.items) < 200:
            c.items = c.items + (v,)
        else:
            vs = list(c.items or ()) + ([c.star] if c.star is not None else []) + [v]
            c.items = None
            c.star = Phi(vs)
        st.heap[ref.a[0]] = c

    def list_star(self, ref, v, st):
        c = self.cell(ref, st).copy()
        vs = list(c.items or ()) + ([c.star] if c.star is not None else []) + [v]
        c.items = None
        c.star = Phi(vs)
        st.heap[ref.a[0]] = c
