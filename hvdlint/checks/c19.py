"""Every point keeps its own step, residual and step size; HVN puts each point into exactly one group."""

import itertools

from .. import models, scen
from ..terms import K, Op, T, Tup, is_k, kval, show
from ..world import Session
from . import c12

EXPLANATION = (
    "Row-provenance analysis. The Newton optimizers are interpreted for a population of three points whose data (points, values, Jacobians, "
    "constraint values, gradients, Hessians, active sets, multipliers) are symbols with three rows; loops over points are unrolled and every "
    "value carries the set of points whose rows it was computed from. Decided: whatever is stored at the row of a point (residual, step, "
    "Hessian block, step size) is computed from that point's rows only; lists with one entry per point are in the order of the points; a trial of one "
    "point is compared with that point's residual. For HVN the grouping is enumerated: for every feasibility pattern and every way the "
    "feasible points split into fronts, the groups handed to the step computation are disjoint, cover every point, consist of the fronts, the "
    "infeasible points joining the first; step, residual and step size of a group are stored at that group's rows. Duplicate removal is "
    "enumerated over every coincidence relation: one point of every class stays."
)
ASSUMPTIONS = [
    "three points are enough: the code treats all points alike (no point number other than through loops over all points)",
    "indicator derivatives are functions whose r-th row belongs to the r-th point (checked for the indicators by C10)",
]

N = 3
DUAL = ("st.cstr_grad", "st.J", "st.cstr_hess")
STRUCT = {"numpy.c_", "numpy.hstack", "numpy.column_stack"}


def first(i):
    if isinstance(i, T) and i.tag == "tup":
        return i.a[0] if i.a else None
    if isinstance(i, T) and i.tag == "op" and i.a[0] == "tuple":
        return i.a[1] if len(i.a) > 1 else None
    return i


def axis0(i):
    """index along the first axis; a position array of three or more entries is one"""
    p = i.a if i.tag == "tup" else i.a[1:] if i.tag == "op" and i.a[0] == "tuple" else ()
    return i if len(p) >= N and all(is_int(x) for x in p) else first(i)


def whole(i):
    return isinstance(i, T) and i.tag == "sl" and all(is_k(x) and kval(x) in (None, 0) for x in (i.a[0],)) and is_k(i.a[1]) and kval(i.a[1]) is None and is_k(i.a[2]) and kval(i.a[2]) in (None, 1)


def is_int(t):
    return isinstance(t, T) and is_k(t) and type(kval(t)) is int


class Rows:
    """row counts and row provenance of terms"""

    def __init__(self, I):
        self.I, self.memo, self.cmemo = I, {}, {}

    def count(self, t):
        if t in self.cmemo:
            return self.cmemo[t]
        self.cmemo[t] = None
        r = self.cmemo[t] = self._count(t)
        return r

    def _count(self, t):
        n = models.known_len(self.I, t)
        if n is not None and is_k(n) and type(kval(n)) is int:
            return kval(n)
        if t.tag == "phi":
            cs = {self.count(x) for x in t.a[0] if not is_k(x)}
            return cs.pop() if len(cs) == 1 else None
        if t.tag != "op":
            return None
        o = t.a[0]
        if o == "sub":
            if whole(first(t.a[2])) and first(t.a[2]) is not t.a[2]:
                return self.count(t.a[1])
            if whole(t.a[2]):
                return self.count(t.a[1])
            o = self.order(t)
            return len(o) if o is not None else None
        if c12.is_call(t, STRUCT):
            it = c12.items(t.a[2]) or (t.a[2],)
            cs = {self.count(x) for x in it} - {None}
            return cs.pop() if len(cs) == 1 else None
        if o in ("mark",):
            return self.count(t.a[2])
        if o in ("copy", "astype", "neg", "asarray", "upd"):
            return self.count(t.a[1])
        if o == "reshape":
            d = first(t.a[2]) if len(t.a) == 3 else t.a[2]
            return kval(d) if is_int(d) and kval(d) > 0 else self.count(t.a[1]) if is_int(d) and kval(d) == -1 else None
        if o in ("add", "mul"):
            cs = {self.count(x) for x in t.a[1:]} - {None}
            return cs.pop() if len(cs) == 1 else None
        if c12.is_call(t, {"numpy.array", "numpy.asarray", "numpy.copy", "numpy.maximum", "numpy.minimum", "numpy.abs", "numpy.clip"}):
            return self.count(t.a[2])
        return None

    def order(self, t):
        """the points the rows of a slice of a per-point array belong to, e.g. of X[::-1]"""
        if t.tag == "op" and t.a[0] == "sub":
            i = first(t.a[2])
            if isinstance(i, T) and i.tag == "sl" and all(is_k(x) for x in i.a) and not whole(i):
                b = self.order(t.a[1])
                return None if b is None else b[slice(*[kval(x) for x in i.a])]
            if not whole(i):
                return None
        return list(range(N)) if self.count(t) == N else None

    def of(self, t):
        """rows (0..N-1) a value depends on singly; None stands for a dependence on all rows"""
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = frozenset()
            r = self.memo[t] = self._of(t)
        return r

    def _of(self, t):
        if t.tag == "k" or t.tag == "ext":
            return frozenset()
        if t.tag == "top":
            return frozenset((None,))
        if t.tag == "op" and t.a[0] == "sym":
            return frozenset((None,)) if self.count(t) == N else frozenset()
        if t.tag == "op" and t.a[0] == "sub":
            i = first(t.a[2])
            order = self.order(t.a[1]) if is_int(i) else None
            if order is not None and -len(order) <= kval(i) < len(order):
                out = {order[kval(i)]}
                if i is not t.a[2]:
                    out |= {x for x in self.of(t.a[2]) if x is not None}
                return frozenset(out)
        if t.tag == "phi":
            # a value known only up to alternatives: the rows every alternative agrees on
            rs = [r for r in (self.of(x) for x in t.a[0]) if r]
            return frozenset.intersection(*rs) if rs else frozenset()
        out = set()
        for x in self.kids(t):
            out |= self.of(x)
        if t.tag in ("tup",) or t.tag == "op" and t.a[0] in ("list", "tuple"):
            if self.per_point(t):
                return frozenset((None,))
        return frozenset(out)

    def kids(self, t):
        for x in t.a:
            if isinstance(x, T):
                yield x
            elif isinstance(x, (tuple, frozenset)):
                for y in x:
                    if isinstance(y, T):
                        yield y

    def elements(self, t):
        return [x for x in (t.a if t.tag == "tup" else t.a[1:]) if isinstance(x, T)]

    def per_point(self, t):
        """a sequence with one entry per point, in order"""
        es = self.elements(t)
        return len(es) == N and all({y for y in self.of(x) if y is not None} == {k} for k, x in enumerate(es))


def ints(s):
    return {x for x in s if x is not None}


def prepare(s, o, st, wr):
    """three points: shapes of the population's quantities, loops over rows unrolled"""
    for f in list(s.fields(st)):
        v = s.fields(st)[f]
        if isinstance(v, T) and v.tag == "ref" and (getattr(v.a[0], "label", None) or "").startswith("st."):
            s.I.shapes[s.val(v)] = (K(N),) + (Op("dim"),) * (2 if v.a[0].label in DUAL else 1)
    s.set(o, "N", K(N))
    R = Rows(s.I)
    s.I.row_count = R.count
    return R


def base_rows(s, R, e):
    """number of rows of the array a store goes to"""
    c = s.st.heap.get(e.loc)
    v = getattr(c, "val", None)
    return R.count(v) if isinstance(v, T) else None


def stores(ctx, s, R, events, who):
    for e in events:
        if e.kind == "store" and e.valnum is not None and e.ref.tag == "ref":
            path = [x.a[1] if x.tag == "op" and x.a[0] in ("idx", "idx?") and len(x.a) > 1 else x for x in e.ref.a[1]]
            path = [x for x in path if not (x.tag == "op" and x.a[0] in ("reshape", "T", "at2"))]
            path += [e.idx] if isinstance(e.idx, T) else []
            if not path:
                continue
            i = first(path[0])
            if not is_int(i):
                continue
            got = ints(R.of(e.valnum))
            if not got:
                continue
            n = base_rows(s, R, e)
            if n != N:
                ctx.ob("store not known to be per point", f"{who} {e.where}: {n}")
                continue
            r = kval(i) % N
            ctx.ob("row stored from its own point's data", f"{who} {e.where} [{r}]")
            for p in path:
                got |= ints(R.of(p)) if p is not i else set()
            if got - {r}:
                ctx.fail("row-mixed", f"{e.func}:store", f"what is stored for point {r} is computed from data of point(s) {sorted(got - {r})}: {show(blame(R, e.valnum, got - {r}), 160)}", e)


def sequences(ctx, R, terms, who, where):
    """lists with one entry per point"""
    seen = set()

    def go(t):
        if t in seen or t.tag in ("top", "k"):
            return
        seen.add(t)
        if t.tag == "tup" or t.tag == "op" and t.a[0] in ("list", "tuple"):
            es = R.elements(t)
            tags = [ints(R.of(x)) for x in es]
            if len(es) == N and all(tags):
                if all(len(x) == 1 for x in tags):
                    order = [next(iter(x)) for x in tags]
                    ctx.ob("sequence with one entry per point", f"{who}: {order}")
                    if order != list(range(N)) and len(set(order)) > 1:
                        ctx.fail("row-order", f"{who}:sequence", f"entries of a per-point list belong to points {order}: {show(t, 140)}", where=where)
                elif not all(x == set(range(k + 1)) for k, x in enumerate(tags)):
                    mixed = [x for x in es if mixes(R, x)]
                    if mixed:
                        ctx.fail("row-mixed", f"{who}:sequence", f"an entry of a per-point list combines data of different points: {show(mixed[0], 140)}", where=where)
        for x in R.kids(t):
            go(x)

    for t in terms:
        if isinstance(t, T):
            go(t)


def mixes(R, t, depth=0):
    """does a product or sum combine rows of different points"""
    if not isinstance(t, T) or t.tag in ("k", "top") or depth > 30:
        return False
    if t.tag == "op" and (t.a[0] in ("mul", "add", "matmul") or c12.is_call(t, {"numpy.einsum", "numpy.dot", "numpy.multiply", "numpy.matmul", "numpy.tensordot"})):
        ks = [ints(R.of(x)) for x in R.kids(t)]
        ks = [x for x in ks if x]
        if len(ks) > 1 and len(set().union(*ks)) > 1 and any(a != b for a, b in zip(ks, ks[1:])):
            return True
    return any(mixes(R, x, depth + 1) for x in R.kids(t))


def indicators(ctx, s):
    """indicator derivatives: a gradient with one row per point and, for GD and IGD, a Hessian with one block per point"""
    for cname in c12.INDICATORS:
        m, _ = ctx.w.find_class(cname).lookup("compute_derivatives")
        fo = m.a[0]
        names = [a.arg for a in fo.node.args.args][1:]
        per = cname in ("GenerationalDistance", "InvertedGenerationalDistance")
        g, h = Op("sym", K(f"{cname} gradient")), Op("sym", K(f"{cname} Hessian"))
        s.I.shapes[g] = (K(N), Op("dim"))
        s.I.shapes[h] = (K(N), Op("dim"), Op("dim")) if per else (Op("all"), Op("all"))

        def f(args, kwargs, node, st, names=names, g=g, h=h):
            args = args[1:] if len(args) > len(names) or args and args[0].tag == "ref" and getattr(args[0].a[0], "cls", None) is not None else args
            b = {**dict(zip(names, args)), **kwargs}
            first = s.I.arr(node, g, st, extra="g")
            if b.get("compute_hessian") is K(False):
                return first
            return Tup((first, s.I.arr(node, h, st, extra="h")))

        s.I.stubs[fo.qual] = f


# ------------------------------------------------------------------------------------- step computation
def build(ctx, kind, variant, opaque=(), over=None):
    cls = ctx.w.find_class(kind)
    s = ctx.session(f"{kind} {variant} three points", set(c12.opaque_names(ctx.w)) | set(opaque))
    models.BIG[0] = 6
    indicators(ctx, s)
    o = scen.optimizer(s, kind, variant, {"verbose": K(False), **(over or {})})
    st, wr = c12.stub(s, o)
    R = prepare(s, o, st, wr)
    return cls, s, o, st, R


def step(ctx, kind, variant):
    cls, s, o, st, R = build(ctx, kind, variant)
    m, _ = cls.lookup("_compute_netwon_step")
    if m is None:
        s.method(o, scen.step_method(ctx.w, cls))
    else:
        n = len(m.a[0].node.args.args) - 1 - len(m.a[0].defaults)
        s.method(o, "_compute_netwon_step", [st][:n])
    ev = s.take()
    stores(ctx, s, R, ev, kind)
    terms = []
    for e in ev:
        if e.kind == "extcall" and (e.name in c12.DIRECT or e.name in c12.LSQ or e.name.split(".")[-1] in ("block_diag", "array", "concatenate", "stack", "vstack")):
            terms += list(e.argvals)
            if e.name.split(".")[-1] == "block_diag" and len(e.argvals) == N:
                terms.append(Tup(tuple(e.argvals)))
        elif e.kind == "store" and isinstance(e.valnum, T):
            terms.append(e.valnum)
    sequences(ctx, R, terms, kind, f"hvd {kind} step computation")


# ------------------------------------------------------------------------------------- line search
def line(ctx, kind, variant):
    """one iteration with step, residual and step limit given as symbols with one row per point"""
    cls, s, o, st, R = build(ctx, kind, variant)
    step_ = s.param("step", "array", shape=(K(N), Op("dim")))
    res = s.param("res", "array", shape=(K(N), Op("dim")))
    lim = s.param("limit", "array", shape=(K(N),))
    for name, val in (("_compute_netwon_step", Tup((step_, res))), ("_handle_box_constraint", Tup((step_, lim)))):
        m, owner = cls.lookup(name)
        if m is not None:
            s.I.stubs[m.a[0].qual] = lambda a, k, n, st_, v=val: v
    s.method(o, scen.step_method(ctx.w, cls))
    ev = s.take()
    stores(ctx, s, R, ev, kind)
    upd, _ = ctx.w.find_class("State").lookup("update_one")
    for e in ev:
        if e.kind == "enter" and upd is not None and e.callee is upd.a[0]:
            b = {k: s.val(v) for k, v in e.bound.items() if isinstance(v, T) and k != "self"}
            ks = [kval(v) % N for v in b.values() if is_int(v)]
            xs = set().union(*(ints(R.of(v)) for v in b.values() if not is_int(v))) if b else set()
            if len(ks) == 1 and xs:
                ctx.ob("trial of one point", f"{kind} {e.where} [{ks[0]}]")
                if xs - {ks[0]}:
                    ctx.fail("row-mixed", f"{e.func}:trial", f"the trial evaluated as point {ks[0]} is built from data of point(s) {sorted(xs)}", e)
        elif e.kind == "store" and isinstance(e.idx, T) and isinstance(e.valnum, T) and is_int(first(e.idx)) and base_rows(s, R, e) == N:
            r = kval(first(e.idx)) % N
            for g in e.guards:
                got = ints(R.of(g[0])) if isinstance(g[0], T) else set()
                if got:
                    ctx.ob("acceptance test of one point", f"{kind} {e.where} [{r}]")
                    tests = [x for x in c12.subterms(g[0]) if x.tag == "op" and x.a[0] == "cmp"] if g[0].tag != "k" else []
                    if r not in got or any(ints(R.of(x)) - {r} for x in tests):
                        got = got.union(*(ints(R.of(x)) for x in tests)) - {r} or got
                        ctx.fail("row-mixed", f"{e.func}:test", f"whether the step size of point {r} is changed depends on point(s) {sorted(got)}", e)


# ------------------------------------------------------------------------------------- HVN: groups of points
def literal(I, node, xs, st):
    return I.arr(node, Op("list", *[K(x) for x in xs]), st, extra=("lit", tuple(xs)))


class Pos:
    """positions denoted by an index term"""

    def __init__(self, I, feasible=()):
        self.I, self.feasible = I, list(feasible)

    def mask(self, t):
        """points selected by a mask"""
        if t.tag == "op" and t.a[0] == "sym" and kval(t.a[1]) == "feasible":
            return self.feasible
        n = c12.is_call(t)
        inner = None
        if n in ("numpy.logical_not", "numpy.invert", "numpy.bitwise_not"):
            inner = t.a[2]
        elif t.tag == "op" and t.a[0] in ("inv", "invert", "not", "~"):
            inner = t.a[1]
        elif t.tag == "op" and t.a[0] == "un" and len(t.a) == 3:
            inner = t.a[2]
        elif t.tag == "op" and t.a[0] in ("cmp",) and any(x is K(False) for x in t.a[1:] if isinstance(x, T)) and t.a[1] in ("==", K("==")):
            inner = [x for x in t.a[2:] if x is not K(False)][0]
        if isinstance(inner, T):
            m = self.mask(inner)
            return None if m is None else [x for x in range(N) if x not in m]
        return None

    def __call__(self, t):
        if not isinstance(t, T):
            return None
        lit = self.I.literal_seq(t)
        if lit is not None:
            return [kval(x) for x in lit] if all(is_int(x) for x in lit) else None
        m = self.mask(t)
        if m is not None:
            return list(m)
        n = c12.is_call(t)
        if n in ("numpy.r_", "numpy.concatenate", "numpy.hstack", "numpy.append", "numpy.union1d", "numpy.setdiff1d"):
            parts = c12.items(t.a[2]) if len(t.a) == 3 or n in ("numpy.r_", "numpy.concatenate", "numpy.hstack") else None
            parts = parts if parts is not None else [x for x in t.a[2:] if isinstance(x, T) and not (x.tag == "op" and x.a[0] == "kw")]
            ps = [[kval(x)] if is_int(x) else self(x) for x in parts]
            if any(x is None for x in ps):
                return None
            if n == "numpy.setdiff1d":
                return sorted(set(ps[0]) - set(ps[1]))
            out = [y for x in ps for y in x]
            return sorted(set(out)) if n == "numpy.union1d" else out
        if n in ("numpy.sort", "numpy.unique", "sorted", "builtins.sorted"):
            x = self(t.a[2])
            return None if x is None else sorted(set(x)) if n == "numpy.unique" else sorted(x)
        if n in ("numpy.array", "numpy.asarray", "numpy.copy", "list", "builtins.list", "numpy.fromiter"):
            return self(t.a[2])
        if n in ("numpy.arange", "builtins.range", "range"):
            a = [kval(x) for x in t.a[2:] if is_int(x)]
            return list(range(*a)) if a else None
        if t.tag == "op":
            if t.a[0] in ("copy", "astype", "asarray", "ravel", "sorted", "listof_"):
                return sorted(self(t.a[1])) if t.a[0] == "sorted" and self(t.a[1]) is not None else self(t.a[1])
            if t.a[0] == "range":
                a = [kval(x) for x in t.a[1:] if is_int(x)]
                return list(range(*a)) if a else None
            if t.a[0] == "sub":
                b, i = self(t.a[1]), t.a[2]
                if b is None:
                    return None
                if is_int(i):
                    return [b[kval(i)]] if kval(i) < len(b) else None
                j = self(i)
                return None if j is None or any(x >= len(b) for x in j) else [b[x] for x in j]
        return None

    def rows(self, t, sym):
        """positions of the rows selected from a symbol"""
        t = c12.peel(t)
        if t.tag == "op" and t.a[0] == "sym" and kval(t.a[1]) == sym:
            return list(range(N))
        if t.tag == "op" and t.a[0] == "sub":
            b = self.rows(t.a[1], sym)
            i = axis0(t.a[2])
            if b is None or whole(i):
                return b
            p = self(i)
            return None if p is None or any(x >= len(b) for x in p) else [b[x] for x in p]
        return None


class Undecided(Exception):
    pass


def at(P, t, r):
    """what enters row r of a value: {(symbol, row) ...}"""
    if t.tag == "k":
        return {("const", None)}
    if t.tag == "top":
        raise Undecided
    if t.tag == "phi":
        return set().union(*(at(P, x, r) for x in t.a[0]))
    if t.tag == "op":
        o = t.a[0]
        if o == "sym":
            n = kval(t.a[1])
            return {(n, r)}
        if o in ("add", "mul"):
            return set().union(*(at(P, x, r) for x in t.a[1:]))
        if o in ("reshape", "copy", "astype", "asarray", "neg", "bcast"):
            return at(P, t.a[1], r)
        if o == "mark":
            return at(P, t.a[2], r)
        if o == "upd":
            path = t.a[2].a
            i = path[0].a[1] if path and path[0].tag == "op" and path[0].a[0] in ("idx", "idx?") else None
            i = axis0(i) if i is not None else None
            if i is None:
                raise Undecided
            if whole(i):
                return at(P, t.a[3], r)
            p = [kval(i) % N] if is_int(i) else list(range(N))[slice(*[kval(x) for x in i.a])] if i.tag == "sl" and all(is_k(x) for x in i.a) else P(i)
            if p is None:
                raise Undecided
            if r not in p:
                return at(P, t.a[1], r)
            if len(path) > 1:
                raise Undecided
            return at(P, t.a[3], p.index(r))
        if o == "sub":
            i = axis0(t.a[2])
            if whole(i) or i.tag == "sl" and is_k(i.a[0]) and kval(i.a[0]) in (None, 0) and kval(i.a[2]) in (None, 1):
                return at(P, t.a[1], r)
            p = P(i)
            if p is None or r >= len(p):
                raise Undecided
            return at(P, t.a[1], p[r])
        if c12.is_call(t, {"numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.zeros_like", "numpy.ones_like"}):
            return {("const", None)}
        if c12.is_call(t, c12.PEEL | {"numpy.expand_dims"}):
            return at(P, t.a[2], r)
    raise Undecided


def set_partitions(xs):
    """ordered partitions of a set into non-empty fronts"""
    if not xs:
        yield []
        return
    for k in range(1, len(xs) + 1):
        for f in itertools.combinations(xs, k):
            rest = [x for x in xs if x not in f]
            for p in set_partitions(rest):
                yield [list(f)] + p


def grouping(ctx, feasible):
    for fronts in set_partitions(feasible):
        one_grouping(ctx, feasible, fronts)


def one_grouping(ctx, feasible, fronts):
    w = ctx.w
    cls = w.find_class("HVN")
    who = f"HVN feasible={feasible} fronts={fronts}"
    s = ctx.session(who, c12.opaque_names(w))
    I = s.I
    o = scen.optimizer(s, "HVN", "full", {"verbose": K(False), "limit_max_step_size": K(True)})
    st, wr = c12.stub(s, o)
    prepare(s, o, st, wr)
    I.precise = True
    P = Pos(I, feasible)
    groups, bad = [], []
    F = s.param("feasible", "array", shape=(K(N),))
    expected = [sorted(f) for f in fronts]
    infeasible = [x for x in range(N) if x not in feasible]
    if expected:
        expected[0] = sorted(expected[0] + infeasible)
    else:
        expected = [list(range(N))]

    def where(args, kwargs, node, st_, tup=True):
        if len(args) != 1 or kwargs:
            return NotImplemented
        p = P.mask(I.val(args[0], st_))
        if p is None:
            return NotImplemented
        x = literal(I, node, p, st_)
        return Tup((x,)) if tup else x

    for n in ("numpy.nonzero", "numpy.where"):
        I.ext_stubs[n] = where
    I.ext_stubs["numpy.flatnonzero"] = lambda a, k, n, st_: where(a, k, n, st_, False)

    def method(cls_, name, f):
        m, _ = cls_.lookup(name)
        if m is not None:
            I.stubs[m.a[0].qual] = f
        return m is not None

    ctx.need(method(w.find_class("State"), "is_feasible", lambda a, k, n, st_: F), "the feasibility test of the population is not found")

    def sort(args, kwargs, node, st_):
        t = I.val(args[0] if args else next(iter(kwargs.values())), st_)
        rows = P.rows(t, "st.Y")
        if rows is None:
            bad.append("undetermined")
            return Op("sym", K("fronts"))
        if sorted(rows) != sorted(feasible):
            bad.append(("sorted", rows, node))
            return Op("sym", K("fronts"))
        from ..interp import Cell

        f = {K(i): literal(I, node, [rows.index(x) for x in fr], st_) for i, fr in enumerate(fronts)}
        return I.alloc(node, Cell("dict", f=f), st_)

    nds = w.find_func("non_domin_sort")
    I.stubs[nds.a[0].qual] = sort

    def step_(args, kwargs, node, st_):
        if I.loopdepth:
            bad.append("undetermined")  # the groups iterated over are not exactly known
        for v in [*args, *kwargs.values()]:
            if v.tag == "ref" and getattr(v.a[0], "cls", None) is not None and v.a[0].cls.name == "State":
                f = st_.heap[v.a[0]].f or {}
                x = next((f[k] for k in ("X", "_X") if k in f), None)
                rows = P.rows(I.val(x, st_), "st.X") if x is not None else None
                if rows is None:
                    bad.append("undetermined")
                    rows = ()
                groups.append(tuple(rows))
                k = len(groups) - 1
                for n in ("step", "R"):
                    I.shapes[Op("sym", K(f"{n}{k}"))] = (K(len(rows)), Op("dim"))
                return Tup(tuple(I.arr(node, Op("sym", K(f"{n}{k}")), st_, extra=(n, k)) for n in ("step", "R")))
        bad.append("undetermined")
        return Tup((Op("sym", K("step?")), Op("sym", K("R?"))))

    if not method(cls, "_compute_netwon_step", step_):
        ctx.ob("undetermined grouping", who)
        return
    for n in ("_check_population", "_compute_indicator_value"):
        method(cls, n, lambda a, k, n_, st_: K(None))
    limits = []

    def limit(args, kwargs, node, st_):
        limits.append([I.val(v, st_) for v in args[1:]])
        k = len(groups) - 1
        return Op("sym", K(f"limit{k}"))

    method(cls, "_compute_max_step_size", limit)
    searches, trying, trials = [], [], []

    def search(args, kwargs, node, st_):
        k = len(groups) - 1
        searches.append([I.val(v, st_) for v in [*args, *kwargs.values()]])
        for v in [*args, *kwargs.values()]:
            if models.is_fnval(I, v, st_):
                trying.append(k)
                I.call(v, [Op("sym", K("alpha"))], {}, node, st_, None)
                trying.pop()
        return Op("sym", K(f"length{k}"))

    ls = w.find_func("backtracking_line_search")
    if ls is not None:
        I.stubs[ls.a[0].qual] = search
    final = []
    up, _ = w.find_class("State").lookup("update")

    def update(args, kwargs, node, st_):
        v = args[0] if args and args[0].tag == "ref" and args[0].a[0] is st.a[0] else None
        if v is not None and not trying:
            final.append(I.val([*args[1:], *kwargs.values()][0], st_))
        elif trying:
            trials.append((trying[-1], I.val([*args[1:], *kwargs.values()][0], st_)))
        return K(None)

    I.stubs[up.a[0].qual] = update
    s.method(o, scen.step_method(w, cls))
    loc = f"hvd.newton {cls.name}.{scen.step_method(w, cls)}"
    for b in bad:
        if b != "undetermined":
            ctx.fail("grouping", "HVN:sorted-points", f"with points {feasible} feasible, points {b[1]} are sorted into fronts", where=loc)
            return
    if bad or not groups or len(final) != 1:
        ctx.ob("undetermined grouping", who)
        return
    ctx.ob("grouping of the population", f"{who} -> {groups}")
    got = sorted(sorted(g) for g in groups)
    if got != sorted(expected):
        ctx.fail("grouping", "HVN:groups", f"with points {feasible} feasible and fronts {fronts}, the groups iterated are {got} instead of {sorted(expected)}", where=loc)
        return
    own = {r: k for k, g in enumerate(groups) for r in g}
    for r in range(N):
        k = own[r]
        j = groups[k].index(r)
        try:
            have = {x for x in at(P, final[0], r) if x[0] != "const"}
        except Undecided:
            ctx.ob("undetermined row of the update", f"{who} [{r}]")
            continue
        ctx.ob("row of the population update", f"{who} [{r}] = {sorted(map(str, have))}")
        steps = {x for x in have if x[0].startswith("step")}
        if steps != {(f"step{k}", j)}:
            ctx.fail("scatter", "HVN:step", f"point {r} (row {j} of group {groups[k]}) is moved by {sorted(steps) or 'nothing'} (feasible={feasible}, fronts={fronts})", where=loc)
        if {x for x in have if x[0] == "st.X"} != {("st.X", r)}:
            ctx.fail("scatter", "HVN:point", f"the new point {r} starts from {sorted(x for x in have if x[0] == 'st.X')}", where=loc)
        ln = {x[0] for x in have if x[0].startswith("length")}
        if ln != {f"length{k}"} and searches:
            ctx.fail("scatter", "HVN:length", f"point {r} of group {k} is moved by the step length of group {sorted(ln)}", where=loc)
    for k, t in trials:
        for j, r in enumerate(groups[k]):
            try:
                have = {x for x in at(P, t, j) if x[0] != "const"}
            except Undecided:
                ctx.ob("undetermined row of a trial", f"{who} [{r}]")
                continue
            ctx.ob("row of a line-search trial", f"{who} [{r}] = {sorted(map(str, have))}")
            steps = {x for x in have if x[0].startswith("step")}
            if steps != {(f"step{k}", j)} or {x for x in have if x[0] == "st.X"} != {("st.X", r)}:
                ctx.fail("scatter", "HVN:trial", f"the line search of group {groups[k]} tries point {r} at {sorted(have)}, not at the point itself plus its own step (feasible={feasible}, fronts={fronts})", where=loc)
    for k, v in enumerate(searches):
        names = {kval(x.a[1]) for t in v for x in c12.subterms(t) if x.tag == "op" and x.a[0] == "sym"}
        wrong = {n for n in names if n[:1] == "R" and n[1:].isdigit() and n != f"R{k}"}
        ctx.ob("line search of a group", f"{who} {k}")
        if wrong:
            ctx.fail("scatter", "HVN:search", f"the line search of group {k} uses the residual of group {sorted(wrong)}", where=loc)


# ------------------------------------------------------------------------------------- HVN: coincident points
def coincidences():
    """equivalence relations over the points, as class labels"""
    for lab in itertools.product(range(N), repeat=N):
        seen = []
        ok = True
        for x in lab:
            if x not in seen:
                if x != len(seen):
                    ok = False
                    break
                seen.append(x)
        if ok:
            yield lab


def duplicates(ctx, kind):
    w = ctx.w
    cls = w.find_class(kind)
    m, _ = cls.lookup("_check_population")
    if m is None:
        ctx.ob("undetermined duplicate removal", kind)
        return
    for lab in coincidences():
        who = f"{kind} coincidence classes {lab}"
        s = ctx.session(who, c12.opaque_names(w))
        I = s.I
        o = scen.optimizer(s, kind, "full", {"verbose": K(False)})
        st, wr = c12.stub(s, o)
        R = prepare(s, o, st, wr)
        I.precise = True
        P = Pos(I)
        I.shapes[Op("sym", K("D"))] = (K(N), K(N))
        I.ext_stubs["scipy.spatial.distance.cdist"] = lambda a, k, n, st_: I.arr(n, Op("sym", K("D")), st_)

        def near(args, kwargs, node, st_, tup=True):
            if len(args) != 1:
                return NotImplemented
            t = I.val(args[0], st_)
            rows = ints(R.of(t))
            if len(rows) != 1 or not c12.has(t, {"D"}):
                return NotImplemented
            r = next(iter(rows))
            p = [x for x in range(N) if lab[x] == lab[r]]
            if any(x.tag == "op" and x.a[0] in ("inv", "not", "un") for x in c12.subterms(t)):
                return NotImplemented
            x = literal(I, node, p, st_)
            return Tup((x,)) if tup else x

        for n in ("numpy.nonzero", "numpy.where"):
            I.ext_stubs[n] = near
        I.ext_stubs["numpy.flatnonzero"] = lambda a, k, n, st_: near(a, k, n, st_, False)
        s.method(o, "_check_population")
        new = s.get(o, "state")
        X = None
        if new.tag == "ref":
            f = s.fields(new)
            X = next((f[k] for k in ("X", "_X") if k in f), None)
        kept = P.rows(s.val(X), "st.X") if X is not None else None
        if kept is None:
            ctx.ob("undetermined duplicate removal", f"{who}: {show(s.val(X), 80) if X is not None else ''}")
            continue
        ctx.ob("duplicate removal", f"{who} -> {kept}")
        if sorted(lab[x] for x in kept) != sorted(set(lab)):
            ctx.fail("duplicates", f"{kind}:kept", f"of points with coincidence classes {list(lab)} the points {kept} stay; exactly one of each class should", where=f"hvd.newton {kind}._check_population")
        n = s.val(s.get(o, "N"))
        if is_int(n) and kval(n) != len(kept):
            ctx.fail("duplicates", f"{kind}:count", f"{len(kept)} points stay but the population size is {kval(n)}", where=f"hvd.newton {kind}._check_population")


FIXTURE = '''
import numpy as np
class A:
    def good(self, X, Y):
        R = np.zeros((3, 2))
        for i, x in enumerate(X):
            R[i] = x * Y[i]
        return R, np.array([a + b for a, b in zip(X, Y)])
    def bad(self, X, Y):
        R = np.zeros((3, 2))
        for i, x in enumerate(X):
            R[i] = x * Y[i - 1]
        return R, np.array([X[i - 1] + 1 for i in range(3)])
'''


def selftest(ctx):
    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    got = {}
    for m in ("good", "bad"):
        s = Session(w)
        o = s.new("A", [])
        R = Rows(s.I)
        X, Y = (s.param(n, "array", shape=(K(3), K(2))) for n in "XY")
        s.I.row_count = R.count
        r = s.method(o, m, [X, Y])
        sub = type(ctx)("C19", "quick", 1)
        ev = s.take()
        stores(sub, s, R, ev, "A")
        sequences(sub, R, [s.val(r)], "A", "fixture")
        got[m] = sorted({f.rule for f in sub.findings.values()})
    ctx.need(got == {"good": [], "bad": ["row-mixed", "row-order"]}, f"self-test: {got}")
    ctx.selftests.append("a residual row built from another point's data and a list in the wrong order are reported; the correct loop is not")


def run(ctx):
    ctx.rule("rows(value stored for point r) <= {r}; per-point lists in point order; groups partition the points")
    jobs = [("step", k, v) for k in c12.NEWTON for v in ("full", "bare", "eq", "ieq")]
    jobs += [("line", k, v) for k in ("DpN", "MMDNewton") for v in ("full", "bare")]

    jobs += [("grouping", list(f)) for k in range(N + 1) for f in itertools.combinations(range(N), k)]
    jobs += [("duplicates", "HVN")]

    def job(c, j):
        globals()[j[0]](c, *j[1:])

    ctx.parallel(jobs, job, weight=lambda j: 3 if j[0] == "line" else 1)


def blame(R, t, bad):
    """innermost subterm whose rows include a wrong one"""
    for x in R.kids(t):
        if ints(R.of(x)) & bad:
            return blame(R, x, bad)
    return t
