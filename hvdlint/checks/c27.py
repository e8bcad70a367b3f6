"""Matched targets: what match, shift and the optimizers do to the targets of a reference set."""

import itertools

from .. import scen
from ..interp import Cell
from ..terms import K, Op, Tup, is_k, kval, show

EXPLANATION = (
    "ReferenceSet and the target handling of DpN and MMDNewton are interpreted on symbolic reference components, directions and objective vectors, with fixed small sizes. "
    "The outcome of every linear assignment is enumerated (all assignments of components to partitions and of targets to points); each call's cost argument tells what is being paired. "
    "The resulting targets are evaluated row by row as linear combinations of reference points and directions, and compared with what the enumerated assignments and shifts prescribe."
)
ASSUMPTIONS = [
    "scipy's linear_sum_assignment returns row indices in ascending order and one column per row",
    "the k-medoids estimator returns positions of distinct points of the component it is fitted on",
    "rows whose terms lie outside the evaluated operators are counted as undetermined and not reported",
]
NP = {"zeros", "empty", "zeros_like", "empty_like"}
LIKE = {"array", "asarray", "copy", "ascontiguousarray", "atleast_2d", "vstack", "stack", "row_stack"}


class Undecided(Exception):
    pass


def vadd(a, b):
    r = dict(a)
    for k, v in b:
        r[k] = r.get(k, 0) + v
    return frozenset((k, v) for k, v in r.items() if abs(v) > 1e-12)


def vmul(c, a):
    return frozenset((k, c * v) for k, v in a if abs(c * v) > 1e-12)


class Arr:
    """matrix by rows; ``n`` may be unknown"""

    def __init__(self, row, n=None):
        self.f, self.n = row, n

    def row(self, i):
        if i < 0:
            if self.n is None:
                raise Undecided
            i += self.n
        if self.n is not None and not 0 <= i < self.n:
            raise Undecided
        return self.f(i)

    def rows(self):
        if self.n is None:
            raise Undecided
        return [self.row(i) for i in range(self.n)]

    def map(self, g):
        return Arr(lambda i: g(self.row(i)), self.n)


def exact(rows):
    return Arr(lambda i: rows[i], len(rows))


def nm(x):
    return x if isinstance(x, str) else kval(x)


class Rows:
    def __init__(self, sizes):
        self.sizes, self.memo = sizes, {}

    def __call__(self, t):
        if t not in self.memo:
            self.memo[t] = self.go(t)
        return self.memo[t]

    def ints(self, t):
        if t.tag == "tup":
            l = t.a
        elif t.tag == "op" and t.a[0] in ("list", "tuple"):
            l = t.a[1:]
        elif t.tag == "op" and t.a[0] == "call" and t.a[1].tag == "ext" and t.a[1].a[0].split(".")[-1] in ("array", "asarray") and len(t.a) > 2:
            return self.ints(t.a[2])
        elif t.tag == "op" and t.a[0] == "call" and t.a[1].tag == "ext" and t.a[1].a[0].split(".")[-1] == "arange" and len(t.a) == 3 and is_k(t.a[2]):
            return list(range(kval(t.a[2])))
        else:
            return None
        return [kval(x) for x in l] if all(is_k(x) and type(kval(x)) is int for x in l) else None

    def sel(self, v, i):
        if not isinstance(v, Arr):
            raise Undecided
        if is_k(i) and type(kval(i)) is int:
            return v.row(kval(i))
        if i.tag == "sl" and all(is_k(x) for x in i.a):
            return exact(v.rows()[slice(*[kval(x) for x in i.a])])
        if i.tag == "extm" and nm(i.a[1]) == "medoid_indices_" or i.tag == "op" and i.a[0] == "attr" and nm(i.a[2]) == "medoid_indices_":
            if v.n is None:
                raise Undecided
            return Arr(lambda j: v.row(v.n - 1 - j))
        l = self.ints(i)
        if l is None and i.tag == "op" and i.a[0] == "tuple" and len(i.a) == 3 and i.a[2].tag == "sl" and all(is_k(x) and kval(x) is None for x in i.a[2].a):
            return self.sel(v, i.a[1])
        if l is None:
            raise Undecided
        return exact([v.row(j) for j in l])

    def go(self, t):
        if is_k(t):
            if isinstance(kval(t), (int, float)) and not isinstance(kval(t), bool):
                return float(kval(t))
            raise Undecided
        if t.tag == "phi":
            vs = [self(x) for x in t.a[0]]
            if all(not isinstance(v, Arr) and v == vs[0] for v in vs):
                return vs[0]
            if all(isinstance(v, Arr) and v.n is not None for v in vs) and all(v.rows() == vs[0].rows() for v in vs):
                return vs[0]
            raise Undecided
        if t.tag == "tup":
            return exact([self(x) for x in t.a])
        if t.tag != "op":
            raise Undecided
        o, a = t.a[0], t.a[1:]
        if o == "sym":
            name = kval(a[0])
            if name in self.sizes:
                return Arr(lambda i: frozenset([((name, i), 1.0)]), self.sizes[name])
            if name.startswith("dir"):
                return frozenset([((name,), 1.0)])
            raise Undecided
        if o == "chim":
            rows = self(a[0]).rows()
            names = {k[0] for r in rows for k, _ in r}
            if len(names) == 1 and rows == [frozenset([((n, i), 1.0)]) for n in names for i in range(len(rows))]:
                return frozenset([(("dir" + names.pop(),), 1.0)])
            raise Undecided
        if o == "sub":
            return self.sel(self(a[0]), a[1])
        if o == "upd":
            return self.update(self(a[0]), a[1], a[2])
        if o in ("list", "tuple"):
            return exact([self(x) for x in a])
        if o == "add":
            r = self(a[0])
            for x in a[1:]:
                r = self.plus(r, self(x))
            return r
        if o == "neg":
            return self.times(-1.0, self(a[0]))
        if o == "mul":
            vs = [self(x) for x in a]
            c, rest = 1.0, []
            for v in vs:
                if isinstance(v, float):
                    c *= v
                else:
                    rest.append(v)
            if len(rest) > 1:
                raise Undecided
            return self.times(c, rest[0]) if rest else c
        if o in ("astype", "copy", "asarray"):
            return self(a[0])
        if o == "mcall" and nm(a[0]) in ("copy", "astype"):
            return self(a[1])
        if o == "call" and a[0].tag == "ext":
            n = a[0].a[0].split(".")[-1]
            args = [x for x in a[1:] if not (x.tag == "op" and x.a[0] == "kw")]
            if n in NP:
                return Arr(lambda i: frozenset(), int(kval(args[0].a[1])) if args and args[0].tag == "op" and args[0].a[0] == "tuple" and is_k(args[0].a[1]) else None)
            if n in LIKE and args:
                return self(args[0])
            if n == "take" and len(args) >= 2:
                return self.sel(self(args[0]), args[1])
            if n == "concatenate" and args:
                parts = self(args[0]).rows()
                return exact([r for p in parts for r in p.rows()])
        raise Undecided

    def plus(self, a, b):
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.n is not None and b.n is not None and a.n != b.n:
                raise Undecided
            return Arr(lambda i: vadd(a.row(i), b.row(i)), a.n if a.n is not None else b.n)
        if isinstance(b, Arr):
            a, b = b, a
        if isinstance(a, Arr):
            return a.map(lambda r: self.plus(r, b))
        if isinstance(a, float) and isinstance(b, float):
            return a + b
        if isinstance(a, frozenset) and isinstance(b, frozenset):
            return vadd(a, b)
        if 0.0 in (a, b):
            return a if b == 0.0 else b
        raise Undecided

    def times(self, c, v):
        if isinstance(v, Arr):
            return v.map(lambda r: self.times(c, r))
        return c * v if isinstance(v, float) else vmul(c, v)

    def update(self, v, path, new):
        if not isinstance(v, Arr) or len(path.a) != 1:
            raise Undecided
        i = path.a[0]
        if not (i.tag == "op" and i.a[0] == "idx"):
            raise Undecided
        i = i.a[1]
        w = self(new)
        l = [kval(i)] if is_k(i) and type(kval(i)) is int else self.ints(i)
        if l is None:
            raise Undecided
        at = {}
        for k, j in enumerate(l):
            at[j] = w if not isinstance(w, Arr) else w.row(k)
        return Arr(lambda i: at[i] if i in at else v.row(i), v.n)


def names(t, out=None):
    """symbols a term is made of"""
    out = set() if out is None else out
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.tag == "op" and x.a[0] == "sym":
            out.add(kval(x.a[1]))
            continue
        for y in x.a:
            if hasattr(y, "tag"):
                stack.append(y)
            elif isinstance(y, (tuple, frozenset)):
                stack.extend(z for z in y if hasattr(z, "tag"))
    return out


class World:
    """one history of a reference set with a prescribed outcome of each assignment"""

    def __init__(self, ctx, name, sizes, parts, ny, choose, eta=True, plain=False):
        self.ctx, self.name, self.parts, self.choose = ctx, name, parts, choose
        self.s = s = ctx.session(name)
        self.I = s.I
        self.I.precise, self.I.raised = True, False
        self.comps = sorted(sizes)
        self.sizes = dict(sizes, Y=ny, Z=ny)
        self.ev = Rows(self.sizes)
        self.I.ext_stubs["scipy.optimize.linear_sum_assignment"] = self.assign
        self.I.ext_stubs["numpy.argmin"] = self.argmin
        self.I.ext_stubs["numpy.nonzero"] = self.nonzero
        self.I.ext_stubs["numpy.flatnonzero"] = lambda a, k, n, st: self.seq(a, k, n, st)
        self.log, self.labels, self.bad = [], None, []
        self.Y = s.param("Y", "array", shape=(K(ny), K(2)))
        A = [s.param(c, "array", shape=(K(sizes[c]), K(2))) for c in self.comps]
        q = self.function("compute_chim")
        if q:
            self.I.stubs[q] = lambda args, kw, node, st: self.I.arr(node, Op("chim", self.I.val(args[0] if args else list(kw.values())[0], st)), st)
        self.plain = plain
        ref = A[0] if plain else self.dict(A)
        kw = {}
        if eta:
            D = [s.param("dir" + c, "array", shape=(K(2),)) for c in self.comps]
            kw["eta"] = self.dict(D)
        if parts is not None and not plain:
            kw["Y_idx"] = self.list([self.list([K(i) for i in p]) for p in parts])
        self.o = s.new("ReferenceSet", [ref], kw)

    def function(self, name):
        try:
            f = self.ctx.w.find_func(name)
        except Exception:
            return None
        return getattr(f.a[0], "qual", None) if f is not None else None

    def list(self, xs):
        return self.I.alloc(self.s.node(), Cell("list", items=tuple(xs)), self.s.st, extra="l")

    def dict(self, xs):
        return self.I.alloc(self.s.node(), Cell("dict", f={K(i): x for i, x in enumerate(xs)}), self.s.st, extra="d")

    # ---- library calls with prescribed results
    def ints(self, node, st, xs):
        return self.I.alloc(node, Cell("list", items=tuple(map(K, xs))), st, extra=("ints",) + tuple(xs))

    def assign(self, args, kwargs, node, st):
        t = self.I.val(args[0] if args else kwargs.get("cost_matrix"), st)
        kind = self.classify(t)
        if kind is None:
            self.log.append(("unknown", show(t, 60), None, None))
            return NotImplemented
        what, rows, cols = kind
        n, m = len(rows), len(cols)
        pick = self.choose(what, n, m, len(self.log))
        pairs = [(i, pick[i]) for i in sorted(pick)]
        self.log.append((what, rows, cols, pairs))
        return Tup([self.ints(node, st, [p[0] for p in pairs]), self.ints(node, st, [p[1] for p in pairs])])

    def side(self, t):
        ns = names(t) - {"Z"}
        if ns == {"Y"}:
            return "Y"
        comps = {x[3:] if x.startswith("dir") else x for x in ns}
        return "ref" if comps and comps <= set(self.comps) else None

    def classify(self, t):
        """('points', rows, cols) or ('components', rows, cols) of a cost matrix"""
        if t.tag == "op" and t.a[0] == "call" and t.a[1].tag == "ext" and t.a[1].a[0].endswith("cdist"):
            try:
                P, Q = self.ev(t.a[2]), self.ev(t.a[3])
                P, Q = self.finite(P, Q), self.finite(Q, P)
                return "points", P, Q
            except (Undecided, KeyError, IndexError):
                return None
        grid = self.grid(t)
        if grid is None:
            return None
        ids = []
        for row in grid:
            ids.append([])
            for x in row:
                e = self.entry(x)
                if e is None:
                    return None
                ids[-1].append(e)
        n, m = len(ids), len(ids[0])
        for flip in (False, True):
            f = lambda e: (e[1], e[0]) if flip else e
            rows = [f(ids[i][0])[0] for i in range(n)]
            cols = [f(ids[0][j])[1] for j in range(m)]
            if all(f(ids[i][j]) == (rows[i], cols[j]) for i in range(n) for j in range(m)):
                return "components", rows, cols
        return None

    def finite(self, a, b):
        if a.n is None:
            return [a.row(i) for i in range(b.n)]
        return a.rows()

    def grid(self, t):
        if t.tag == "op" and t.a[0] == "reshape" and len(t.a) == 4 and all(is_k(x) for x in t.a[2:]):
            l = self.I.literal_seq(t.a[1])
            n, m = kval(t.a[2]), kval(t.a[3])
            if l is None or n * m != len(l):
                return None
            return [l[i * m:(i + 1) * m] for i in range(n)]
        if t.tag == "op" and t.a[0] == "upd":
            cells = {}
            while t.tag == "op" and t.a[0] == "upd":
                i = t.a[2].a[0] if len(t.a[2].a) == 1 else None
                i = i.a[1] if i is not None and i.tag == "op" and i.a[0] == "idx" else None
                l = self.I.literal_seq(i) if i is not None else None
                if not l or len(l) != 2 or not all(is_k(x) for x in l):
                    return None
                cells.setdefault(tuple(map(kval, l)), t.a[3])
                t = t.a[1]
            n, m = 1 + max(i for i, _ in cells), 1 + max(j for _, j in cells)
            return [[cells[i, j] for j in range(m)] for i in range(n)] if len(cells) == n * m else None
        if t.tag == "op" and t.a[0] == "T":
            g = self.grid(t.a[1])
            return None if g is None else [list(x) for x in zip(*g)]
        l = self.I.literal_seq(t)
        rows = [self.I.literal_seq(x) for x in l] if l else None
        if rows and all(r for r in rows) and len({len(r) for r in rows}) == 1:
            return rows
        return None

    def entry(self, x):
        """(component, partition) a distance is taken between"""
        while x.tag == "op" and x.a[0] == "sub":
            x = x.a[1]
        if not (x.tag == "op" and x.a[0] == "call" and x.a[1].tag == "ext") or len(x.a) < 4:
            return None
        try:
            sides = [self.ev(y).rows() for y in x.a[2:4]]
        except Undecided:
            return None
        out = {}
        for r in sides:
            atoms = {k for v in r for k, _ in v}
            if {k[0] for k in atoms} == {"Y"}:
                out["part"] = tuple(sorted(k[1] for k in atoms))
            else:
                cs = {k[0] for k in atoms if not k[0].startswith("dir")}
                if len(cs) == 1:
                    out["comp"] = cs.pop()
        return (out["comp"], out["part"]) if len(out) == 2 else None

    def argmin(self, args, kwargs, node, st):
        """labels of the points: the nearest component of each"""
        t = self.I.val(args[0], st)
        if self.parts is None or self.labels is None:
            return NotImplemented
        axis = kwargs.get("axis", args[1] if len(args) > 1 else None)
        rows = self.I.literal_seq(t)
        if rows is None or len(rows) != len(self.comps) or axis is None or not is_k(axis):
            return NotImplemented
        for k, x in enumerate(rows):
            if not (x.tag == "op" and x.a[0] == "mcall" and nm(x.a[1]) == "min") and not (x.tag == "op" and x.a[0] == "call" and x.a[1].tag == "ext" and x.a[1].a[0] in ("numpy.min", "numpy.amin")):
                return NotImplemented
        self.log.append(("labels", [sorted(names(x) - {"Y"}) for x in rows], kval(axis), [self.reduced(x) for x in rows]))
        return self.I.arr(node, Op("list", *[K(x) for x in self.labels]), st)

    def reduced(self, x):
        """is the smallest distance taken over the points of the component?"""
        kw = {kval(y.a[1]): y.a[2] for y in x.a if hasattr(y, "tag") and y.tag == "op" and y.a[0] == "kw"}
        pos = [y for y in x.a[2:] if not (y.tag == "op" and y.a[0] == "kw")]
        d, axis = pos[0], kw.get("axis", pos[1] if len(pos) > 1 else None)
        if axis is None or not is_k(axis) or not (d.tag == "op" and d.a[0] == "call" and d.a[1].tag == "ext" and d.a[1].a[0].endswith("cdist")):
            return True
        return self.side(d.a[2 + kval(axis) % 2]) != "Y"

    def seq(self, args, kwargs, node, st):
        t = self.I.val(args[0], st)
        if t.tag == "op" and t.a[0] == "cmp" and nm(t.a[1]) == "Eq":
            for x, y in ((t.a[2], t.a[3]), (t.a[3], t.a[2])):
                l = self.I.literal_seq(x)
                if l is not None and is_k(y) and all(is_k(z) for z in l):
                    return self.ints(node, st, [i for i, z in enumerate(l) if kval(z) == kval(y)])
        l = self.I.literal_seq(t)
        if l is not None and all(is_k(z) for z in l):
            return self.ints(node, st, [i for i, z in enumerate(l) if kval(z)])
        if t.tag == "op" and t.a[0] == "call" and t.a[1].tag == "ext" and t.a[1].a[0] in ("numpy.ones", "numpy.full") and is_k(t.a[2]):
            if t.a[1].a[0] == "numpy.ones" or is_k(t.a[3]) and kval(t.a[3]):
                return self.ints(node, st, range(kval(t.a[2])))
        if getattr(self, "mask", None) is not None and names(t):
            return self.ints(node, st, self.mask)
        return NotImplemented

    def nonzero(self, args, kwargs, node, st):
        r = self.seq(args, kwargs, node, st)
        return r if r is NotImplemented else Tup([r])

    # ---- observation
    def targets(self):
        t = self.s.val(self.s.get(self.o, "reference_set"))
        try:
            v = self.ev(t)
            return v.rows() if isinstance(v, Arr) else None
        except (Undecided, KeyError, IndexError):
            return None

    def match(self):
        self.s.method(self.o, "match", [self.Y])

    def close(self):
        self.I.precise = False
        self.I.ext_stubs, self.I.stubs = {}, {}


def pretty(v):
    return " + ".join(("" if c == 1 else f"{c:g}*") + (f"{k[0]}[{k[1]}]" if len(k) > 1 else k[0]) for k, c in sorted(v)) or "0"


def comp_of(v):
    cs = {k[0] for k, _ in v if not k[0].startswith("dir")}
    return cs.pop() if len(cs) == 1 else None


def check_match(ctx, w, what, prev, before):
    """the targets after a match against the assignments it made"""
    got = w.targets()
    log = w.log[before:]
    if got is None or any(x[0] == "unknown" for x in log) or not any(x[0] == "points" for x in log):
        ctx.ob("undetermined match", what)
        return None
    comp = {}
    for k, rows, cols, pairs in log:
        if k == "components":
            for i, j in pairs:
                comp[cols[j] if isinstance(cols[j], tuple) else rows[i]] = rows[i] if isinstance(cols[j], tuple) else cols[j]
    want, cands = {}, {}
    for k, rows, cols, pairs in log:
        if k != "points":
            continue
        isY = lambda r: all(a[0] == "Y" for a, _ in r) and len(r) == 1
        flip = not all(map(isY, rows))
        P, T = (cols, rows) if flip else (rows, cols)
        if not all(map(isY, P)):
            ctx.ob("undetermined match", what)
            return None
        for i, j in pairs:
            if flip:
                i, j = j, i
            (a, _), = P[i]
            want[a[1]] = T[j]
            cands[a[1]] = T
    if sorted(want) != list(range(w.sizes["Y"])):
        ctx.fail("point-unmatched", what.split(":")[0], f"{what}: only the points {sorted(want)} take part in an assignment")
        return got
    ctx.ob("target of a point", what, n=len(want))
    if len(got) != len(want):
        ctx.fail("target-count", what.split(":")[0], f"{what}: {len(got)} targets for {len(want)} points")
        return got
    for p, t in want.items():
        if got[p] != t:
            ctx.fail("target-mixed-up", what.split(":")[0], f"{what}: the assignment pairs point {p} with {pretty(t)}, its target becomes {pretty(got[p])}")
            return got
    for part in w.parts or [list(range(w.sizes["Y"]))]:
        key = tuple(sorted(part))
        c = comp.get(key) if len(w.comps) > 1 else w.comps[0]
        if c is None:
            ctx.ob("undetermined component", what)
            continue
        ctx.ob("component of a target", what, n=len(part))
        for p in part:
            if comp_of(got[p]) != c:
                ctx.fail("target-of-other-component", what.split(":")[0], f"{what}: the partition {list(part)} is assigned to component {c}, point {p} gets {pretty(got[p])}")
                return got
    if prev is not None:
        # points of one partition keep drawing on the targets that partition's component had
        ctx.ob("targets kept by a further match", what)
        if sorted(map(sorted, got)) != sorted(map(sorted, prev)) and {comp_of(x) for x in got} == {comp_of(x) for x in prev} and w.stable:
            extra = [pretty(x) for x in got if x not in prev]
            ctx.fail("targets-forgotten", what.split(":")[0], f"{what}: matching again uses {extra}, which are not among the current targets")
    return got


def check_shift(ctx, w, what, prev, c, idx, alias=None):
    got = w.targets()
    if got is None or prev is None:
        ctx.ob("undetermined shift", what)
        return None
    ctx.ob("shifted target" if idx else "target kept by a shift", what, n=len(prev))
    for p, old in enumerate(prev):
        want = vadd(old, frozenset([(("dir" + comp_of(old),), c)])) if p in idx else old
        if len(got) != len(prev) or got[p] != want:
            ctx.fail("shift", what.split(":")[0], f"{what}: target {p} was {pretty(old)} and becomes {pretty(got[p]) if p < len(got) else 'nothing'}, expected {pretty(want)}")
            return got
    return got


def injections(n, m):
    """all maximal one-to-one assignments of n rows to m columns, as {row: column}"""
    if n <= m:
        return [dict(enumerate(p)) for p in itertools.permutations(range(m), n)]
    return [{r: c for c, r in enumerate(p)} for p in itertools.permutations(range(n), m)]


SETTINGS = [  # the first three have a single component
    # sizes, partitions, points, directions given, plain array, label mode
    ("one array", {"A": 4}, None, 3, True, True),
    ("one array, direction computed", {"A": 3}, None, 3, False, True),
    ("one component", {"A": 3}, None, 3, True, False),
    ("two components", {"A": 3, "B": 2}, [[0, 2], [1]], 3, True, False),
    ("two components, same size", {"A": 2, "B": 3}, [[1, 2], [0]], 3, False, False),
    ("three components", {"A": 2, "B": 2, "C": 3}, [[2], [0], [1, 3]], 4, True, False),
    ("three components, two partitions", {"A": 3, "B": 2, "C": 2}, [[1], [0, 2]], 3, True, False),
    ("partition by distance", {"A": 3, "B": 2}, "labels", 3, True, False),
]


def setting(ctx, job):
    name, sizes, parts, ny, eta, plain = SETTINGS[job[0]]
    labels = None
    if parts == "labels":
        labels = [0, 1, 0]
        parts = [[i for i, l in enumerate(labels) if l == k] for k in range(len(sizes))]
    nc = len(sizes)
    comp_choices = injections(nc, len(parts)) if parts and nc > 1 else [{0: 0}]
    seen = set()
    for ci, first in enumerate(comp_choices):
        for variant in range(3):
            def choose(what, n, m, at, variant=variant, first=first):
                opts = injections(n, m)
                if what == "components":
                    want = first if at < mark[0] else second
                    return want if want in opts else opts[0]
                return opts[(variant * 5 + at) % len(opts)]

            second = first
            mark = [10**6]
            what = lambda x: f"{name}: {x}"
            w = World(ctx, f"{name} {ci} {variant}", sizes, parts if labels is None else None, ny, choose, eta, plain)
            w.stable = True
            if labels is not None:
                w.labels, w.parts = labels, parts
            try:
                history(ctx, w, what, variant)
            finally:
                w.close()


def history(ctx, w, what, variant):
    s = w.s
    start = w.targets()
    if variant == 0 and start is not None:
        # before any match the whole set moves
        s.method(w.o, "shift", [K(0.25)])
        start = check_shift(ctx, w, what("shift before any match"), start, 0.25, range(len(start)))
    b = len(w.log)
    w.match()
    for k, rows, axis, _ in w.log[b:]:
        if k == "labels":
            ctx.ob("nearest component of a point", what("labels"))
            if not all(_):
                ctx.fail("labels", what("labels"), "the distance of a point to a component is not the smallest over the component's points")
            if axis != 0 or rows != [[c] for c in w.comps] and [[y for y in r if not y.startswith("dir")] for r in rows] != [[c] for c in w.comps]:
                ctx.fail("labels", what("labels"), f"the label of a point is the position of the smallest of the distances to {rows} along axis {axis}, expected the components in order along axis 0")
    t = check_match(ctx, w, what("first match"), None, b)
    if t is None:
        return
    # shift of some targets, then of all
    ids = [0, 2] if variant != 1 else [1]
    s.method(w.o, "shift", [K(0.5), w.list([K(i) for i in ids])])
    t = check_shift(ctx, w, what("shift of chosen targets"), t, 0.5, ids)
    s.method(w.o, "shift", [K(0.5), w.list([])])
    t = check_shift(ctx, w, what("shift of no target"), t, 0.5, [])
    s.method(w.o, "shift", [], {"c": K(2.0)})
    t = check_shift(ctx, w, what("shift of all targets"), t, 2.0, range(w.sizes["Y"]))
    if t is None:
        return
    b = len(w.log)
    w.match()
    t = check_match(ctx, w, what("match after shifts"), t, b)
    if t is None:
        return
    # a shift after a re-assignment must reach the records of the new positions
    s.method(w.o, "shift", [K(0.125), w.list([K(1)])])
    t = check_shift(ctx, w, what("shift after the second match"), t, 0.125, [1])
    if t is None:
        return
    if "re_match" in s.fields(w.o):
        s.set(w.o, "re_match", K(False))
        b = len(w.log)
        w.match()
        u = w.targets()
        ctx.ob("match switched off", what("re_match off"))
        if u is not None and u != t:
            ctx.fail("match-while-off", what("re_match off"), "with re_match off a match changes the targets")
        s.set(w.o, "re_match", K(True))
    b = len(w.log)
    w.match()
    check_match(ctx, w, what("third match"), t, b)


def optimizer(ctx, job):
    """shifts made by the optimizers: which targets, and what is recorded of them"""
    kind = job[1]
    sizes, parts, ny = {"A": 3, "B": 2}, [[0, 2], [1]], 3
    for rnd, mask in ((0, [0, 2]), (1, [0, 2]), (1, []), (1, [1]), (1, [0, 1, 2])):
        w = World(ctx, f"{kind} round {rnd} near {mask}", sizes, parts, ny, lambda what, n, m, at: injections(n, m)[at % len(injections(n, m))], True, False)
        s = w.s
        w.stable = True
        try:
            cls = ctx.w.find_class(kind)
            name = next((n for n in ("_shift_reference_set", "shift_reference_set") if cls.lookup(n)[0] is not None), None)
            if name is None:
                ctx.ob("optimizer without target shifts", kind)
                return
            w.match()
            o = scen.optimizer(s, kind, "full", {"ref": w.o, "N": K(ny)})
            for n, v in (("iter_count", K(rnd)), ("N", K(ny)), ("step", s.param("Z", "array"))):
                s.set(o, n, v)
            if "history_medoids" in s.fields(o):
                s.set(o, "history_medoids", w.dict([w.list([]) for _ in range(ny)]))
            w.mask = mask
            before = w.targets()
            s.take()
            s.method(o, name)
            idx = list(range(ny)) if rnd == 0 else w.mask
            what = f"{kind}: shift in {'the first' if rnd == 0 else 'a later'} iteration" + (f" with the points {mask} at their targets" if rnd else "")
            after = w.targets()
            if before is None or after is None:
                ctx.ob("undetermined shift", what)
                continue
            moved = {}
            ok = True
            for p in range(ny):
                d = vadd(after[p], vmul(-1.0, before[p]))
                if d:
                    moved[p] = d
            ctx.ob("target shift by an optimizer", what, n=ny)
            if sorted(moved) != idx:
                ctx.fail("shift-selection", f"{kind}", f"{what}: the targets {sorted(moved)} move, expected {idx}")
                ok = False
            for p, d in moved.items():
                if len(d) != 1 or next(iter(d))[0] != ("dir" + comp_of(before[p]),) or next(iter(d))[1] <= 0:
                    ctx.fail("shift-direction", f"{kind}", f"{what}: target {p} of component {comp_of(before[p])} moves by {pretty(d)}")
                    ok = False
            hist = s.get(o, "history_medoids")
            c = s.st.heap.get(hist.a[0]) if hist.tag == "ref" else None
            if not ok:
                continue
            if c is None or c.star is not None or c.f is None or not all(is_k(k) for k in c.f):
                ctx.ob("undetermined record", what)
                continue
            rec = {}
            for k, v in c.f.items():
                l = w.I.exact_seq(v, s.st)
                if l is None:
                    rec = None
                    break
                if l:
                    rec[kval(k)] = l
            if rec is None:
                ctx.ob("undetermined record", what)
                continue
            ctx.ob("recorded target", what, n=len(idx))
            if sorted(rec) != idx or any(len(l) != 1 for l in rec.values()):
                ctx.fail("record", f"{kind}", f"{what}: targets {idx} are shifted, recorded are {({k: len(l) for k, l in rec.items()})}")
                continue
            for p, l in rec.items():
                try:
                    v = w.ev(s.val(l[0]))
                except (Undecided, KeyError, IndexError):
                    ctx.ob("undetermined record", what)
                    continue
                if v != after[p]:
                    ctx.fail("record", f"{kind}", f"{what}: recorded for target {p} is {pretty(v) if isinstance(v, frozenset) else 'something else'}, it is {pretty(after[p])}")
        finally:
            w.close()


FIXTURE = """
import numpy as np
from scipy.optimize import linear_sum_assignment
from scipy.spatial.distance import cdist
class ReferenceSet:
    def __init__(self, ref, eta=None):
        self._ref = ref
        self.eta = eta
        self._targets = None
    @property
    def reference_set(self):
        return self._targets if self._targets is not None else self._ref
    def match(self, Y):
        X = self._targets if self._targets is not None else self._ref
        self._targets = X[linear_sum_assignment(COST)[1]]
    def shift(self, c=0.05, indices=None):
        if self._targets is None:
            self._ref = self._ref + c * self.eta[0]
        else:
            for k in range(len(self._targets)) if indices is None else indices:
                self._targets[k] += c * self.eta[EXPR]
"""


def selftest(ctx):
    from ..framework import Ctx

    got = {}
    for name, cost, expr in (("right", "cdist(Y, X)", "0"), ("transposed", "cdist(X, Y)", "0"), ("forgetful", "cdist(Y, self._ref)", "0")):
        c = Ctx(ctx.prop)
        c._w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE.replace("COST", cost).replace("EXPR", expr)})
        setting(c, (0,))
        got[name] = sorted({f.rule for f in c.findings.values()})
    ctx.need(got["right"] == [] and "target-mixed-up" in got["transposed"] and got["forgetful"] != [], f"self-test: {got}")
    ctx.selftests.append("a transposed assignment and an assignment against the unshifted set are reported, the correct matching is not")


def job(ctx, j):
    (setting if j[1] is None else optimizer)(ctx, j)


def run(ctx):
    ctx.rule("the target of a point is the one the assignment pairs with it, from the component its partition is assigned to")
    ctx.rule("a shift moves exactly the chosen targets, each along the direction of its own component, and later matches continue from the moved targets")
    ctx.rule("the optimizers record exactly the targets they shift, with their new position")
    ctx.parallel([(i, None) for i in range(len(SETTINGS))] + [(-1, k) for k in ("DpN", "MMDNewton")], job)
    ctx.need(sum(n for k, n in ctx.counts.items() if "target" in k or "undetermined" in k) >= 20, "no reference set was analysed")
