"""Line searches: bounded, contracting, accepting only on decrease, and applied as tried."""

import math

from .. import entries, models, scen
from ..terms import K, Op, T, Tup, is_k, kval, leaves_of, show, subterms
from . import c12

EXPLANATION = (
    "One iteration of each Newton optimizer is interpreted abstractly with the Newton step, the residual and the step limit as symbols and the "
    "population update and the indicator gradient replaced by recorders, so that the sequence of trial points and the final update appear as "
    "exact terms. The residual norms of the trials range over intervals relative to the current one (unchanged, slightly larger, much larger, "
    "half), for every number of rejected trials, and comparisons are decided by interval arithmetic for the whole range at once. Checked: the "
    "number of trials is bounded, lengths are positive, within the limit and contracting, no trial is accepted unless the residual decreases, "
    "the accepted length is the one applied, to the same direction, and trial residuals come from the trial state only."
)
ASSUMPTIONS = ["residual norms are compared homogeneously (scaling all of them by one factor changes nothing)", "the direction is not numerically zero", "unconstrained residual, one group of points"]

NEWTON = ("HVN", "DpN", "MMDNewton")
INF = math.inf
LIMIT = 40
EPS = ("eps", "resolution", "tiny", "epsneg", "smallest_normal")
PASS = {"norm", "abs", "absolute", "float", "asarray", "array", "float64", "squeeze", "ravel", "copy", "atleast_1d", "atleast_2d", "median", "mean", "max", "min", "amax", "amin", "any", "all", "item", "nanmax", "nanmin", "tile", "broadcast_to", "full_like_"}
SCALES = {"same": (1.0, 1.0), "slightly": (1 + 1e-9, 1 + 1e-8), "much": (1e3, 1e9), "half": (0.4, 0.5)}


class Undecided(Exception):
    pass


def name_of(t):
    f = t.a[1]
    if isinstance(f, T) and f.tag == "ext":
        return f.a[0].split(".")[-1]
    return kval(f) if is_k(f) else None


def union(xs):
    xs = list(xs)
    if not xs:
        raise Undecided
    return (min(x[0] for x in xs), max(x[1] for x in xs))


def times(a, b):
    ps = [0.0 if (x == 0 or y == 0) else x * y for x in a for y in b]
    return (min(ps), max(ps))


def nm(x):
    return x if isinstance(x, str) else kval(x)


class Ev:
    """interval of a term; every array is abstracted by the range of its entries"""

    def __init__(self, sym, over=None):
        self.sym, self.over, self.memo = sym, over or {}, {}

    def __call__(self, t):
        if t in self.over:
            return self.over[t]
        r = self.memo.get(t)
        if r is None:
            r = self.go(t)
            if r[0] != r[0] or r[1] != r[1]:
                r = (-INF, INF)
            self.memo[t] = r
        return r

    def go(self, t):
        if is_k(t):
            v = kval(t)
            if isinstance(v, (bool, int, float)):
                return (float(v), float(v))
            raise Undecided
        if t.tag == "phi":
            return union(self(x) for x in t.a[0])
        if t.tag == "ext":
            n = t.a[0].split(".")[-1]
            if n in ("inf", "infty"):
                return (INF, INF)
            raise Undecided
        if t.tag != "op":
            raise Undecided
        o, a = t.a[0], t.a[1:]
        if o == "sym":
            return self.leaf(kval(a[0]), None)
        if o == "add":
            xs = [self(x) for x in a]
            return (sum(x[0] for x in xs), sum(x[1] for x in xs))
        if o == "mul":
            r = (1.0, 1.0)
            for x in a:
                r = times(r, self(x))
            return r
        if o == "neg":
            x = self(a[0])
            return (-x[1], -x[0])
        if o == "bin":
            return self.binary(nm(a[0]), a[1], a[2])
        if o == "sub":
            b = a[0]
            i = kval(a[1]) if is_k(a[1]) else None
            if b.tag == "op" and b.a[0] == "sym":
                return self.leaf(kval(b.a[1]), i)
            while b.tag == "op" and b.a[0] in ("reshape", "ravel", "astype", "copy", "bcast"):
                b = b.a[1]
            if b.tag == "op" and b.a[0] == "upd" and i is not None:
                return self.stored(b, i)
            return self(b)
        if o == "upd":
            return self.stored(t, self.row)
        if o in ("reshape", "ravel", "astype", "copy", "bcast", "squeeze", "listof", "transpose"):
            return self(a[0])
        if o == "mark":
            return self(a[1])
        if o in ("list", "tuple"):
            return union(self(x) for x in a)
        if o in ("abs", "abs_scalar"):
            return self.absolute(self(a[0]))
        if o in ("float", "num"):
            return self(a[0])
        if o == "len":
            if self.mentions(a[0], "feas"):
                return (0.0, 0.0)
            raise Undecided
        if o == "not":
            b = self.boolean(a[0])
            return (1.0 - b, 1.0 - b)
        if o in ("and", "or", "cmp"):
            b = self.boolean(t)
            return (float(b), float(b))
        if o == "mcall" and is_k(a[0]) and kval(a[0]) in PASS | {"reshape", "ravel", "copy", "astype"} and len(a) > 1:
            return self(a[1])
        if o == "call":
            return self.call(t)
        raise Undecided

    rows = 1
    row = None  # evaluate this row of every array (None: the range over all rows)

    def at(self, row):
        e = Ev(self.sym, self.over)
        e.rows, e.row = self.rows, row
        return e

    @staticmethod
    def stores(t):
        """[(row or None for all rows, stored value)], oldest first"""
        out = []
        while t.tag == "op" and t.a[0] == "upd":
            path, v = t.a[2], t.a[3]
            if not (isinstance(path, T) and path.tag == "tup" or isinstance(path, tuple)):
                raise Undecided
            last = (path.a if isinstance(path, T) else path)[-1]
            i = last.a[1] if isinstance(last, T) and last.tag == "op" and last.a[0] == "idx" else None
            parts = i.a if isinstance(i, T) and i.tag == "tup" else i.a[1:] if isinstance(i, T) and i.tag == "op" and i.a[0] == "tuple" else ()
            flat = [kval(x) if isinstance(x, T) and is_k(x) else None for x in parts]
            if parts and not (None not in flat and flat == sorted(set(flat))):
                i = parts[0]  # row, column; otherwise an array of rows
            if isinstance(i, T) and is_k(i) and isinstance(kval(i), int):
                out.append(((kval(i),), v))
            elif isinstance(i, T) and (i.tag == "tup" or i.tag == "op" and i.a[0] in ("tuple", "list")) and all(is_k(x) for x in (i.a if i.tag == "tup" else i.a[1:])):
                out.append((tuple(kval(x) for x in (i.a if i.tag == "tup" else i.a[1:])), v))
            elif isinstance(i, T) and i.tag == "sl":
                out.append((None, v))
            else:
                raise Undecided
            t = t.a[1]
        return out[::-1], t

    def stored(self, t, i):
        """range of the entries (of row i, or of all rows) of an array after its stores"""
        stores, base = self.stores(t)
        rows = [i] if i is not None else list(range(self.rows))
        got = {}
        for rs, v in stores:
            for r in rows:
                if rs is None or r in rs:
                    got[r] = v
        out = [self(v) for v in got.values()]
        if len(got) < len(rows):
            out.append(self(base))
        return union(out)

    def leaf(self, n, i):
        f = self.sym.get(n)
        if f is None:
            raise Undecided
        return f(i) if callable(f) else f

    @staticmethod
    def mentions(t, n):
        return any(x.tag == "op" and x.a[0] == "sym" and kval(x.a[1]) == n for x in leaves_of(t))

    @staticmethod
    def absolute(x):
        return x if x[0] >= 0 else (-x[1], -x[0]) if x[1] <= 0 else (0.0, max(-x[0], x[1]))

    def binary(self, op, l, r):
        a, b = self(l), self(r)
        if op == "Div":
            if b[0] <= 0 <= b[1]:
                return (-INF, INF)
            return times(a, (1 / b[1] if b[1] else INF, 1 / b[0] if b[0] else INF) if b[0] > 0 else (1 / b[1], 1 / b[0]))
        if op == "Pow":
            if b[0] != b[1]:
                if a[0] == a[1] and a[0] > 0:
                    ps = [a[0] ** b[0], a[0] ** b[1]]
                    return (min(ps), max(ps))
                raise Undecided
            e = b[0]
            if a[0] >= 0:
                if e >= 0:
                    return (a[0] ** e, a[1] ** e)
                return (0.0 if a[1] == INF else a[1] ** e, INF if a[0] == 0 else a[0] ** e)
            if e == 2:
                x = self.absolute(a)
                return (x[0] ** 2, x[1] ** 2)
            return (-INF, INF)
        if op in ("Add",):
            return (a[0] + b[0], a[1] + b[1])
        if op in ("Sub",):
            return (a[0] - b[1], a[1] - b[0])
        if op in ("Mult",):
            return times(a, b)
        raise Undecided

    def call(self, t):
        n, args = name_of(t), [x for x in t.a[2:] if not (isinstance(x, T) and x.tag == "op" and x.a[0] == "kw")]
        kw = {kval(x.a[1]): x.a[2] for x in t.a[2:] if isinstance(x, T) and x.tag == "op" and x.a[0] == "kw"}
        if self.row is not None and n in ("min", "amin", "nanmin", "max", "amax", "nanmax", "mean", "median") and len(args) == 1 and "axis" not in kw:
            xs = [self.at(r)(args[0]) for r in range(self.rows)]
            f = min if "min" in n else max if "max" in n else lambda q: sum(q) / len(q)
            return (f([x[0] for x in xs]), f([x[1] for x in xs]))
        if n in ("ones", "ones_like"):
            return (1.0, 1.0)
        if n in ("zeros", "zeros_like"):
            return (0.0, 0.0)
        if n in ("full", "full_like"):
            return self(args[1] if len(args) > 1 else kw["fill_value"])
        if n == "norm" or n in ("abs", "absolute", "fabs"):
            return self.absolute(self(args[0]))
        if n == "clip":
            lo = args[1] if len(args) > 1 else kw.get("a_min", kw.get("min", kw.get("amin")))
            hi = args[2] if len(args) > 2 else kw.get("a_max", kw.get("max", kw.get("amax")))
            try:
                x = self(args[0])
            except Undecided:
                x = (-INF, INF)
            a = self(lo) if lo is not None and not (is_k(lo) and kval(lo) is None) else (-INF, -INF)
            b = self(hi) if hi is not None and not (is_k(hi) and kval(hi) is None) else (INF, INF)
            return tuple(min(max(x[i], a[i]), b[i]) for i in (0, 1))
        if n in ("minimum", "min", "fmin") and len(args) >= 2 and not (n == "min" and len(args) == 2 and "axis" in kw):
            xs = [self(x) for x in args]
            return (min(x[0] for x in xs), min(x[1] for x in xs))
        if n in ("maximum", "max", "fmax") and len(args) >= 2:
            xs = [self(x) for x in args]
            return (max(x[0] for x in xs), max(x[1] for x in xs))
        if n == "where" and len(args) == 3:
            return union([self(args[1]), self(args[2])])
        if n == "sqrt":
            x = self(args[0])
            return (math.sqrt(max(0.0, x[0])), math.sqrt(max(0.0, x[1])) if x[1] != INF else INF)
        if n == "square":
            x = self.absolute(self(args[0]))
            return (x[0] ** 2, x[1] ** 2)
        if n == "sign":
            x = self(args[0])
            return (1.0, 1.0) if x[0] > 0 else (-1.0, -1.0) if x[1] < 0 else (-1.0, 1.0)
        if n in ("sum", "dot", "inner", "vdot", "prod"):
            x = self(args[0])
            return x if len(args) == 1 else times(x, self(args[1]))
        if n == "isclose" or n == "allclose":
            b = self.boolean(t)
            return (float(b), float(b))
        if n in PASS and args:
            return self(args[0])
        if n in ("nonzero", "flatnonzero", "argwhere") and args:
            return self(args[0])
        raise Undecided

    def boolean(self, t):
        """truth for every value in the ranges; Undecided if it depends"""
        if is_k(t):
            return bool(kval(t))
        if t.tag == "phi":
            r = {self.boolean(x) for x in t.a[0]}
            if len(r) != 1:
                raise Undecided
            return r.pop()
        if t.tag != "op":
            raise Undecided
        o, a = t.a[0], t.a[1:]
        if o == "not" or o == "invert":
            return not self.boolean(a[0])
        if o in ("and", "or"):
            rs = []
            for x in a:
                try:
                    rs.append(self.boolean(x))
                except Undecided:
                    rs.append(None)
            if o == "and":
                if False in rs:
                    return False
                if None not in rs:
                    return True
            else:
                if True in rs:
                    return True
                if None not in rs:
                    return False
            raise Undecided
        if o == "bin" and nm(a[0]) in ("BitAnd", "BitOr"):
            return self.boolean(Op("and" if nm(a[0]) == "BitAnd" else "or", a[1], a[2]))
        if o == "call" and name_of(t) in ("isclose", "allclose"):
            x, y = self.rough(t.a[2]), self.rough(t.a[3])
            if x[0] > y[1] + 1e-3 or y[0] > x[1] + 1e-3:
                return False
            raise Undecided
        if o == "call" and name_of(t) in ("any", "all", "bool", "logical_and", "logical_or", "logical_not", "bool_"):
            n = name_of(t)
            if n in ("logical_and", "logical_or"):
                return self.boolean(Op(n[8:], t.a[2], t.a[3]))
            if n == "logical_not":
                return not self.boolean(t.a[2])
            return self.boolean(t.a[2])
        if o == "cmp":
            x, y = self(a[1]), self(a[2])
            op = nm(a[0])
            if op in ("Lt", "LtE"):
                if x[1] < y[0] or op == "LtE" and x[1] <= y[0]:
                    return True
                if x[0] > y[1] or op == "Lt" and x[0] >= y[1]:
                    return False
            if op in ("Gt", "GtE"):
                return self.boolean(Op("cmp", "Lt" if op == "Gt" else "LtE", a[2], a[1]))
            if op in ("Eq", "NotEq"):
                if x == y and x[0] == x[1]:
                    return op == "Eq"
                if x[1] < y[0] or y[1] < x[0]:
                    return op != "Eq"
            raise Undecided
        x = self(t)
        if x == (0.0, 0.0):
            return False
        if x[0] > 0 or x[1] < 0:
            return True
        raise Undecided

    def rough(self, t):
        if self.machine_eps(t):
            return (0.0, 1e-6)
        return self(t)

    @staticmethod
    def machine_eps(t):
        if t.tag == "extm":
            return t.a[1] in EPS
        return t.tag == "op" and t.a[0] in ("attr", "sub") and any(is_k(x) and kval(x) in EPS for x in t.a[1:])


def direction(t, ev):
    """coefficient of the direction: the length with which the step is added"""
    return ev(t)


def factor(t):
    """the length as a term: the factors next to the direction"""

    def has(x):
        return Ev.mentions(x, "step")

    while t.tag == "op" and t.a[0] == "add":
        xs = [x for x in t.a[1:] if has(x)]
        if len(xs) != 1:
            return None
        t = xs[0]
    if t.tag == "op" and t.a[0] == "mul":
        rest = [x for x in t.a[1:] if not has(x)]
        if len(rest) + 1 != len(t.a) - 1:
            return None
        return rest[0] if len(rest) == 1 else Op("mul", *rest) if rest else K(1)
    return None


class Run:
    """one iteration with a fixed pattern of trial outcomes"""

    def __init__(self, ctx, kind, fails, outcome, rows, failing="much"):
        self.trials, self.final, self.undecided, self.stale, self.looped = [], None, [], [], False
        self.fails, self.outcome, self.failing = fails, outcome, failing
        w = ctx.w
        cls = w.find_class(kind)
        names = entries.indicator_methods(w) | c12.opaque_names(w)
        s = self.s = ctx.session(f"{kind} rows={rows}: {fails} trials {failing} worse, then {outcome}", names)
        I = self.I = w.interp
        o = scen.optimizer(s, kind, "bare", {"verbose": K(False), "N": K(rows)})
        self.live, wr = c12.stub(s, o)
        self.fields = [f for f in sorted(wr) if not f.startswith("n_")]
        if "N" in s.fields(o):
            s.set(o, "N", K(rows))
        step, R, mx = s.param("step", "array"), s.param("R", "array"), s.param("mx", "array")
        self.rows = rows
        self.ev_cond = self.evaluator((1e-4, 1.0))
        stubs = {}
        for f in c12.step_function(ctx, cls):
            for c in cls.mro:
                stubs[f"{getattr(c, 'name', '')}.{f.name}"] = lambda a, k, n, st: Tup((step, R))
        for m in names:
            if m.endswith(".compute_derivatives"):
                stubs[m] = self.residual
        stubs.update(self.extra_stubs(names))
        stubs["State.update"] = stubs["State.update_one"] = self.update
        stubs["State.is_feasible"] = lambda a, k, n, st: I.arr(n, Op("sym", K("feas")), st)
        for c in cls.mro:
            cn = getattr(c, "name", "")
            stubs[f"{cn}._handle_box_constraint"] = lambda a, k, n, st: Tup((step, mx))
            stubs[f"{cn}._compute_max_step_size"] = lambda a, k, n, st: mx
            for q in ("_shift_reference_set", "_check_population", "_compute_indicator_value"):
                stubs[f"{cn}.{q}"] = lambda a, k, n, st: K(None)
        self.prepare(o)
        s.take()
        models.BIG[0] = 10**60  # lengths of late trials are large (shared) terms
        I.stubs, I.oracle, I.unroll_while = stubs, self.oracle, LIMIT
        try:
            s.method(o, scen.step_method(w, cls))
        finally:
            I.stubs, I.oracle, I.unroll_while = {}, None, 0
            models.BIG[0] = 1
        s.take()

    def extra_stubs(self, names):
        return {}

    def prepare(self, o):
        pass

    def on_update(self, st, final):
        pass

    def evaluator(self, mx, over=None, X=0.0):
        sym = {"mx": mx, "step": (1.0, 1.0), "R": self.current, "st.X": (X, X), "feas": (0.0, 0.0)}
        for k in range(1, 200):
            sym[f"trial{k}"] = lambda i, k=k: self.value(k, i)
        e = Ev(sym, over)
        e.rows = self.rows
        return e

    def current(self, i):
        if i is None:
            return (1.0, 1.0)
        return (1.0, 1.0) if i == 0 else (1000.0, 1000.0)

    def value(self, k, i):
        """range of the residual norm of trial k (row i of it)"""
        if k > len(self.trials):
            raise Undecided
        row, nth = self.trials[k - 1]["row"], self.trials[k - 1]["nth"]
        fails = self.fails.get(row, 0) if isinstance(self.fails, dict) else self.fails
        lo, hi = SCALES[self.failing if nth < fails else self.outcome]
        if nth < fails and self.failing == "much":
            # disjoint and growing, so that a comparison with an earlier trial is decided as well
            lo, hi = 1e3 * 100.0**nth, 2e3 * 100.0**nth
        scale = 1000.0 if row == 1 else 1.0
        if i is not None and row is not None and i != row:
            return (1e12, 1e15)
        return (lo * scale, hi * scale)

    def oracle(self, v):
        if not isinstance(v, T):
            return None
        try:
            return self.ev_cond.boolean(v)
        except (Undecided, OverflowError, ZeroDivisionError, KeyError, ValueError):
            pass
        if any(x.tag == "op" and x.a[0] == "sym" and str(kval(x.a[1])).startswith("trial") and "." not in kval(x.a[1]) for x in leaves_of(v)) and not (v.tag == "op" and v.a[0] == "call" and name_of(v) in ("isnan", "isfinite", "isinf", "isreal")):
            if v not in self.undecided:
                self.undecided.append(v)
        return None

    def update(self, a, k, n, st):
        I = self.I
        vals = [I.val(x, st) for x in list(a)[1:]] + [I.val(k[q], st) for q in k]
        recv = a[0]
        self.on_update(st, recv.tag == "ref" and recv.a[0] is self.live.a[0])
        if recv.tag == "ref" and recv.a[0] is self.live.a[0]:
            self.final = (vals[0], I.loopdepth)
            return K(None)
        row = kval(vals[1]) if len(vals) > 1 and is_k(vals[1]) else None
        nth = sum(1 for t in self.trials if t["row"] == row)
        self.trials.append({"row": row, "nth": nth, "x": vals[0], "state": recv, "residual": False})
        self.looped |= I.loopdepth > 0
        t = len(self.trials)
        self.ev_cond = self.evaluator((1e-4, 1.0))
        for f in self.fields:
            I.setattr_(recv, f, I.arr(n, Op("sym", K(f"trial{t}.{f}")), st), n, st, self.s.fr)
        return K(None)

    def residual(self, a, k, n, st):
        I = self.I
        t = len(self.trials)
        syms = set()
        for x in list(a)[1:] + [k[q] for q in sorted(k)]:
            for y in leaves_of(I.val(x, st)):
                if y.tag == "op" and y.a[0] == "sym":
                    syms.add(str(kval(y.a[1])))
        old = sorted(x for x in syms if x.startswith("st.") or x.startswith("trial") and "." in x and x.split(".")[0] != f"trial{t}")
        if t:
            self.trials[t - 1]["residual"] = True
            if old:
                self.stale.append((t, old))
        return I.arr(n, Op("sym", K(f"trial{t}")), st)


def lengths(run, mx, over=None):
    out = []
    for t in run.trials:
        try:
            out.append(run.evaluator(mx, over)(t["x"]))
        except (Undecided, OverflowError, ZeroDivisionError, KeyError, ValueError):
            out.append(None)
    return out


def anchored(ctx, kind, r):
    """trial and final coefficient of the current point is one"""
    for what, x in [("trial", t["x"]) for t in r.trials[:2]] + ([("update", r.final[0])] if r.final else []):
        try:
            one = r.evaluator((1.0, 1.0), X=1.0)(x)
            zero = r.evaluator((1.0, 1.0), X=0.0)(x)
        except (Undecided, OverflowError, ZeroDivisionError, KeyError, ValueError):
            continue
        ctx.ob("point displaced from the current one", f"{kind} {what}")
        if max(abs(one[0] - zero[0] - 1), abs(one[1] - zero[1] - 1)) > 1e-9:
            ctx.fail("displacement", f"{kind}:{what}", f"the {what} point is not the current point plus a multiple of the step", where=kind)


def job(ctx, j):
    kind, rows = j
    where = kind
    full = Run(ctx, kind, LIMIT, "half", rows)
    ctx.ob("iteration with every trial rejected", f"{kind} rows={rows}: {len(full.trials)} trials")
    if full.trials and full.undecided and not full.looped:
        # an unlimited length makes everything after it undecidable: the trials before that are exact
        first = min(max((int(n[5:]) for n in (str(kval(x.a[1])) for x in leaves_of(u)) if n.startswith("trial") and n[5:].isdigit()), default=1) for u in full.undecided)
        ls = lengths(full, (1.0, 1.0))
        for i, t in enumerate(full.trials[:first]):
            if ls[i] is None:
                continue
            ctx.ob("trial length", f"{kind} row {t['row']} trial {t['nth']}: [{ls[i][0]:.4g}, {ls[i][1]:.4g}] of the limit")
            if not ls[i][0] > 0:
                ctx.fail("length-not-positive", kind, f"trial {t['nth']} may have the length {ls[i][0]:.3g}", where=where)
            if ls[i][1] > 1 + 1e-9:
                ctx.fail("length-exceeds-limit", kind, f"trial {t['nth']} may have the length {ls[i][1]:.3g} times the limit", where=where)
    if not full.trials or full.undecided:
        ctx.ob("line search not decided", f"{kind} rows={rows}: {show(full.undecided[0], 80) if full.undecided else 'no trial point found'}")
        return
    per = max(t["nth"] for t in full.trials) + 1
    if full.looped:
        if per >= LIMIT:
            ctx.fail("unbounded", kind, f"after {LIMIT} rejected trials the line search is still trying: nothing bounds their number", where=where)
        else:
            ctx.ob("line search not decided", f"{kind} rows={rows}: trials inside a loop that does not unroll")
        return
    ctx.ob("bounded number of trials", f"{kind}: {per}")
    anchored(ctx, kind, full)
    if per < 2:
        ctx.fail("no-backtracking", kind, "a rejected first trial is not followed by a shorter one", where=where)
        return
    for t, old in full.stale:
        ctx.fail("stale-residual", kind, f"the residual of trial {t} is computed from {old}, not from the trial point", where=where)
    for t in full.trials:
        ctx.ob("trial residual evaluated")
        if not t["residual"]:
            ctx.fail("residual-not-evaluated", kind, "a trial point is compared without evaluating its residual", where=where)
    # lengths
    one, quarter = lengths(full, (1.0, 1.0)), lengths(full, (0.25, 0.25))
    prev = None
    for i, t in enumerate(full.trials):
        a, b = one[i], quarter[i]
        if a is None or b is None:
            ctx.ob("length not decided", f"{kind} trial {t['nth']}: {show(t['x'], 100)}")
            continue
        ctx.ob("trial length", f"{kind} row {t['row']} trial {t['nth']}: [{a[0]:.4g}, {a[1]:.4g}] of the limit")
        if not a[0] > 0:
            ctx.fail("length-not-positive", kind, f"trial {t['nth']} may have the length {a[0]:.3g}", where=where)
        if a[1] > 1 + 1e-9 or b[1] > 0.25 + 1e-9:
            ctx.fail("length-exceeds-limit", kind, f"trial {t['nth']} may have the length {max(a[1], 4 * b[1]):.3g} times the limit", where=where)
        if t["nth"]:
            p = full.trials[i - 1]
            f = factor(p["x"])
            rel = None
            if f is not None:
                try:
                    rel = full.evaluator((1.0, 1.0), {f: (1.0, 1.0)})(t["x"])
                except (Undecided, OverflowError, ZeroDivisionError, KeyError, ValueError):
                    rel = None
            ok = one[i - 1] is not None and a[1] < one[i - 1][0] or rel is not None and rel[1] < 1 and one[i - 1] is not None and one[i - 1][0] * 0 == 0
            ctx.ob("contraction between trials")
            if not ok and one[i - 1] is not None:
                ctx.fail("not-contracting", kind, f"trial {t['nth']} has a length in [{a[0]:.3g}, {a[1]:.3g}] after one in [{one[i - 1][0]:.3g}, {one[i - 1][1]:.3g}]", where=where)
    final(ctx, kind, full, one[-1], where, exact=False)
    if rows == 2 and None not in {t["row"] for t in full.trials}:
        own_lengths(ctx, kind, rows, where)
    # a residual that does not decrease is never accepted, whatever the earlier ones were
    for fail, out in (("slightly", "slightly"), ("same", "same"), ("much", "slightly"), ("much", "same")):
        for n in range(per if fail == "much" else 1):
            r = Run(ctx, kind, n if fail == "much" else 0, out, rows, fail)
            if r.undecided:
                ctx.ob("acceptance not decided", f"{kind}: {show(r.undecided[0], 100)}")
                continue
            got = {row: max(t["nth"] for t in r.trials if t["row"] == row) + 1 for row in {t["row"] for t in r.trials}}
            ctx.ob("residual without decrease", f"{kind} rows={rows}: {n} much worse, then {out} -> {sorted(got.values())} trials")
            if any(g < per for g in got.values()):
                ctx.fail("accepts-increase", kind, f"a trial whose residual norm is {'the same as' if out == 'same' else 'larger than'} the current one is accepted after {n} worse ones", where=where)
    # a decrease by half is accepted at once and applied as tried
    for n in range(per):
        r = Run(ctx, kind, n, "half", rows)
        if r.undecided:
            ctx.ob("acceptance not decided", f"{kind}: {show(r.undecided[0], 100)}")
            continue
        got = {row: max(t["nth"] for t in r.trials if t["row"] == row) + 1 for row in {t["row"] for t in r.trials}}
        ctx.ob("residual decreased by half", f"{kind} rows={rows}: after {n} rejected -> {sorted(got.values())} trials")
        if any(g != n + 1 for g in got.values()):
            ctx.fail("rejects-decrease", kind, f"a trial that halves the current residual is not accepted (after {n} worse ones, {sorted(got.values())} trials were made)", where=where)
            continue
        ls = lengths(r, (1.0, 1.0))
        last = [x for x, t in zip(ls, r.trials) if t["nth"] == n]
        if None not in last and last:
            final(ctx, kind, r, union(last), where, exact=True)


def own_lengths(ctx, kind, rows, where):
    """points that accept after different numbers of trials: each moves by the length it accepted"""
    for pattern in ({0: 0, 1: 2}, {0: 2, 1: 0}, {0: 1, 1: 3}):
        r = Run(ctx, kind, pattern, "half", rows)
        if r.undecided or r.looped or r.final is None or r.final[1] or {t["row"] for t in r.trials} != set(range(rows)):
            ctx.ob("own length not decided", f"{kind}: {pattern}")
            continue
        ls = lengths(r, (1.0, 1.0))
        for row in range(rows):
            mine = [l for l, t in zip(ls, r.trials) if t["row"] == row]
            if None in mine:
                ctx.ob("own length not decided", f"{kind}: {pattern}")
                continue
            try:
                a = r.evaluator((1.0, 1.0)).at(row)(r.final[0])
            except (Undecided, OverflowError, ZeroDivisionError, KeyError, ValueError):
                ctx.ob("own length not decided", f"{kind}: {pattern}: {show(r.final[0], 80)}")
                continue
            want = mine[-1]
            ctx.ob("length of a point's own update", f"{kind} {pattern} row {row}: [{a[0]:.4g}, {a[1]:.4g}]")
            if a[1] < want[0] - 1e-9 or a[0] > want[1] + 1e-9:
                ctx.fail("applied-length", kind, f"when the points accept after {pattern} rejected trials, point {row} accepts a length in [{want[0]:.4g}, {want[1]:.4g}] but is moved by one in [{a[0]:.4g}, {a[1]:.4g}]", where=where)


def final(ctx, kind, r, last, where, exact):
    if r.final is None or r.final[1]:
        ctx.ob("update not decided", kind)
        return
    try:
        a = r.evaluator((1.0, 1.0))(r.final[0])
    except (Undecided, OverflowError, ZeroDivisionError, KeyError, ValueError):
        ctx.ob("update not decided", f"{kind}: {show(r.final[0], 120)}")
        return
    if last is None:
        return
    ctx.ob("length of the update compared with the accepted trial", f"{kind}: [{a[0]:.4g}, {a[1]:.4g}]")
    if exact and (abs(a[0] - last[0]) > 1e-9 or abs(a[1] - last[1]) > 1e-9):
        ctx.fail("applied-length", kind, f"the accepted trial has a length in [{last[0]:.4g}, {last[1]:.4g}] but the update uses [{a[0]:.4g}, {a[1]:.4g}]", where=where)
    if not exact and not (0 < a[0] and a[1] <= last[1] + 1e-9):
        ctx.fail("applied-length", kind, f"after rejected trials down to [{last[0]:.4g}, {last[1]:.4g}] the update uses a length in [{a[0]:.4g}, {a[1]:.4g}]", where=where)


def run(ctx):
    ctx.rule("a line search makes a bounded number of trials with positive, contracting lengths within the limit")
    ctx.rule("a trial is accepted exactly when its residual decreases sufficiently; the accepted length is applied")
    jobs = [(k, n) for k in NEWTON for n in (1, 2)]
    ctx.parallel(jobs, job)
