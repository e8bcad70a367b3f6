"""The optimizers start inside the box: given points are clipped, sampled points cover it, probes stay in it."""

import math

from .. import scen
from ..terms import K, Op, T, Tup, is_k, kval, show

EXPLANATION = (
    "The constructors of all optimizers are interpreted with numeric bounds (per variable, as a number, as a one-element list) and with or without a starting "
    "population, with constraints. The decision part of the first population and every argument the caller's functions receive are evaluated as terms over intervals, "
    "separately for each variable. Compared: with the box; for given points with the nearest point of the box on the boundary and with the point itself inside; for "
    "sampled points with the whole range of each variable."
)
ASSUMPTIONS = [
    "random numbers of the uniform generators lie in their documented ranges",
    "rounding errors of a few units in the last place are ignored",
    "terms outside the evaluated operators are counted as undetermined and not reported",
]

INF = math.inf
DIM = 3
BOXES = {
    "per variable": ([-3.0, 0.0, 2.0], [-1.0, 1.0, 7.0]),
    "negative": ([-9.0, -5.0, -2.0], [-8.0, -1.0, -1.5]),
    "a number": (-2.0, 3.0),
    "one element": ([0.0], [4.0]),
    "integers": ([-1, 0, 5], [2, 1, 9]),
}
UNBOUNDED = {"randn", "normal", "standard_normal", "exponential", "standard_exponential", "laplace", "logistic", "gumbel", "standard_cauchy", "lognormal"}
UNIT = {"rand", "random", "random_sample", "ranf", "sample"}


SHAPE = Op("attr", Op("sym", K("X0")), K("shape"))


class Undecided(Exception):
    pass


class Vec:
    """array whose last axis runs over the variables; every other axis is abstracted"""

    def __init__(self, xs, nd):
        self.xs, self.nd = [tuple(map(float, x)) for x in xs], nd

    def __eq__(self, o):
        return isinstance(o, Vec) and self.xs == o.xs

    def __hash__(self):
        return hash(tuple(self.xs))


def lift(f, *vs):
    vec = [v for v in vs if isinstance(v, Vec)]
    if not vec:
        return f(*vs)
    n = max(len(v.xs) for v in vec)
    if any(len(v.xs) not in (n, 1) for v in vec):
        raise Undecided
    get = lambda v, i: v if not isinstance(v, Vec) else v.xs[i if len(v.xs) == n else 0]
    return Vec([f(*[get(v, i) for v in vs]) for i in range(n)], max(v.nd for v in vec))


def times(a, b):
    ps = [0.0 if (x == 0 or y == 0) else x * y for x in a for y in b]
    return (min(ps), max(ps))


ADD = lambda a, b: (a[0] + b[0], a[1] + b[1])
NEG = lambda a: (-a[1], -a[0])
MIN = lambda a, b: (min(a[0], b[0]), min(a[1], b[1]))
MAX = lambda a, b: (max(a[0], b[0]), max(a[1], b[1]))
ABS = lambda a: a if a[0] >= 0 else NEG(a) if a[1] <= 0 else (0.0, max(-a[0], a[1]))


def divide(a, b):
    if b[0] <= 0 <= b[1]:
        raise Undecided
    return times(a, (1 / b[1], 1 / b[0]))


def power(a, b):
    if b[0] != b[1] or a[0] < 0:
        raise Undecided
    xs = [a[0] ** b[0] if a[0] or b[0] > 0 else INF, a[1] ** b[0]]
    return (min(xs), max(xs))


def nm(x):
    return x if isinstance(x, str) else kval(x)


NOT = lambda a: (1 - a[1], 1 - a[0])


def less(a, b):
    return (1.0, 1.0) if a[1] < b[0] else (0.0, 0.0) if a[0] >= b[1] else (0.0, 1.0)


def less_eq(a, b):
    return NOT(less(b, a))


def same(a, b):
    return (0.0, 0.0) if a[1] < b[0] or b[1] < a[0] else (1.0, 1.0) if a[0] == a[1] == b[0] == b[1] else (0.0, 1.0)


def choose(c, a, b):
    return a if c[0] > 0 else b if c[1] == 0 else (min(a[0], b[0]), max(a[1], b[1]))


CMP = {"Lt": less, "LtE": less_eq, "Gt": lambda a, b: less(b, a), "GtE": lambda a, b: less_eq(b, a), "Eq": same, "NotEq": lambda a, b: NOT(same(a, b))}
BOOLFN = {"logical_and": MIN, "logical_or": MAX, "bitwise_and": MIN, "bitwise_or": MAX, "less": less, "less_equal": less_eq, "greater": CMP["Gt"], "greater_equal": CMP["GtE"]}
BIN = {"BitOr": MAX, "BitAnd": MIN, "Div": divide, "Pow": power, "Add": ADD, "Mult": times, "Sub": lambda a, b: ADD(a, NEG(b))}
SAME = {"asarray", "array", "ascontiguousarray", "asanyarray", "copy", "float64", "atleast_2d", "atleast_1d", "nan_to_num", "squeeze", "ravel"}


class Terms:
    """value of a term for given ranges of the starting points and of the uniform random numbers"""

    def __init__(self, x0, unit):
        self.x0, self.unit, self.memo = x0, unit, {}

    def __call__(self, t):
        if t not in self.memo:
            self.memo[t] = self.go(t)
        return self.memo[t]

    def seq(self, items):
        vs = [self(x) for x in items]
        if any(isinstance(v, Vec) for v in vs):
            # rows
            if all(isinstance(v, Vec) for v in vs) and len({len(v.xs) for v in vs}) == 1:
                return Vec([(min(v.xs[i][0] for v in vs), max(v.xs[i][1] for v in vs)) for i in range(len(vs[0].xs))], 2)
            raise Undecided
        return Vec(vs, 1)

    def go(self, t):
        if is_k(t):
            v = kval(t)
            if isinstance(v, (int, float)):
                return (float(v), float(v))
            raise Undecided
        if t.tag == "tup":
            return self.seq(t.a)
        if t.tag == "phi":
            vs = [self(x) for x in t.a[0]]
            if all(v == vs[0] for v in vs):
                return vs[0]
            return lift(lambda *xs: (min(x[0] for x in xs), max(x[1] for x in xs)), *vs)
        if t.tag != "op":
            raise Undecided
        o, a = t.a[0], t.a[1:]
        if o == "sym":
            if kval(a[0]) == "X0" and self.x0 is not None:
                return self.x0
            raise Undecided
        if o in ("list", "tuple"):
            return self.seq(a)
        if o == "add":
            r = self(a[0])
            for x in a[1:]:
                r = lift(ADD, r, self(x))
            return r
        if o == "mul":
            r = self(a[0])
            for x in a[1:]:
                r = lift(times, r, self(x))
            return r
        if o == "neg":
            return lift(NEG, self(a[0]))
        if o == "abs":
            return lift(ABS, self(a[0]))
        if o == "bin":
            f = BIN.get(nm(a[0]))
            if f is None:
                raise Undecided
            return lift(f, self(a[1]), self(a[2]))
        if o == "cmp" and nm(a[0]) in CMP:
            return lift(CMP[nm(a[0])], self(a[1]), self(a[2]))
        if o in ("not", "invert"):
            return lift(NOT, self(a[0]))
        if o == "ite" and len(a) == 3:
            return lift(choose, self(a[0]), self(a[1]), self(a[2]))
        if o in ("min", "max") and len(a) > 1:
            r = self(a[0])
            for x in a[1:]:
                r = lift(MIN if o == "min" else MAX, r, self(x))
            return r
        if o == "upd" and len(a) == 3:
            return self.update(a[0], a[1], a[2])
        if o in ("astype", "copy", "bcast", "asarray"):
            return self(a[0])
        if o == "rng":
            return self.random(nm(a[0]).split(".")[-1], a[2:])
        if o == "sub":
            return self.select(a[0], a[1])
        if o == "mcall" and is_k(a[0]) and len(a) > 1 and a[1].tag == "op" and a[1].a[0] == "rng":
            return self.random(kval(a[0]), a[2:])
        if o == "listof" and len(a) == 1:
            v = self(a[0])
            if isinstance(v, Vec) and v.nd == 1:
                return Vec(v.xs, 2)
            raise Undecided
        if o == "mcall" and is_k(a[0]) and kval(a[0]) in SAME | {"astype"} and len(a) > 1:
            return self(a[1])
        if o == "call" and a[0].tag == "ext":
            return self.call(a[0].a[0].split(".")[-1], a[1:])
        raise Undecided

    def last_dim(self, args):
        """(size of the last axis, number of axes) asked of a generator"""
        dims = []
        for x in args:
            if x.tag in ("tup",):
                dims += list(x.a)
            elif x.tag == "op" and x.a[0] in ("tuple", "list"):
                dims += list(x.a[1:])
            elif x.tag == "op" and x.a[0] == "kw":
                continue
            elif x.tag == "op" and x.a[0] in ("star", "attr") and self.x0 is not None and x in (SHAPE, Op("star", SHAPE)):
                dims += [K(2), K(DIM)]
            else:
                dims.append(x)
        if not dims:
            return None, 0
        n = kval(dims[-1]) if is_k(dims[-1]) else None
        return n, len(dims)

    def random(self, n, a):
        kw = {kval(x.a[1]): x.a[2] for x in a if x.tag == "op" and x.a[0] == "kw"}
        args = [x for x in a if not (x.tag == "op" and x.a[0] == "kw")]
        if n in UNIT:
            if "size" in kw:
                args = [kw["size"]]
            d, nd = self.last_dim(args)
            if d is None and nd:
                raise Undecided
            return Vec([self.unit] * d, nd) if nd else self.unit
        if n == "uniform":
            lo = args[0] if args else kw.get("low", K(0.0))
            hi = args[1] if len(args) > 1 else kw.get("high", K(1.0))
            size = args[2] if len(args) > 2 else kw.get("size")
            d, nd = self.last_dim([size] if size is not None else [])
            l, h = self(lo), self(hi)
            u = Vec([self.unit] * d, nd) if d else self.unit
            f = lambda x, y, r: tuple(sorted(x[0] + q * (y[0] - x[0]) for q in r)) if (x[0], y[0]) == (x[1], y[1]) else (x[0], y[1])
            return lift(f, l, h, u)
        if n in UNBOUNDED:
            size = kw.get("size")
            if size is None:
                size = Tup(args) if n in ("randn", "standard_normal", "standard_exponential", "standard_cauchy") else args[2] if len(args) > 2 else None
            d, nd = self.last_dim([size] if size is not None else [])
            r = (0.0 if "exponential" in n else -1e9, 1e9)  # stands for everything
            if self.unit[0] == self.unit[1]:
                r = (r[0] + self.unit[0] * (r[1] - r[0]),) * 2
            return Vec([r] * d, nd) if d else r
        raise Undecided

    def select(self, b, i):
        v = self(b)
        parts = list(i.a) if i.tag == "tup" else list(i.a[1:]) if i.tag == "op" and i.a[0] == "tuple" else [i]
        if not isinstance(v, Vec):
            raise Undecided
        if v.nd >= 2:
            if len(parts) == 1 and parts[0].tag == "op" and parts[0].a[0] in ("anyrow", "row", "range_elem", "enum_idx"):
                return Vec(v.xs, v.nd - 1)
            if len(parts) == 1:
                return Vec(v.xs, v.nd if parts[0].tag == "sl" or not is_k(parts[0]) else v.nd - 1)
            if len(parts) == 2:
                rows, parts = parts[0], parts[1:]
                return self.pick(v, parts[0], 0 if rows.tag == "sl" else 1)
            raise Undecided
        return self.pick(v, parts[0], 0)

    def update(self, base, path, value):
        """store into a matrix: the whole of a column, or its rows chosen by a mask"""
        v, new = self(base), self(value)
        if not isinstance(v, Vec) or v.nd != 2 or len(path.a) != 1:
            raise Undecided
        i = path.a[0]
        i = i.a[1] if i.tag == "op" and i.a[0] in ("idx", "idx?") else i
        parts = list(i.a) if i.tag == "tup" else list(i.a[1:]) if i.tag == "op" and i.a[0] == "tuple" else [i]
        if len(parts) == 1 and not (is_k(parts[0]) or parts[0].tag == "sl"):
            mask = self.mask(parts[0])  # matrix of booleans
            if not isinstance(mask, Vec) or len(mask.xs) != len(v.xs):
                raise Undecided
            return lift(choose, mask, new if isinstance(new, tuple) or len(new.xs) == 1 else self.none(), v)
        if len(parts) != 2:
            raise Undecided
        if parts[1].tag == "sl" and any(not is_k(x) for x in parts[1].a) or not (parts[1].tag == "sl" or is_k(parts[1]) and isinstance(kval(parts[1]), int)):
            raise Undecided
        cols = list(range(len(v.xs)))
        cols = cols[slice(*[kval(x) for x in parts[1].a])] if parts[1].tag == "sl" else [cols[kval(parts[1])]]
        rows = (1.0, 1.0) if parts[0].tag == "sl" and all(is_k(x) and kval(x) is None for x in parts[0].a) else self.mask(parts[0])
        if isinstance(rows, Vec):
            if len(rows.xs) != 1 or len(cols) != 1:
                raise Undecided
            rows = rows.xs[0]
        xs = list(v.xs)
        for k, c in enumerate(cols):
            x = new if isinstance(new, tuple) else new.xs[k if len(new.xs) == len(cols) else self.none()]
            xs[c] = choose(rows, x, xs[c])
        return Vec(xs, 2)

    def none(self):
        raise Undecided

    def mask(self, t):
        """a value that can only be a mask, not row numbers"""
        if t.tag == "op" and (t.a[0] in ("cmp", "not", "invert") or t.a[0] == "bin" and nm(t.a[1]) in ("BitOr", "BitAnd") or t.a[0] == "call" and t.a[1].tag == "ext" and t.a[1].a[0].split(".")[-1] in set(BOOLFN) | {"logical_not"}):
            return self(t)
        raise Undecided

    def pick(self, v, i, less):
        if i.tag == "sl":
            b = [None if x is None or is_k(x) and kval(x) is None else kval(x) if is_k(x) else "?" for x in i.a]
            if "?" in b:
                raise Undecided
            return Vec(v.xs[slice(*b)], v.nd - less)
        if is_k(i) and isinstance(kval(i), int) and not isinstance(kval(i), bool):
            x = v.xs[kval(i)]
            return x if v.nd - less <= 1 else Vec([x], v.nd - 1)
        raise Undecided

    def call(self, n, a):
        kw = {kval(x.a[1]): x.a[2] for x in a if isinstance(x, T) and x.tag == "op" and x.a[0] == "kw"}
        args = [x for x in a if not (isinstance(x, T) and x.tag == "op" and x.a[0] == "kw")]
        if n == "clip":
            lo = args[1] if len(args) > 1 else kw.get("a_min", kw.get("min"))
            hi = args[2] if len(args) > 2 else kw.get("a_max", kw.get("max"))
            r = self(args[0])
            if lo is not None and not (is_k(lo) and kval(lo) is None):
                r = lift(MAX, r, self(lo))
            if hi is not None and not (is_k(hi) and kval(hi) is None):
                r = lift(MIN, r, self(hi))
            return r
        if n in ("minimum", "fmin"):
            return lift(MIN, self(args[0]), self(args[1]))
        if n in ("maximum", "fmax"):
            return lift(MAX, self(args[0]), self(args[1]))
        if n in BOOLFN:
            return lift(BOOLFN[n], self(args[0]), self(args[1]))
        if n in ("logical_not", "invert"):
            return lift(NOT, self(args[0]))
        if n == "where" and len(args) == 3:
            return lift(choose, self(args[0]), self(args[1]), self(args[2]))
        if n == "sort" and len(args) == 1 and not kw:
            v = self(args[0])
            if isinstance(v, Vec) and v.nd == 1 and all(x[0] == x[1] for x in v.xs):
                return Vec(sorted(v.xs), 1)
            raise Undecided
        if n in ("abs", "absolute", "fabs"):
            return lift(ABS, self(args[0]))
        if n in ("add", "subtract", "multiply", "divide", "true_divide", "power"):
            f = {"add": ADD, "subtract": BIN["Sub"], "multiply": times, "divide": divide, "true_divide": divide, "power": power}[n]
            return lift(f, self(args[0]), self(args[1]))
        if n in ("c_", "column_stack", "hstack", "concatenate"):
            items = args[0].a if args[0].tag == "tup" else args[0].a[1:] if args[0].tag == "op" and args[0].a[0] in ("tuple", "list") else ()
            if n == "concatenate" and not ("axis" in kw and is_k(kw["axis"]) and kval(kw["axis"]) in (1, -1)):
                raise Undecided
            out = []
            for x in items:
                try:
                    v = self(x)
                except Undecided:
                    if not out:
                        raise
                    break  # columns after this one are not known, those before are
                if not isinstance(v, Vec) or v.nd != 2 and len(items) > 1:
                    if not out:
                        raise Undecided
                    break
                out += v.xs
            return Vec(out, 2)
        if n in ("full", "full_like", "ones", "zeros", "ones_like", "zeros_like"):
            if n.startswith("full"):
                return self(args[1] if len(args) > 1 else kw["fill_value"])
            return (1.0, 1.0) if n.startswith("ones") else (0.0, 0.0)
        if n in ("tile", "repeat", "broadcast_to") and n != "repeat":
            return self(args[0])
        if n in ("amin", "amax", "min", "max", "ptp") and len(args) == 1 and not kw:
            v = self(args[0])
            if isinstance(v, Vec):
                f = min if n.endswith("min") else max
                return (f(x[0] for x in v.xs), f(x[1] for x in v.xs))
            raise Undecided
        if n in SAME and args:
            return self(args[0])
        raise Undecided


def vec(b):
    return [float(b)] * DIM if not isinstance(b, list) else [float(x) for x in b] * (DIM if len(b) == 1 else 1)


def term(b):
    return K(b) if not isinstance(b, list) else Tup([K(x) for x in b])


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def evaluate(t, x0, unit):
    try:
        v = Terms(x0, unit)(t)
    except (Undecided, IndexError, OverflowError, KeyError):
        return None
    if not isinstance(v, Vec) or len(v.xs) < DIM:
        return None
    v = v.xs[:DIM]
    return None if any(x != x for p in v for x in p) else v


def hull(t, x0, lo, hi):
    """(range of each variable, exact?) over all random numbers and all starting points"""
    anything = Vec([(-INF, INF)] * DIM, 2) if x0 else None
    full = evaluate(t, anything, (0.0, 1.0))
    if full is not None and all(lo[i] - 1e-9 <= p[0] and p[1] <= hi[i] + 1e-9 for i, p in enumerate(full)):
        return full, True
    pts = []
    for r in (0.0, 1.0):
        for x in ([lambda i: lo[i] - 5.0, lambda i: hi[i] + 5.0, lambda i: (lo[i] + hi[i]) / 2] if x0 else [None]):
            v = evaluate(t, Vec([(x(i), x(i)) for i in range(DIM)], 2) if x else None, (r, r))
            if v is not None and all(p[0] == p[1] for p in v):
                pts.append(v)
    if not pts:
        return None, False
    return [(min(v[i][0] for v in pts), max(v[i][1] for v in pts)) for i in range(DIM)], False


def primal(s, o):
    """the decision variables of the optimizer's first population"""
    for name, v in s.fields(o).items():
        if v.tag == "ref" and v.a[0].cls is not None and v.a[0].cls.lookup("primal")[0] is not None:
            return s.val(s.get(v, "primal"))
    return None


def job(ctx, j):
    kind, box, start = j
    lb, ub = BOXES[box]
    lo, hi = vec(lb), vec(ub)
    s = ctx.session(f"{kind} {box} {'given start' if start else 'sampled start'}")
    cls = ctx.w.find_class(kind)
    names = [p.arg for p in scen.params_of(scen.ctor_of(cls))]
    over = {n: K(DIM) for n in names if n in ("dim", "n_var", "n_dim", "dim_p")}
    over.update({"xl": term(lb), "xu": term(ub)})
    x0 = [n for n in names if n.lower() == "x0"]
    if not x0:
        ctx.ob("optimizer without a starting population", kind)
        return
    if start:
        over[x0[0]] = s.param("X0", "array")
    else:
        over[x0[0]] = K(None)
        over["N"] = K(5)
    s.take()
    o = scen.optimizer(s, kind, "full", {k: v for k, v in over.items() if k in names})
    ev = s.take()
    X = primal(s, o)
    judge(ctx, X, f"{kind}: first population ({'given' if start else 'sampled'}, bounds {box})", kind, start, lo, hi, first=True)
    for e in ev:
        if e.kind == "callback" and not str(e.label).startswith("getattr") and e.argvals:
            judge(ctx, e.argvals[0], f"{kind}: argument of the caller's `{e.label}` while the optimizer is built (bounds {box})", kind, start, lo, hi, e=e)
    for name, want in (("xl", lo), ("xu", hi)):
        v = evaluate(s.val(s.get(o, name)), None, (0.0, 1.0))
        if v is None:
            ctx.ob("undetermined bound", f"{kind}.{name}")
            continue
        ctx.ob("bound in effect", f"{kind}.{name} {box}")
        if v != [(x, x) for x in want]:
            ctx.fail("bound", f"{kind}.{name}", f"bounds given as {box}: `{name}` is {[p[0] for p in v]}, expected {want}")


def judge(ctx, t, what, kind, start, lo, hi, first=False, e=None):
    if t is None:
        ctx.ob("undetermined points", what)
        return
    v, exact = hull(t, start, lo, hi)
    if v is None:
        ctx.ob("undetermined points", f"{what}: {show(t, 80)}")
        return
    ctx.ob("points inside the box", what)
    for i, (a, b) in enumerate(v):
        if a < lo[i] - 1e-9 or b > hi[i] + 1e-9:
            rule = "start-outside" if first else "probe-outside"
            ctx.fail(rule, f"{kind}:{'given' if start and first else 'sampled' if first else e.label}",
                     f"{what}: variable {i} reaches [{a:g}, {b:g}], its range is [{lo[i]:g}, {hi[i]:g}]", e)
            return
    if not first:
        return
    if not start:
        ends = [evaluate(t, None, (r, r)) for r in (0.0, 1.0)]
        if any(x is None for x in ends):
            ctx.ob("undetermined points", what)
            return
        ctx.ob("range of a variable covered by sampling", what, n=DIM)
        for i in range(DIM):
            a, b = sorted(x[i][0] for x in ends)
            if not (close(a, lo[i]) and close(b, hi[i])):
                ctx.fail("start-range", f"{kind}:sampled", f"{what}: variable {i} is drawn from [{a:g}, {b:g}], its range is [{lo[i]:g}, {hi[i]:g}]")
                return
        return
    width = [hi[i] - lo[i] for i in range(DIM)]
    cases = {
        "below the box": ([lo[i] - 3 for i in range(DIM)], lo),
        "above the box": ([hi[i] + 3 for i in range(DIM)], hi),
        "inside near the lower bound": ([lo[i] + 0.001 * width[i] for i in range(DIM)],) * 2,
        "inside": ([lo[i] + 0.7 * width[i] for i in range(DIM)],) * 2,
        "on the upper bound": (hi, hi),
        "on the lower bound": (lo, lo),
        "one variable outside": ([lo[0] - 1, lo[1] + 0.25 * width[1], hi[2] + 2], [lo[0], lo[1] + 0.25 * width[1], hi[2]]),
    }
    for c, (x, want) in cases.items():
        v = evaluate(t, Vec([(p, p) for p in x], 2), (0.5, 0.5))
        if v is None:
            ctx.ob("undetermined points", f"{what} {c}")
            continue
        ctx.ob("given point", f"{what}: {c}")
        for i in range(DIM):
            if not (close(v[i][0], want[i]) and close(v[i][1], want[i])):
                ctx.fail("start-moved", f"{kind}:given", f"{what}: a coordinate {x[i]:g} given for variable {i} (point {c}, range [{lo[i]:g}, {hi[i]:g}]) becomes {v[i][0]:g}, expected {want[i]:g}")
                return


FIXTURE = '''
import numpy as np
def given(X0, xl, xu):
    return np.clip(np.asarray(X0), xl, xu)
def swapped(X0, xl, xu):
    return np.minimum(X0, xu)
def shrunk(X0, xl, xu):
    return np.clip(X0, xl + 1e-2, xu - 1e-2)
def sampled(xl, xu):
    return (1 - np.random.rand(5, 3)) * np.asarray(xl) + 0
def sampled_ok(xl, xu):
    u = np.random.rand(5, 3)
    return np.asarray(xl) * (1 - u) + np.asarray(xu) * u
def sampled_first(xl, xu):
    xl, xu = np.asarray(xl), np.asarray(xu)
    return xl + np.random.rand(5, 3) * (xu[0] - xl[0])
'''


def selftest(ctx):
    from ..framework import Ctx
    from ..world import Session

    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    got = {}
    lo, hi = vec(BOXES["per variable"][0]), vec(BOXES["per variable"][1])
    for m in ("given", "swapped", "shrunk", "sampled", "sampled_ok", "sampled_first"):
        c = Ctx(ctx.prop)
        c._w = w
        s = Session(w)
        st = not m.startswith("sampled")
        a = ([s.param("X0", "array")] if st else []) + [term(BOXES["per variable"][0]), term(BOXES["per variable"][1])]
        judge(c, s.val(s.call(w.find_func(m), a)), m, m, st, lo, hi, first=True)
        got[m] = sorted({f.rule for f in c.findings.values()})
    want = {"given": [], "swapped": ["start-outside"], "shrunk": ["start-moved"], "sampled": ["start-outside"], "sampled_ok": [], "sampled_first": ["start-outside"]}
    ctx.need(got == want, f"self-test: {got}")
    ctx.selftests.append("a one-sided clip, a clip to a shrunken box and samples outside the range are reported; the correct ones are not")


def run(ctx):
    ctx.rule("the first population lies in the box: given coordinates at the nearest point of the range of their own variable, sampled ones over the whole range")
    ctx.rule("while an optimizer is built the caller's functions are evaluated inside the box only")
    ctx.rule("bounds given as a number, a one-element list or per variable mean the same")
    jobs = [(k, b, st) for k in scen.OPTIMIZERS for b in BOXES for st in (True, False)]
    ctx.parallel(jobs, job)
    ctx.need(sum(ctx.counts.get(k, 0) for k in ("points inside the box", "undetermined points")) >= 8, "no first population of an optimizer was found")
