"""Dominance decisions are exact order comparisons: pairwise predicate, non-dominated filter, sorting."""

import itertools

from ..terms import K, Op, Tup, is_k, kval, show
from ..prov import phis

EXPLANATION = (
    "The pairwise predicate and the non-dominated filter are interpreted on points whose coordinates are opaque symbols of a totally ordered domain. Every "
    "condition they branch on is reduced, over all order types of the symbols (which coordinate is smaller, equal or larger), by an evaluator of comparison and "
    "boolean operators only; anything else (arithmetic, rounding, tolerances on coordinates) is not decidable there. Compared: the answer for every order type "
    "with the definition of Pareto dominance. For the non-dominated sort: no operation that rounds, scales or compares within a tolerance is applied to objective "
    "values on any path of the sort and its helpers."
)
ASSUMPTIONS = [
    "objective values are totally ordered (no NaN)",
    "a condition outside comparisons and boolean operators on coordinates is counted as undetermined unless it is a tolerance or rounding operation, which is reported",
]

LOSSY = {"round", "around", "round_", "rint", "floor", "ceil", "trunc", "fix", "isclose", "allclose", "float32", "float16", "half", "single", "int", "astype", "assert_allclose"}


class Unknown(Exception):
    pass


class Lossy(Exception):
    pass


def bc(f, a, b):
    """elementwise with numpy broadcasting, arrays as nested lists"""
    da, db = depth(a), depth(b)
    if da == 0 and db == 0:
        return f(a, b)
    if da == db:
        if len(a) == len(b):
            return [bc(f, x, y) for x, y in zip(a, b)]
        if len(a) == 1:
            return [bc(f, a[0], y) for y in b]
        if len(b) == 1:
            return [bc(f, x, b[0]) for x in a]
        if not a or not b:
            return []
        raise Unknown("shapes")
    return [bc(f, x, b) for x in a] if da > db else [bc(f, a, y) for y in b]


def depth(x):
    return 1 + depth(x[0]) if isinstance(x, list) and x else 1 if isinstance(x, list) else 0


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def reduce_(f, x, axis):
    if axis is None:
        return f(flat(x))
    d = depth(x)
    if axis < 0:
        axis += d
    if not x:
        return []  # no rows
    if d == 1:
        return f(x)
    if axis == 0:
        return [reduce_(f, list(c), 0 if depth(list(c)) > 1 else None) for c in zip(*x)]
    return [reduce_(f, r, axis - 1 if depth(r) > 1 else None) for r in x]


CMP = {"Lt": lambda a, b: a < b, "LtE": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "GtE": lambda a, b: a >= b, "Eq": lambda a, b: a == b, "NotEq": lambda a, b: a != b}
BIT = {"BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b}
UF = {
    "less": CMP["Lt"], "less_equal": CMP["LtE"], "greater": CMP["Gt"], "greater_equal": CMP["GtE"], "equal": CMP["Eq"], "not_equal": CMP["NotEq"],
    "logical_and": lambda a, b: bool(a) and bool(b), "logical_or": lambda a, b: bool(a) or bool(b), "logical_xor": lambda a, b: bool(a) != bool(b),
    "bitwise_and": BIT["BitAnd"], "bitwise_or": BIT["BitOr"],
}
ID = {"array", "asarray", "asanyarray", "ascontiguousarray", "copy", "list", "tuple", "bool", "atleast_1d", "squeeze", "bool_"}


class Coord(int):
    """rank of a coordinate: an element of an ordered set, only comparisons are defined"""


class Diff(int):
    """difference of two coordinates: only its sign is known"""


def compare(f):
    def g(a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Diff) and (isinstance(y, (Diff, Coord)) or y != 0):
                raise Lossy("arithmetic and a threshold")
        return f(a, b)

    return g


class Orders:
    """evaluate a comparison term under one order type: rank of every symbol"""

    def __init__(self, rank):
        self.rank = rank

    def __call__(self, t):
        tag = t.tag
        if tag == "k":
            return kval(t)
        if tag == "tup":
            return [self(x) for x in t.a]
        if tag == "phi":
            vs = [self(x) for x in t.a[0]]
            if all(v == vs[0] for v in vs[1:]):
                return vs[0]
            raise Unknown("phi")
        if tag != "op":
            raise Unknown(tag)
        op, a = t.a[0], t.a[1:]
        if op == "sym":
            n = kval(a[0])
            if n not in self.rank:
                raise Unknown(n)
            return Coord(self.rank[n])
        if op in ("tuple", "list", "arrlit"):
            return [self(x) for x in a]
        if op == "cmp":
            f = CMP.get(a[0])
            if f is None:
                raise Unknown(str(a[0]))
            return bc(compare(f), self(a[1]), self(a[2]))
        if op == "add" and len(a) == 2 and any(x.tag == "op" and x.a[0] == "neg" and has_sym(x) for x in a):
            x, y = a if a[1].tag == "op" and a[1].a[0] == "neg" else (a[1], a[0])
            l, r = self(x), self(y.a[1])
            if all(isinstance(z, Coord) for z in flat(l) + flat(r)):
                return bc(lambda p, q: Diff(p - q), l, r)
        if op in ("add", "mul", "neg", "pow", "div") and has_sym(t):
            raise Lossy("arithmetic")
        if op in ("and", "or"):
            vs = []
            for x in a:
                v = self(x)
                if isinstance(v, list) and len(v) == 1:
                    v = v[0]
                if isinstance(v, list):
                    raise Unknown("truth of an array")
                vs.append(v)
                if bool(v) != (op == "and"):
                    return v
            return vs[-1]
        if op == "not":
            v = self(a[0])
            return not v
        if op == "bin" and kval(a[0]) in BIT:
            return bc(BIT[kval(a[0])], self(a[1]), self(a[2]))
        if op in ("invert", "unary") or (op == "un" and is_k(a[0])):
            name, x = ("Invert", a[0]) if op == "invert" else (kval(a[0]) if is_k(a[0]) else a[0], a[1])
            if name in ("Invert", "Not", "~", "inv"):
                return bc(lambda p, q: not p, self(x), 0)
            raise Unknown(op)
        if op == "len":
            v = self(a[0])
            if isinstance(v, list):
                return len(v)
            raise Unknown("len")
        if op == "ifexp" and len(a) == 3:
            return self(a[1]) if self(a[0]) else self(a[2])
        if op == "call":
            return self.call(a)
        if op == "sub" or op == "getitem":
            return self.sub(self(a[0]), a[1])
        raise Unknown(op)

    def sub(self, v, i):
        if not isinstance(v, list):
            raise Unknown("subscript")
        if i.tag == "op" and i.a[0] in ("idx", "idx?"):
            i = i.a[1]
        if i.tag == "sl" or (i.tag == "op" and i.a[0] == "slice"):
            b = i.a if i.tag == "sl" else i.a[1:]
            return v[slice(*[self(x) if x is not None else None for x in b])]
        j = self(i)
        if isinstance(j, bool) or j is None:
            raise Unknown("index")
        if isinstance(j, int) and not isinstance(j, Coord):
            return v[j]
        if isinstance(j, list):
            if j and all(isinstance(x, bool) for x in j):
                return [x for x, y in zip(v, j) if y]
            if all(isinstance(x, int) and not isinstance(x, (bool, Coord)) for x in j):
                return [v[x] for x in j]
        raise Unknown("index")

    def call(self, a):
        f = a[0]
        if f.tag == "ext":
            name, args = f.a[0].split(".")[-1], list(a[1:])
        elif f.tag == "k":
            name, args = str(kval(f)).split(".")[-1], list(a[1:])
        else:
            raise Unknown("call")
        kw = {}
        for x in list(args):
            if x.tag == "op" and x.a[0] == "kw":
                kw[kval(x.a[1])] = x.a[2]
                args.remove(x)
        if name in LOSSY:
            for x in args:
                if has_sym(x):
                    raise Lossy(name)
        if name in ("all", "any", "sum", "count_nonzero", "alltrue", "sometrue"):
            axis = kw.get("axis") or (args[1] if len(args) > 1 else None)
            axis = kval(axis) if axis is not None and is_k(axis) else None if axis is None else "?"
            if axis == "?":
                raise Unknown("axis")
            v = self(args[0])
            if not isinstance(v, list):
                raise Unknown("reduction")
            if name in ("sum", "count_nonzero"):
                if any(isinstance(x, Coord) for x in flat(v)):
                    raise Unknown("sum of coordinates")
                return reduce_(lambda r: sum(1 if x is True else 0 if x is False else x for x in r), v, axis)
            return reduce_((lambda r: all(r)) if name.startswith("al") else (lambda r: any(r)), v, axis)
        if name in UF and len(args) == 2:
            return bc(UF[name], self(args[0]), self(args[1]))
        if name in ("logical_not", "invert", "bitwise_not"):
            return bc(lambda p, q: not p, self(args[0]), 0)
        if name in ID and args:
            return self(args[0])
        if name in ("nonzero", "where", "flatnonzero", "argwhere") and len(args) == 1:
            v = self(args[0])
            r = [i for i, x in enumerate(v) if x]
            return [r] if name in ("nonzero", "where") else r
        if name == "len":
            return len(self(args[0]))
        if name in ("vstack", "row_stack", "concatenate", "stack") and len(args) == 1:
            v = self(args[0])
            if name == "stack":
                return v
            return [r for x in v for r in (x if depth(x) > 1 or name == "concatenate" else [x])]
        if name == "delete" and len(args) >= 2:
            v, j = self(args[0]), self(args[1])
            js = {j} if isinstance(j, int) else set(j)
            return [x for i, x in enumerate(v) if i not in js]
        raise Unknown(name)


def has_sym(t):
    if t.tag == "op" and t.a[0] == "sym":
        return True
    if t.tag == "op" and t.a[0] == "len":
        return False
    if t.tag in ("op", "tup"):
        return any(hasattr(x, "tag") and has_sym(x) for x in t.a)
    if t.tag == "phi":
        return any(has_sym(x) for x in t.a[0])
    return False


def sym(n):
    return Op("sym", K(n))


class Trouble:
    """answers the branch conditions under one order type and remembers what it could not answer"""

    def __init__(self, rank):
        self.ev = Orders(rank)
        self.lossy, self.unknown = None, None

    def __call__(self, v):
        if not has_sym(v):
            return None
        try:
            r = self.ev(v)
        except Lossy as e:
            self.lossy = str(e)
            return None
        except (Unknown, IndexError, TypeError) as e:
            self.unknown = str(e)
            return None
        if isinstance(r, list):
            r = bool(r[0]) if len(r) == 1 else None if r else False
        return None if r is None else bool(r)


def dominates(a, b):
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def order_types(n):
    """all weak orders of n elements, as rank tuples using ranks 0..k without gaps"""
    return [r for r in itertools.product(range(n), repeat=n) if set(r) == set(range(max(r) + 1))]


def pairwise(ctx, s, f, m):
    I = ctx.w.interp
    for signs in itertools.product((0, 1, 2), repeat=m):
        # sign 0: left smaller, 1: equal, 2: left larger
        rank = {}
        for i, g in enumerate(signs):
            rank[f"l{i}"], rank[f"r{i}"] = (0, 1) if g == 0 else (0, 0) if g == 1 else (1, 0)
        t = I.oracle = Trouble(rank)
        r = s.call(f, [Tup([sym(f"l{i}") for i in range(m)]), Tup([sym(f"r{i}") for i in range(m)])])
        I.oracle = None
        s.take()
        text = " ".join({0: "<", 1: "=", 2: ">"}[g] for g in signs)
        if t.lossy:
            ctx.fail("tolerance", "is_dominate", f"objective values are compared through {t.lossy}()")
            return
        got = answer(t, s.val(r))
        if got is None:
            ctx.ob("undetermined pairwise answer", text)
            continue
        ctx.ob("pairwise order type decided", f"{text} -> {got}")
        want = dominates([rank[f"l{i}"] for i in range(m)], [rank[f"r{i}"] for i in range(m)])
        if got != want:
            ctx.fail("pairwise", "is_dominate", f"for coordinates related as left {text} right the answer is {got}, by definition it is {want}")


def answer(t, v):
    try:
        r = t.ev(v)
    except (Unknown, Lossy, IndexError, TypeError):
        return None
    return bool(r) if not isinstance(r, list) else None


def points(v, t):
    """the rows a term denotes, as lists of coordinate ranks; None if unknown"""
    try:
        return t.ev(v)
    except (Unknown, Lossy, IndexError, TypeError):
        return None


def filtering(ctx, s, f, types, m):
    """the filter on n points with m objectives, for the given order types per objective"""
    I = ctx.w.interp
    for combo in types:
        n = len(combo[0])
        rank = {f"y{i}_{j}": combo[j][i] for i in range(n) for j in range(m)}
        Y = [tuple(combo[j][i] for j in range(m)) for i in range(n)]
        term = Tup([Tup([sym(f"y{i}_{j}") for j in range(m)]) for i in range(n)])
        t = I.oracle = Trouble(rank)
        try:
            ri = s.call(f, [term], {"return_index": K(True)})
            idx = points(s.val(ri), t)
            s.take()
            ry = s.call(f, [term])
            rows = points(s.val(ry), t)
            s.take()
        finally:
            I.oracle = None
        if t.lossy:
            ctx.fail("tolerance", "get_non_dominated", f"objective values are compared through {t.lossy}()")
            return
        front = {y for y in Y if not any(dominates(z, y) for z in Y)}
        shown = " ".join(str(y) for y in Y)
        if idx is None or not all(isinstance(i, int) and -n <= i < n for i in idx):
            ctx.ob("undetermined filter", shown)
        else:
            ctx.ob("filter order type decided", f"{shown} -> {idx}")
            judge(ctx, [Y[i] for i in idx], front, shown, "the indices returned")
            if len(set(idx)) != len(idx):
                ctx.fail("filter", "get_non_dominated", f"points (as ranks) {shown}: an index is returned more than once ({idx})")
        if rows is None or not all(isinstance(x, list) and len(x) == m for x in rows):
            ctx.ob("undetermined filter", shown)
        else:
            ctx.ob("filter order type decided", f"{shown} -> {len(rows)} rows")
            judge(ctx, [tuple(map(int, x)) for x in rows], front, shown, "the points returned")


def judge(ctx, got, front, shown, what):
    for y in got:
        if y not in front:
            ctx.fail("filter-keeps-dominated", "get_non_dominated", f"points (as ranks) {shown}: {what} contain the dominated point {y}")
            return
    for y in sorted(front):
        if y not in got:
            ctx.fail("filter-drops", "get_non_dominated", f"points (as ranks) {shown}: {what} do not contain the non-dominated point {y}")
            return


def lossy_calls(ctx, s, f, name, args, kwargs=None):
    """operations that round or compare within a tolerance on objective values, on any path"""
    I = ctx.w.interp
    keep, I.opaque = I.opaque, frozenset()
    seen = []
    I.oracle = lambda v: seen.append(v)
    s.take()
    try:
        s.call(f, args, kwargs or {})
    finally:
        I.opaque = keep
        I.oracle = None
    n = 0
    for e in s.take():
        if e.kind != "extcall":
            continue
        last = str(e.name).split(".")[-1]
        n += 1
        vals = [x for x in list(e.argvals or []) + ([e.recv] if getattr(e, "recv", None) is not None else []) if hasattr(x, "tag")]
        if last in LOSSY and not (last == "int") and any(objective(s.val(x)) for x in vals):
            ctx.fail("tolerance", name, f"objective values pass through {last}() before or while they are compared", e)
    for v in seen:
        for c in walk(v):
            if c.tag == "op" and c.a[0] == "call" and c.a[1].tag == "ext" and c.a[1].a[0].split(".")[-1] in LOSSY and any(objective(x) for x in c.a[2:]):
                ctx.fail("tolerance", name, f"objective values are compared through {c.a[1].a[0]}(): {show(v, 120)}")
            elif c.tag == "op" and c.a[0] == "cmp" and any(arith(x) for x in c.a[2:]) and not sign_test(c):
                ctx.fail("arithmetic", name, f"a comparison of objective values depends on arithmetic on them: {show(c, 120)}")
    ctx.ob("conditions of the sort examined", name, n=len(set(seen)))
    ctx.ob("external calls of the sort examined", name, n=n)


def walk(t):
    yield t
    if t.tag in ("op", "tup"):
        for x in t.a:
            if hasattr(x, "tag"):
                yield from walk(x)
    elif t.tag == "phi":
        for x in t.a[0]:
            yield from walk(x)


def objective(t):
    """does the value contain an objective value (not merely a length)"""
    if t.tag == "op" and t.a[0] in ("len", "enum_idx", "range_elem", "shape"):
        return False
    if t.tag == "op" and t.a[0] in ("anykey", "sym"):
        return True
    if t.tag == "ref" and t.a[0].kind == "param":
        return True
    if t.tag in ("op", "tup"):
        return any(hasattr(x, "tag") and objective(x) for x in t.a)
    if t.tag == "phi":
        return any(objective(x) for x in t.a[0])
    return False


def arith(t):
    """arithmetic applied to an objective value"""
    if t.tag == "op" and t.a[0] in ("add", "mul", "pow", "neg", "div", "bin", "sub2"):
        return any(hasattr(x, "tag") and selects(x) for x in t.a[1:])
    return False


def selects(t):
    """an operand that is itself an objective value (a coordinate of a key), not an index or a front number computed from positions"""
    if t.tag == "op" and t.a[0] == "sub" and len(t.a) > 2:
        b = t.a[1]
        return b.tag == "op" and b.a[0] == "anykey"
    if t.tag == "op" and t.a[0] in ("neg", "listof", "elem"):
        return any(hasattr(x, "tag") and selects(x) for x in t.a[1:])
    if t.tag == "op" and t.a[0] == "call" and t.a[1].tag == "ext" and t.a[1].a[0].split(".")[-1] in ("min", "max", "amin", "amax", "median_low", "median_high", "median", "sorted", "float"):
        return any(hasattr(x, "tag") and selects(x) for x in t.a[2:])
    return t.tag == "op" and t.a[0] == "sym"


def sign_test(c):
    """difference of two values compared with zero: exact in floating point"""
    sides = c.a[2:]
    diff = [x for x in sides if x.tag == "op" and x.a[0] == "add" and len(x.a) == 3 and any(y.tag == "op" and y.a[0] == "neg" for y in x.a[1:])]
    zero = [x for x in sides if is_k(x) and kval(x) == 0]
    return len(diff) == 1 and len(zero) == 1


FIXTURE = '''
import numpy as np
def ok(l, r):
    return all(a <= b for a, b in zip(l, r)) and any(a < b for a, b in zip(l, r))
def weak(l, r):
    for a, b in zip(l, r):
        if a > b:
            return False
    return True
def tol(l, r):
    return bool(np.all(np.asarray(l) <= np.asarray(r)) and not np.allclose(l, r))
def keep(P, return_index=False):
    out = []
    for i, p in enumerate(P):
        if np.all(np.any(P > p, axis=1) | np.all(P == p, axis=1)):
            out.append(i)
    return out if return_index else P[out]
def drop(P, return_index=False):
    out = []
    for i, p in enumerate(P):
        if np.all(np.any(P[:i] > p, axis=1)) and np.all(np.any(P[i + 1:] > p, axis=1)):
            out.append(i)
    return out if return_index else P[np.array(out)].copy()
'''


def selftest(ctx):
    from ..framework import Ctx
    from ..world import Session

    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    got = {}
    o2 = order_types(2)
    for m in ("ok", "weak", "tol", "keep", "drop"):
        c = Ctx(ctx.prop)
        c._w = w
        s = Session(w)
        w.interp.oracle = None
        if m in ("keep", "drop"):
            filtering(c, s, w.find_func(m), [(a, b) for a in o2 for b in o2], 2)
        else:
            pairwise(c, s, w.find_func(m), 2)
        got[m] = sorted({f.rule for f in c.findings.values()})
    want = {"ok": [], "weak": ["pairwise"], "tol": ["tolerance"], "keep": [], "drop": ["filter-drops"]}
    ctx.need(got == want, f"self-test: {got}")
    ctx.selftests.append("a weak, a tolerant predicate and a filter dropping duplicates are reported; the exact ones are not")


def run(ctx):
    w = ctx.w
    s = ctx.session("dominance")
    ctx.rule("is_dominate(l, r) is true exactly when no coordinate of l is larger than that of r and one is smaller, for every order type of the coordinates")
    ctx.rule("get_non_dominated keeps only non-dominated points and at least one copy of each, in both return modes")
    ctx.rule("the non-dominated sort compares objective values only by exact order comparison")
    pred = w.find_func("is_dominate")
    for m in (2, 3, 4) if not ctx.thorough else (1, 2, 3, 4, 5):
        pairwise(ctx, s, pred, m)
    filt = w.find_func("get_non_dominated")
    o2, o3 = order_types(2), order_types(3)
    filtering(ctx, s, filt, [(a, b) for a in o2 for b in o2], 2)
    filtering(ctx, s, filt, [(a, b, c) for a in o2 for b in o2 for c in o2], 3)
    filtering(ctx, s, filt, [(a, b) for a in o3 for b in o3], 2)
    if ctx.thorough:
        o4 = order_types(4)
        filtering(ctx, s, filt, [(a, b) for a in o4 for b in o4 if a == tuple(sorted(a))], 2)
    lossy_calls(ctx, s, pred, "is_dominate", [s.param("l", "array"), s.param("r", "array")])
    lossy_calls(ctx, s, filt, "get_non_dominated", [s.param("Y", "array")])
    srt = w.find_func("non_domin_sort")
    for k in (True, False):
        lossy_calls(ctx, s, srt, "non_domin_sort", [s.param("Y", "array")], {"only_front_indices": K(k)})
    ctx.at_least("conditions of the sort examined", 1)
