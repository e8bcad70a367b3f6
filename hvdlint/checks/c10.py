"""Every decision variable takes part in a benchmark problem, for every number of variables."""

from .. import scen
from ..terms import K, Op, T, is_k, kval, show
from ..world import Session

EXPLANATION = (
    "The objective and constraint functions of every problem are interpreted with a symbolic number of variables and objectives. From the "
    "resulting term the index expressions under which the decision vector is read are collected (composed through slices, index groups and "
    "element-wise operations). They are linear in the numbers of variables and objectives with constant strides, so whether an index leaves "
    "the vector, whether some variable is read by no objective, and whether two groups overlap depends only on the residue of the number of "
    "variables modulo the strides: one representative per residue class decides it for all numbers of variables."
)
ASSUMPTIONS = ["at least 12 variables (or the problem's fixed number)", "WFG is decided for the configurations listed in the evidence, not for all numbers of variables"]

ELEMENTWISE = {
    "abs", "absolute", "sin", "cos", "tan", "exp", "log", "sqrt", "clip", "power", "minimum", "maximum", "square", "where", "asarray", "array", "negative", "sign", "floor",
    "ceil", "add", "subtract", "multiply", "divide", "fabs", "cosh", "sinh", "tanh", "log2", "log10", "mod", "remainder", "round", "copy", "float_power", "atleast_1d", "ravel", "logical_and",
    "logical_or", "logical_not", "isclose", "less", "greater", "arctan", "arcsin", "arccos", "expm1", "log1p", "nan_to_num", "heaviside", "select",
}
REDUCE = {"sum", "mean", "prod", "max", "min", "amax", "amin", "norm", "dot", "average", "median", "std", "var", "any", "all", "argmax", "argmin", "nansum", "product"}
SAMEOP = {"add", "mul", "neg", "bin", "cmp", "and", "or", "not", "invert", "at2", "bcast", "ravel", "abs", "mark", "num"}

FIXTURE = '''
import jax.numpy as jnp
class P:
    def __init__(self, n_var):
        self.n_var = int(n_var)
    def good(self, x):
        x = jnp.atleast_2d(x)
        a = jnp.arange(2, self.n_var, 2)
        b = jnp.arange(2, self.n_var + 1, 2) - 1
        y = x - jnp.sin(x[:, [0]])
        return x[:, 0] + jnp.sum(y[:, a] ** 2, 1) + jnp.sum(y[:, b], 1)
    def outside(self, x):
        a = jnp.arange(2, self.n_var, 2)
        b = jnp.arange(2, self.n_var + 2, 2) - 1
        return x[0] + jnp.sum(x[a]) + jnp.sum(x[b])
    def dropped(self, x):
        a = jnp.arange(2, self.n_var - 1, 2)
        b = jnp.arange(1, self.n_var, 2)
        return x[0] + jnp.sum(x[a]) + jnp.sum(x[b])
    def twice(self, x):
        a = jnp.arange(1, self.n_var, 2)
        b = jnp.arange(3, self.n_var, 3)
        return x[0] + jnp.sum(x[a]) + jnp.sum(x[b]) + jnp.sum(x[1:])
'''


class Unknown(Exception):
    pass


def number(t, env):
    """value of an index expression for given numbers of variables and objectives"""
    if is_k(t):
        if isinstance(kval(t), bool) or not isinstance(kval(t), (int, float)):
            raise Unknown
        return kval(t)
    if t.tag == "op":
        o = t.a[0]
        if o == "sym":
            n = kval(t.a[1])
            if n in env:
                return env[n]
            raise Unknown
        if o == "int":
            return int(number(t.a[1], env))
        if o == "add":
            return sum(number(x, env) for x in t.a[1:])
        if o == "mul":
            r = 1
            for x in t.a[1:]:
                r *= number(x, env)
            return r
        if o == "neg":
            return -number(t.a[1], env)
        if o == "bin" and kval(t.a[1]) in ("FloorDiv", "Mod"):
            a, b = number(t.a[2], env), number(t.a[3], env)
            return a // b if kval(t.a[1]) == "FloorDiv" else a % b
    raise Unknown


def integer(t, env):
    v = number(t, env)
    if v != int(v):
        raise Unknown
    return int(v)


def ext_last(t):
    return t.a[0].split(".")[-1] if isinstance(t, T) and t.tag == "ext" else None


def indices(t, env):
    """list of integers an index-array term denotes"""
    if t.tag == "op":
        if t.a[0] in ("list", "tuple"):
            return [integer(x, env) for x in t.a[1:]]
        if t.a[0] == "call" and ext_last(t.a[1]) in ("arange", "range"):
            args = [x for x in t.a[2:] if not (x.tag == "op" and x.a[0] == "kw")]
            return list(range(*[integer(x, env) for x in args]))
        if t.a[0] == "call" and ext_last(t.a[1]) in ("array", "asarray", "concatenate", "hstack", "r_") and len(t.a) == 3:
            a = t.a[2]
            if ext_last(t.a[1]) in ("concatenate", "hstack", "r_") and a.tag == "op":
                out = []
                for x in a.a[1:]:
                    try:
                        out += indices(x, env)
                    except Unknown:
                        out.append(integer(x, env))
                return out
            return indices(a, env)
        if t.a[0] == "add":
            arr, off = None, 0
            for x in t.a[1:]:
                try:
                    off += integer(x, env)
                except Unknown:
                    if arr is not None:
                        raise
                    arr = indices(x, env)
            if arr is not None:
                return [i + off for i in arr]
        if t.a[0] == "neg":
            return [-i for i in indices(t.a[1], env)]
        if t.a[0] == "mul" and len(t.a) == 3:
            for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                try:
                    k = integer(a, env)
                except Unknown:
                    continue
                return [k * i for i in indices(b, env)]
    raise Unknown


def slice_parts(t):
    if t.tag == "sl":
        return list(t.a)
    return None


ALIGNED, SCALAR, OPAQUE, GROUP = "aligned", "scalar", "opaque", "group"


class Access:
    """under which index chains a term reads the decision vector"""

    def __init__(self, leaf):
        self.leaf = leaf
        self.memo = {}
        self.undetermined = 0

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = frozenset()
            r = self.memo[t] = frozenset(self.go(t))
        return r

    def union(self, ts, how=None):
        out = set()
        for x in ts:
            if isinstance(x, T):
                for p, a in self(x):
                    if how is not None:
                        a = GROUP if p and a in (ALIGNED, GROUP) else how
                    out.add((p, a))
            elif isinstance(x, (tuple, frozenset)):
                out |= self.union(x, how)
        return out

    def go(self, t):
        if t.tag == "top":
            self.undetermined += any(self.is_leaf(x) for x in t.a[0])
            return {((Op("any"),), OPAQUE)} if any(self.is_leaf(x) for x in t.a[0]) else set()
        if self.is_leaf(t):
            return {((), ALIGNED)}
        if t.tag == "phi":
            return self.union([t.a[0]])
        if t.tag != "op":
            return self.union(t.a)
        o = t.a[0]
        if o == "attr":
            return set()
        if o == "sub":
            return self.sub(t.a[1], t.a[2])
        if o == "call":
            n = ext_last(t.a[1])
            kw = {kval(x.a[1]) for x in t.a[2:] if x.tag == "op" and x.a[0] == "kw"}
            if n in ELEMENTWISE and "axis" not in kw:
                return self.union(t.a[2:])
            if n in REDUCE:
                # over the variables, or (with an axis) maybe over the points
                return self.union(t.a[2:], SCALAR if "axis" not in kw and len(t.a) == 3 else OPAQUE)
            if n == "tile":
                return {(p, a if a == SCALAR else (ALIGNED if self.rows(t) else OPAQUE) if a == ALIGNED else a) for p, a in self.union(t.a[2:3])}
            return self.union(t.a[1:], OPAQUE)
        if o in SAMEOP:
            return self.union(t.a[1:])
        if o == "reshape":
            return self.union(t.a[1:], OPAQUE)
        return self.union(t.a[1:], OPAQUE)

    @staticmethod
    def rows(t):
        """tile over the points only: (N, 1)"""
        r = t.a[3] if len(t.a) > 3 else None
        return r is not None and r.tag == "tup" and len(r.a) == 2 and is_k(r.a[1]) and kval(r.a[1]) == 1

    def is_leaf(self, t):
        return t.tag == "op" and t.a[0] == "sym" and kval(t.a[1]) == self.leaf

    def sub(self, base, idx):
        inner = self(base)
        col = idx
        if idx.tag == "tup" or idx.tag == "op" and idx.a[0] == "tuple":
            parts = idx.a if idx.tag == "tup" else idx.a[1:]
            if len(parts) != 2:
                return {(p, OPAQUE if a == ALIGNED else a) for p, a in inner}
            full = slice_parts(parts[0])
            if full is None and not is_k(parts[0]):
                return {(p, OPAQUE if a == ALIGNED else a) for p, a in inner}
            col = parts[1]
        out = set()
        for p, a in inner:
            if a != ALIGNED:
                out.add((p, a))
            elif slice_parts(col) is not None:
                out.add((p + (col,), ALIGNED))
            elif col.tag == "op" and (col.a[0] in ("cmp", "and", "or", "not", "invert") or col.a[0] == "bin" and kval(col.a[1]).startswith("Bit")):
                out.add((p, OPAQUE))
            elif col.tag == "op" and col.a[0] in ("list",) and len(col.a) == 2:
                out.add((p + (col,), SCALAR))
            elif self.arrayish(col):
                out.add((p + (col,), ALIGNED))
            else:
                out.add((p + (col,), SCALAR))
        for x in self(idx):
            out.add((x[0], OPAQUE))
        return out

    @staticmethod
    def arrayish(t):
        if t.tag == "op" and t.a[0] in ("list", "listof", "call"):
            return True
        return t.tag == "op" and t.a[0] in ("add", "mul", "neg", "sub", "bin") and any(isinstance(x, T) and Access.arrayish(x) for x in t.a[1:])


def follow(path, n, env, bad):
    """the variables an index chain reads, out of range(n); bad collects indices outside"""
    cur = list(range(n))
    for s in path:
        if s.tag == "op" and s.a[0] == "any":
            raise Unknown
        sp = slice_parts(s)
        if sp is not None:
            b = [None if is_k(x) and kval(x) is None else integer(x, env) for x in sp]
            cur = cur[slice(*(b + [None] * (3 - len(b)))[:3])]
            continue
        try:
            ids = indices(s, env)
        except Unknown:
            ids = [integer(s, env)]
        out = []
        for i in ids:
            if not -len(cur) <= i < len(cur):
                bad.append((i, len(cur), show(s)))
            else:
                out.append(cur[i])
        cur = out
    return cur


def judge(paths, envs):
    """(out of range, dropped, doubled, undecided) over all representatives"""
    bad, dropped, doubled, und = {}, {}, {}, 0
    for env in envs:
        n = env["n_var"]
        got, groups, single, unknown = set(), {}, {}, False
        for p, a in paths:
            out = []
            try:
                ids = follow(p, n, env, out)
            except Unknown:
                unknown = True
                continue
            for i, size, s in out:
                bad.setdefault((s,), (i, size, env))
            got |= set(ids)
            if a in (ALIGNED, GROUP) and p and ids:
                groups[tuple(sorted(ids))] = p
            elif a == SCALAR and len(p) == 1 and len(ids) == 1:
                single[ids[0]] = p
        und += unknown
        if not unknown:
            miss = [i for i in range(n) if i not in got]
            if miss and not any(bad):
                dropped.setdefault("dropped", (miss, env))
        gs = [set(g) for g in groups]
        for i, g in enumerate(gs):
            for h in gs[:i]:
                if g & h:
                    doubled.setdefault("doubled", (sorted(g & h), env))
            for j in single:
                if j in g and len(g) > 1:
                    doubled.setdefault("doubled", ([j], env))
    return bad, dropped, doubled, und


def envs_for(o, s):
    nv, no = s.val(s.get(o, "n_var")), s.val(s.get(o, "n_obj"))
    ns = [kval(nv)] if is_k(nv) else list(range(12, 12 + 13))
    ms = [kval(no)] if is_k(no) else [2, 3, 4]
    return [{"n_var": n, "n_obj": m} for n in ns for m in ms]


FUNCS = (("_objective", True), ("objective", True), ("_ieq_constraint", False), ("_eq_constraint", False))


def decide(ctx, what, where, r, envs, cover):
    acc = Access("x")
    paths = acc(r)
    if not paths:
        return
    ctx.ob("function whose variable accesses are decided", what)
    ctx.ob("index chain evaluated for every residue class", n=len(paths))
    bad, dropped, doubled, und = judge(paths, envs)
    for k, (i, size, env) in bad.items():
        ctx.fail("index-outside", f"{where}", f"{what}: with {env['n_var']} variables index {i} of {k[0]} is outside the {size} entries read", where=where)
    if und:
        ctx.ob("function with accesses not expressible as index chains", what)
    if cover:
        for miss, env in dropped.values():
            ctx.fail("variable-dropped", f"{where}", f"{what}: with {env['n_var']} variables and {env['n_obj']} objectives, no objective reads the variables {miss[:6]}", where=where)
    for ids, env in doubled.values():
        ctx.fail("variable-in-two-groups", f"{where}", f"{what}: with {env['n_var']} variables, {ids[:6]} belong to two index groups", where=where)


def job(ctx, name):
    c = ctx.w.find_class(name)
    s = ctx.session(f"problem {name}")
    o = scen.new_problem(s, c)
    f = s.fields(o)
    envs = envs_for(o, s)
    done = set()
    for m, cover in FUNCS:
        if not s.has(o, m) or m == "objective" and "_objective" in done:
            continue
        if m == "_ieq_constraint" and f.get("_ieq") is K(None) or m == "_eq_constraint" and f.get("_eq") is K(None):
            continue
        mm, owner = c.lookup(m)
        done.add(m)
        r = s.val(s.method(o, m, [s.param("x", "array")]))
        decide(ctx, f"{name}.{m}", f"{owner.module if owner is not None else c.module}.{name}.{m}", r, envs, cover)


def selftest(ctx):
    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    got = {}
    for m in ("good", "outside", "dropped", "twice"):
        s = Session(w)
        o = s.new("P", [s.param("n_var", "int")])
        r = s.val(s.method(o, m, [s.param("x", "array")]))
        bad, dropped, doubled, und = judge(Access("x")(r), [{"n_var": n, "n_obj": 2} for n in range(12, 25)])
        got[m] = (bool(bad), bool(dropped), bool(doubled), und)
    want = {"good": (False, False, False, 0), "outside": (True, False, False, 0), "dropped": (False, True, False, 0), "twice": (False, False, True, 0)}
    ctx.need(got == want, f"self-test: {got}")
    ctx.selftests.append("an index outside the vector, a dropped variable and overlapping groups are found; a partition is accepted for even and odd sizes")


def run(ctx):
    ctx.rule("no index leaves the decision vector, whatever the number of variables")
    ctx.rule("every variable is read by some objective, and index groups are disjoint")
    ctx.parallel([c.name for c in scen.problems(ctx.w)], job)
    ctx.at_least("function whose variable accesses are decided", 40)
