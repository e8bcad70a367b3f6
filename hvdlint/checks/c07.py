"""A problem's published dimensions, bounds and constraint counts are those it evaluates with."""

from .. import scen
from ..prov import PEEL_CALLS
from ..terms import K, Op, T, is_k, kval, leaves_of, show, subterms
from .c06 import POINT, RAW, call_name, fuzzy

EXPLANATION = (
    "Every problem class is constructed abstractly under a family of configurations (all arguments symbolic, defaults, one "
    "bound given, with/without boundary constraints). From the resulting object the published number of variables and "
    "objectives, bounds and constraint counts are read as value numbers. Decided: n_var is the caller's number (or the "
    "documented fixed one); a bound the caller gives is the published bound, on its own side, copied into one entry per "
    "variable; default bounds have one entry per variable for every n_var and lower <= upper; every constructor argument "
    "reaches the object; with boundary constraints the inequality function is the problem's own constraints followed by "
    "xl - x and x - xu and the count grows by two per variable, without them it is unchanged; the pymoo view and the "
    "pymoo-backed problem hand over every dimension, bound and count in its own role."
)
ASSUMPTIONS = ["numpy.broadcast_to repeats a scalar or keeps a vector of the right length", "int() of an integer is the identity"]

ROLES = {"n_var": "n_var", "n_obj": "n_obj", "xl": "xl", "xu": "xu", "n_eq_constr": "n_eq_constr", "n_ieq_constr": "n_ieq_constr"}


def strip(t):
    """the value behind conversions and broadcasting"""
    while t.tag == "op":
        if t.a[0] == "bcast" or t.a[0] in ("int", "float"):
            t = t.a[1]
        elif call_name(t) in PEEL_CALLS | {"numpy.broadcast_to"}:
            t = t.a[2]
        elif t.a[0] == "mul" and len(t.a) == 3 and any(call_name(x) in ("numpy.ones",) for x in t.a[1:]):
            t = next(x for x in t.a[1:] if call_name(x) not in ("numpy.ones",))
        elif call_name(t) in ("numpy.full", "numpy.full_like"):
            t = t.a[3]
        else:
            break
    return t


def syms(t):
    return {kval(x.a[1]) for x in leaves_of(t) if x.tag == "op" and x.a[0] == "sym"}


# ------------------------------------------------------------------ lengths as linear terms in n_var
class Lin(dict):
    pass


def lin(t, n_var):
    """t as {term: coefficient, 1: constant} or None"""
    t0 = t
    while t.tag == "op" and t.a[0] == "int":
        t = t.a[1]
    nv = n_var
    while nv.tag == "op" and nv.a[0] == "int":
        nv = nv.a[1]
    if is_k(t):
        v = kval(t)
        return {1: v} if isinstance(v, (int, float)) and not isinstance(v, bool) else None
    if t is nv:
        return {"n": 1}
    if t.tag == "op" and t.a[0] == "add":
        out = {}
        for x in t.a[1:]:
            c = lin(x, n_var)
            if c is None:
                return None
            for k, v in c.items():
                out[k] = out.get(k, 0) + v
        return out
    if t.tag == "op" and t.a[0] == "neg":
        c = lin(t.a[1], n_var)
        return None if c is None else {k: -v for k, v in c.items()}
    if t.tag == "op" and t.a[0] == "mul":
        const, rest = 1, None
        for x in t.a[1:]:
            c = lin(x, n_var)
            if c is None:
                return None
            if set(c) <= {1}:
                const *= c.get(1, 0)
            elif rest is None:
                rest = c
            else:
                return None
        rest = rest or {1: 1}
        return {k: v * const for k, v in rest.items()}
    return None


def norm(c):
    return None if c is None else {k: v for k, v in c.items() if v}


def length(t, n_var):
    """number of entries of a bound term; 'scalar' for scalars, None if unknown"""
    if is_k(t):
        v = kval(t)
        return {1: len(v)} if isinstance(v, (tuple, list)) else "scalar"
    if t.tag != "op":
        if t.tag == "tup":
            return {1: len(t.a)}
        return None
    n = t.a[0]
    if n in ("list", "tuple"):
        return {1: len(t.a) - 1}
    if n == "mul" or n == "add" or n == "neg" or n == "bin":
        out = "scalar"
        for x in t.a[1:]:
            if not isinstance(x, T) or (is_k(x) and isinstance(kval(x), str)):
                continue
            k = length(x, n_var)
            if k is None:
                return None
            if k != "scalar":
                if out != "scalar" and norm(out) != norm(k):
                    return None
                out = k
        return out
    c = call_name(t)
    if c in PEEL_CALLS:
        return length(t.a[2], n_var)
    if c in ("numpy.full", "numpy.ones", "numpy.zeros"):
        a = t.a[2]
        if a.tag == "op" and a.a[0] in ("tuple", "list") and len(a.a) == 2:
            a = a.a[1]
        return lin(a, n_var)
    if c == "numpy.arange":
        pos = [x for x in t.a[2:] if not (x.tag == "op" and x.a[0] == "kw")]
        if len(pos) == 1:
            return lin(pos[0], n_var)
        if len(pos) == 2:
            a, b = lin(pos[0], n_var), lin(pos[1], n_var)
            if a is None or b is None:
                return None
            out = dict(b)
            for k, v in a.items():
                out[k] = out.get(k, 0) - v
            return out
        return None
    if c in ("numpy.r_", "numpy.concatenate", "numpy.hstack", "numpy.append"):
        parts = t.a[2:]
        if len(parts) == 1 and parts[0].tag == "op" and parts[0].a[0] in ("tuple", "list"):
            parts = parts[0].a[1:]
        elif len(parts) == 1 and parts[0].tag == "tup":
            parts = parts[0].a
        out = {}
        for p in parts:
            k = length(p, n_var)
            if k is None:
                return None
            if k == "scalar":
                k = {1: 1}
            for a, b in k.items():
                out[a] = out.get(a, 0) + b
        return out
    return None


def entries(t):
    """the constant entry values of a bound term (None when not constant)"""
    vals = []

    def go(x):
        if is_k(x):
            v = kval(x)
            if isinstance(v, (int, float)):
                vals.append(float(v))
                return True
            return False
        if x.tag != "op":
            return False
        if x.a[0] in ("list", "tuple"):
            return all([go(y) for y in x.a[1:]])
        c = call_name(x)
        if c == "numpy.full":
            return go(x.a[3])
        if c in ("numpy.r_", "numpy.concatenate", "numpy.hstack") or c in PEEL_CALLS:
            return all([go(y) for y in x.a[2:]])
        return False

    return vals if go(t) else None


def parts(t):
    """parts of an entrywise bound, with constant values, aligned: [(length, value)]"""
    out = []

    def go(x):
        if is_k(x) and isinstance(kval(x), (int, float)):
            out.append(float(kval(x)))
            return True
        if x.tag == "op" and (x.a[0] in ("list", "tuple") or call_name(x) in ("numpy.r_", "numpy.concatenate", "numpy.hstack") or call_name(x) in PEEL_CALLS):
            return all([go(y) for y in (x.a[1:] if x.a[0] in ("list", "tuple") else x.a[2:])])
        if call_name(x) == "numpy.full":
            return go(x.a[3])
        return False

    return out if go(t) else None


def ctor_names(c):
    fo = scen.ctor_of(c)
    return [p.arg for p in scen.params_of(fo)] if fo is not None else []


def dims(ctx, c, s, o, who, given):
    """published dimensions against the constructor's arguments"""
    w = f"{c.module} {c.name}.__init__"
    for a in ("n_var", "n_obj"):
        t = s.val(s.get(o, a))
        ctx.ob("published dimension", f"{who}.{a} = {show(t, 60)}")
        core = strip(t)
        if a in given:
            if is_k(core) or syms(core) == {a}:
                if syms(core) == {a} and core is not s.val(given[a]) and not fuzzy(core):
                    ctx.fail("wrong-dimension", f"{c.name}.{a}", f"`{a}` is {show(t, 80)} instead of the number the caller gives", where=w)
                d = c.lookup("default_" + a)[0]
                if is_k(core) and d is not None and is_k(d) and kval(d) != kval(core):
                    ctx.fail("wrong-dimension", f"{c.name}.{a}", f"`{a}` is fixed to {kval(core)} but the class documents {kval(d)}", where=w)
            elif not fuzzy(core):
                ctx.fail("wrong-dimension", f"{c.name}.{a}", f"`{a}` is {show(t, 80)}; expected the number the caller gives", where=w)
    for a in ("xl", "xu"):
        t = s.val(s.get(o, a))
        core = strip(t)
        ctx.ob("published bound", f"{who}.{a} = {show(t, 60)}")
        if a in given:
            g = s.val(given[a])
            if core is not g:
                if fuzzy(core) and (a in syms(core)):
                    ctx.ob("undetermined bound", f"{who}.{a}: {show(core, 60)}")
                else:
                    ctx.fail("wrong-bound", f"{c.name}.{a}", f"the `{a}` the caller gives is not the published bound: {show(t, 100)}", where=w)
        elif "xl" in given or "xu" in given:
            other = "xu" if a == "xl" else "xl"
            if other in syms(core):
                ctx.fail("wrong-bound", f"{c.name}.{a}", f"the default `{a}` depends on the caller's `{other}`: {show(t, 100)}", where=w)


def default_bounds(ctx, c, s, o, who, n_var):
    w = f"{c.module} {c.name}.__init__"
    lo, hi = (strip(s.val(s.get(o, a))) for a in ("xl", "xu"))
    for a, t in (("xl", lo), ("xu", hi)):
        k = length(t, n_var)
        if k is None:
            ctx.ob("undetermined default bound", f"{who}.{a}: {show(t, 60)}")
            continue
        ctx.ob("default bound length", f"{who}.{a}: {k}")
        want = norm(lin(n_var, n_var))
        if k != "scalar" and norm(k) != want and norm(k) != {1: 1}:
            ctx.fail("default-bound-length", f"{c.name}.{a}", f"the default `{a}` has {norm(k)} entries (n = n_var), one per variable expected", where=w)
    a, b = parts(lo), parts(hi)
    if a and b and (len(a) == len(b) or len(a) == 1 or len(b) == 1):
        ctx.ob("default bounds ordered", f"{who}: {a} <= {b}")
        n = max(len(a), len(b))
        a, b = a * n if len(a) == 1 else a, b * n if len(b) == 1 else b
        if any(x >= y for x, y in zip(a, b)):
            ctx.fail("default-bound-order", c.name, f"a default lower bound {a} is not below the upper bound {b}", where=w)


def used(ctx, c, s, o, names, given, who, ev):
    """every argument reaches the object or a branch"""
    f = s.fields(o)
    seen = set()
    for v in f.values():
        if isinstance(v, T):
            for x in subterms(s.val(v)):
                if x.tag == "op" and x.a[0] == "sym":
                    seen.add(kval(x.a[1]))
            for x in subterms(v):
                if x.tag == "ref" and x.a[0].kind == "param":
                    seen.add(x.a[0].root or x.a[0].label)
    for e in ev:
        for g in e.guards:
            seen |= syms(g[0])
    for n in names:
        if n in given:
            ctx.ob("constructor argument reaches the object", f"{who}({n})")
            if n not in seen and n not in ("n_obj", "n_var"):
                ctx.fail("ignored-argument", f"{c.name}.{n}", f"the constructor argument `{n}` never reaches the problem", where=f"{c.module} {c.name}.__init__")


def concat_parts(t):
    if call_name(t) in ("numpy.concatenate", "numpy.hstack", "numpy.r_", "numpy.append"):
        p = t.a[2:]
        if len(p) == 1 and p[0].tag == "op" and p[0].a[0] in ("tuple", "list"):
            p = p[0].a[1:]
        elif len(p) == 1 and p[0].tag == "tup":
            p = p[0].a
        out = []
        for x in p:
            if x.tag == "op" and x.a[0] == "kw":
                continue
            q = concat_parts(x)
            out += q if q else [x]
        return out
    return None


def boundary(ctx, c):
    names = ctor_names(c)
    if "boundary_constraints" not in names:
        return
    res = {}
    for b in (False, True):
        s = ctx.session(f"{c.name}[boundary={b}]")
        o = scen.new_problem(s, c, over={"boundary_constraints": K(b)})
        x = s.param("x", "array")
        n = s.val(s.get(o, "n_ieq_constr"))
        n_var = s.val(s.get(o, "n_var"))
        own = None
        if not (is_k(n) and kval(n) == 0) and s.has(o, RAW["ieq"]) and not b:
            own = s.val(s.method(o, POINT["ieq"], [x]))
        t = s.val(s.method(o, POINT["ieq"], [x])) if b else None
        neg = {}
        if b:
            I = s.I
            node = s.node()
            for a in ("xl", "xu"):
                bound = s.get(o, a)
                neg[a] = s.val(I.binop(node, "Sub", *((bound, x) if a == "xl" else (x, bound)), s.st, s.fr))
        res[b] = (n, n_var, own, t, neg, s)
    n0, nv, own, _, _, _ = res[False]
    n1, nv1, _, t, neg, s = res[True]
    w = f"{c.module} {c.name}"
    l0, l1 = norm(lin(n0, nv)), norm(lin(n1, nv1))
    ctx.ob("boundary constraint count", f"{c.name}: {show(n0, 40)} -> {show(n1, 40)}")
    if l0 is not None and l1 is not None:
        two = norm({k: 2 * v for k, v in (lin(nv1, nv1) or {}).items()})
        diff = dict(l1)
        for k, v in l0.items():
            diff[k] = diff.get(k, 0) - v
        if norm(diff) != two:
            ctx.fail("boundary-count", c.name, f"with boundary constraints the inequality count changes from {show(n0, 60)} to {show(n1, 60)}; two per variable expected", where=w)
    p = concat_parts(t)
    if p is None or fuzzy(t):
        ctx.ob("undetermined boundary constraints", f"{c.name}: {show(t, 80)}")
        return
    ctx.ob("boundary constraint function", f"{c.name}: {len(p)} parts")
    for a, label in (("xl", "xl - x"), ("xu", "x - xu")):
        if neg[a] not in p:
            ctx.fail("boundary-function", f"{c.name}:{a}", f"the boundary constraints do not contain {label}: {show(t, 160)}", where=w)
    own_n = norm(lin(n0, nv))
    rest = [x for x in p if x not in neg.values()]
    if own_n != {} and own_n is not None:
        if not rest:
            ctx.fail("boundary-function", f"{c.name}:own", "the problem's own inequality constraints are lost when boundary constraints are added", where=w)
        elif any(p.index(r) > min(p.index(v) for v in neg.values() if v in p) for r in rest if any(v in p for v in neg.values())):
            ctx.fail("boundary-function", f"{c.name}:order", "the problem's own inequality constraints do not come before the boundary constraints", where=w)


def configs(names):
    yield "all given", set(names)
    if {"xl", "xu"} <= set(names):
        yield "lower bound only", {"n_var", "xl"} & set(names)
        yield "upper bound only", {"n_var", "xu"} & set(names)
    yield "n_var only", {"n_var"} & set(names)


def problem(ctx, c):
    names = ctor_names(c)
    for label, keep in configs(names):
        s = ctx.session(f"{c.name}[{label}]")
        fo = scen.ctor_of(c)
        given = {p.arg: s.param(p.arg, scen.origin_of(p)) for p in scen.params_of(fo) if p.arg in keep}
        o = scen.new_problem(s, c, over=given, omit=[n for n in names if n not in keep])
        ev = s.take()
        who = f"{c.name}[{label}]"
        dims(ctx, c, s, o, who, given)
        if label == "all given":
            used(ctx, c, s, o, names, given, who, ev)
        if label == "n_var only":
            default_bounds(ctx, c, s, o, who, s.val(s.get(o, "n_var")))
    boundary(ctx, c)


def outputs(ctx, c):
    """the objective and constraint functions return as many values as the problem publishes"""
    names = ctor_names(c)
    s = ctx.session(f"{c.name}[outputs]")
    o = scen.new_problem(s, c, over={"boundary_constraints": K(False)} if "boundary_constraints" in names else {})
    for kind, cnt in (("objective", "n_obj"), ("eq", "n_eq_constr"), ("ieq", "n_ieq_constr")):
        if not s.has(o, RAW[kind]) or cnt not in s.fields(o):
            continue
        n = strip(s.val(s.get(o, cnt)))
        if is_k(n) and kval(n) == 0:
            continue
        t = s.val(s.method(o, RAW[kind], [s.param("x", "array")]))
        for u in t.a[0] if t.tag == "phi" else (t,):
            k = None
            if u.tag == "op" and u.a[0] == "list":
                k = len(u.a) - 1
            else:
                p = concat_parts(u) if call_name(u) in ("numpy.hstack",) else None
                k = len(p) if p else None
            if k is None or not is_k(n):
                ctx.ob("undetermined output size", f"{c.name}.{RAW[kind]}")
                continue
            ctx.ob("output size", f"{c.name}.{RAW[kind]}: {k}")
            if k != kval(n):
                ctx.fail("output-size", f"{c.name}.{RAW[kind]}", f"{RAW[kind]} returns {k} values but the problem publishes {cnt}={kval(n)}", where=f"{c.module} {c.name}")


def child_attr(t):
    """attribute of the caller's pymoo problem a term stands for"""
    out = set()
    for x in subterms(t):
        if x.tag == "ref" and x.a[0].kind == "param" and "." in (x.a[0].label or ""):
            out.add(x.a[0].label.split(".")[-1])
        if x.tag == "extm":
            out.add(x.a[1])
        if x.tag == "op" and x.a[0] == "attr" and is_k(x.a[2]):
            out.add(kval(x.a[2]))
        if x.tag == "op" and x.a[0] == "sym":
            v = str(kval(x.a[1]))
            if "." in v:
                out.add(v.split(".")[-1])
    return out & set(ROLES)


def pymoo(ctx):
    w = ctx.w
    c = w.find_class("_PymooBackedProblem")
    s = ctx.session("pymoo-backed problem")
    o = scen.new_problem(s, c, over={"boundary_constraints": K(False)})
    for a in ROLES:
        t = s.get(o, a)
        at = child_attr(s.val(t)) | child_attr(t)
        ctx.ob("pymoo role", f"{c.name}.{a} <- {sorted(at)}")
        if a in ("xl", "xu"):
            at -= {"n_var"}
        if at != {a} and (at or not fuzzy(s.val(t))):
            ctx.fail("pymoo-role", f"{c.name}.{a}", f"`{a}` of the adapted problem comes from {sorted(at)} of the pymoo problem", where=f"{c.module} {c.name}")
    for name in ("Eq1DTLZ1", "CF1", "ZDT1"):
        k = w.find_class(name)
        s = ctx.session(f"pymoo view of {name}")
        names = ctor_names(k)
        o = scen.new_problem(s, k, over={"boundary_constraints": K(True)} if "boundary_constraints" in names else {})
        s.take()
        a = s.method(o, "as_pymoo_problem")
        where = f"{a.a[0].cls.module} {a.a[0].cls.name}"
        kw = None
        for e in s.take():
            if e.kind == "extcall" and e.kwargs and "n_var" in e.kwargs:
                kw = {n: s.val(v) for n, v in e.kwargs.items()}
        if kw is None:
            ctx.ob("undetermined pymoo constructor", name)
            continue
        f = s.fields(o)
        for r in ROLES:
            have = s.val(s.get(o, r)) if r in f else K(0)
            ctx.ob("pymoo role", f"view of {name}.{r}")
            if r not in kw:
                if not (is_k(have) and kval(have) == 0):
                    ctx.fail("pymoo-role", f"view.{r}", f"the pymoo view is not told the problem's `{r}`", where=where)
            elif kw[r] is not have and not fuzzy(kw[r]):
                ctx.fail("pymoo-role", f"view.{r}", f"the pymoo view's `{r}` is {show(kw[r], 80)} instead of the problem's {show(have, 80)}", where=where)


FIXTURE = '''
import numpy as np
import jax.numpy as jnp
class MOP:
    def __init__(self, n_var, n_obj, xl, xu):
        self.n_var, self.n_obj = int(n_var), n_obj
        self.xl = np.broadcast_to(np.asarray(xl), (self.n_var,)).copy()
        self.xu = np.broadcast_to(np.asarray(xu), (self.n_var,)).copy()
class P(MOP):
    default_n_obj = 2
    def __init__(self, n_var=10, n_obj=None, xl=None, xu=1.0, scale=1.0, boundary_constraints=False):
        xl = np.r_[0, np.full(n_var, -1.0)] if xl is None else xl
        super().__init__(n_var, 2, xl=xu, xu=xl)
        self.n_ieq_constr = 1
        self.boundary = boundary_constraints
        if boundary_constraints:
            self.n_ieq_constr += self.n_var
    def _objective(self, x):
        return jnp.array([x[0], x[1], x[2]])
    def _ieq_constraint(self, x):
        return jnp.array([x[0]])
    def ieq_constraint(self, x):
        return jnp.concatenate([x - self.xl, x - self.xu, self._ieq_constraint(x)]) if self.boundary else self._ieq_constraint(x)
'''


def selftest(ctx):
    from ..framework import Ctx

    c = Ctx(ctx.prop)
    c._w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/base.py": FIXTURE})
    k = c.w.find_class("P")
    problem(c, k)
    outputs(c, k)
    rules = {f.rule for f in c.findings.values()}
    want = {"wrong-bound", "default-bound-length", "ignored-argument", "boundary-count", "boundary-function", "output-size"}
    ctx.need(want <= rules, f"self-test: got {sorted(c.findings)}")
    ctx.selftests.append("fixture with swapped bounds, a default bound one entry too long, an ignored argument, wrong boundary count/function and wrong output size: all rules fire")


def run(ctx):
    ctx.rule("published n_var/n_obj/xl/xu/counts == constructor arguments (value numbers); boundary constraints == own + (xl - x) + (x - xu); count + 2 n_var; pymoo roles")
    cls = [c.name for c in scen.problems(ctx.w)]

    def job(c, j):
        if j == "":
            pymoo(c)
        else:
            k = c.w.find_class(j)
            problem(c, k)
            outputs(c, k)

    ctx.parallel(cls + [""], job, weight=lambda j: 1)
    ctx.at_least("published dimension", 300)
    ctx.at_least("published bound", 300)
    ctx.at_least("default bound length", 60)
    ctx.at_least("boundary constraint function", 40)
    ctx.at_least("output size", 15)
    ctx.at_least("pymoo role", 12)
