"""Point, batch and derivative evaluations of every problem are evaluations of the same function."""

from .. import scen
from ..interp import AnalysisError
from ..prov import PEEL_CALLS
from ..terms import Ext, K, Op, T, is_k, kval, show, size_of, subterms

EXPLANATION = (
    "Every problem class is constructed abstractly (with and without boundary constraints) and each public evaluation "
    "method is interpreted on a symbolic point or population. The result is decomposed into its transformations (row map, "
    "derivative, reshape, permutation) and its core term. Decided: the core is the value number of the class's own "
    "objective/equality/inequality function at that point (row); a batch method maps rows exactly once, outside the "
    "derivative; a Jacobian differentiates exactly once, a Hessian exactly twice; the result is only reshaped to "
    "(rows,) outputs (, variables)(, variables) in that order; the pymoo view publishes objective, equality and inequality "
    "values under F, H and G, and the pymoo-backed problem reads them from there."
)
ASSUMPTIONS = [
    "jax.jit is semantics-preserving; jax.vmap maps rows; jacrev/jacfwd differentiate",
    "the problem functions themselves are deterministic (randomness is the subject of C13)",
]

PERMUTE = {"T", "transpose", "swapaxes", "moveaxis", "flip"}
SAME_CALLS = PEEL_CALLS | {"numpy.stack", "numpy.vstack", "jax.numpy.stack", "jax.numpy.vstack"}
ARITH = {"neg", "add", "mul", "bin", "sub"}
KINDS = ("objective", "eq", "ieq")
POINT = {"objective": "objective", "eq": "eq_constraint", "ieq": "ieq_constraint"}
RAW = {"objective": "_objective", "eq": "_eq_constraint", "ieq": "_ieq_constraint"}
COUNT = {"objective": "n_obj", "eq": "n_eq_constr", "ieq": "n_ieq_constr"}


def call_name(t):
    if t.tag == "op" and t.a[0] == "call" and len(t.a) > 2 and isinstance(t.a[1], T) and t.a[1].tag == "ext":
        return t.a[1].a[0]
    return None


def decompose(t, cores):
    """(transformations from the outside in, shapes, core term) ; stops at a known core"""
    ops, shapes = [], []
    while t not in cores and t.tag == "op":
        n = t.a[0]
        if n == "reshape":
            sh = t.a[2:]
            if len(sh) == 1 and sh[0].tag == "op" and sh[0].a[0] == "tuple":
                sh = sh[0].a[1:]
            shapes.append((len(ops), sh))
            t = t.a[1]
        elif n in ("vmap", "listof"):
            ops.append("rows")
            t = t.a[1]
        elif n == "deriv":
            k = kval(t.a[1])
            ops += ["d", "d"] if k == "hessian" else ["d"]
            if any(x.tag == "op" and x.a[0] == "kw" and kval(x.a[1]) == "argnums" and not (is_k(x.a[2]) and kval(x.a[2]) == 0) for x in t.a[3:] if isinstance(x, T)):
                ops.append("argnums")
            t = t.a[2]
        elif n in PERMUTE:
            ops.append("permuted")
            t = t.a[1]
        elif call_name(t) in SAME_CALLS:
            t = t.a[2]
        else:
            break
    return ops, shapes, t


def strip_core(t):
    """a value up to flattening and array conversion"""
    while t.tag == "op":
        if t.a[0] in ("ravel", "flatten", "at1") or (t.a[0] == "reshape" and len(t.a) == 3 and is_k(t.a[2]) and kval(t.a[2]) == -1):
            t = t.a[1]
        elif call_name(t) in PEEL_CALLS:
            t = t.a[2]
        else:
            break
    return t


def fuzzy(t):
    return any(x.tag in ("top", "phi") for x in subterms(t))


def dim_ok(t, want):
    """does a reshape extent denote the wanted dimension? None = cannot tell"""
    if t is want:
        return True
    if is_k(t) and kval(t) == -1:
        return True
    a, b = t, want
    # int(n) and n denote the same extent
    for _ in range(2):
        if a.tag == "op" and a.a[0] == "int":
            a = a.a[1]
        if b.tag == "op" and b.a[0] == "int":
            b = b.a[1]
    if a is b:
        return True
    if b.tag == "phi" and a in b.a[0]:
        return True
    return False


def check_value(ctx, who, method, t, core, order, rows, dims, where):
    """t must be the order-th derivative of core (mapped over rows), reshaped to dims"""
    want = (["rows"] if rows is not None else []) + ["d"] * order
    cores = {core, strip_core(core)}
    ops, shapes, got = decompose(t, cores)
    ctx.ob("evaluation decomposed", f"{who}.{method}: {'.'.join(ops) or 'value'} of {show(got, 60)}")
    site = f"{who}.{method}"
    if got not in cores and strip_core(got) not in cores:
        if fuzzy(got) or fuzzy(core):
            # joins or widened values on either side: identity of value numbers proves equality, difference proves nothing
            ctx.ob("undetermined evaluation", f"{site}: {show(got, 80)}")
            return
        ctx.fail("different-function", site, f"{method} does not evaluate the problem's own function: it computes {show(got, 120)} instead of {show(core, 120)}", where=where)
        return
    if ops != want:
        names = {"rows": "map over rows", "d": "derivative", "permuted": "axis permutation", "argnums": "derivative in another argument"}
        fmt = lambda o: " of ".join(names[x] for x in o) or "plain value"
        ctx.fail("wrong-derivative", site, f"{method} is the {fmt(ops)}; expected the {fmt(want)}", where=where)
        return
    for depth, sh in shapes:
        if len(ops) and depth > 0:
            # an inner reshape of the per-point value: compare against the per-point dims
            exp = dims[(1 if rows is not None and depth >= 1 else 0):]
        else:
            exp = dims
        if len(sh) == 1 and is_k(sh[0]) and kval(sh[0]) == -1 and depth >= len(ops):
            continue
        if depth not in (0, 1 if rows is not None else 0):
            continue
        ctx.ob("reshape of a derivative", f"{site} -> ({', '.join(show(x, 30) for x in sh)})")
        if len(sh) != len(exp):
            ctx.fail("wrong-shape", site, f"{method} returns {len(sh)} axes, expected {len(exp)}", where=where)
            continue
        for i, (a, b) in enumerate(zip(sh, exp)):
            if not dim_ok(a, b):
                ctx.fail("wrong-shape", site, f"axis {i} of {method} has extent {show(a, 60)}, expected {show(b, 60)}", where=where)


def elem(s, X):
    return s.I.elem(X, s.node(), s.st, s.fr)


def has_kind(s, o, kind):
    if not s.has(o, POINT[kind]):
        return False
    if kind == "objective":
        return True
    n = s.val(s.get(o, COUNT[kind]))
    return not (is_k(n) and kval(n) == 0)


def problem(ctx, c, boundary):
    s = ctx.session(f"{c.name}[boundary={boundary}]")
    names = [p.arg for p in scen.params_of(scen.ctor_of(c))]
    over = {"boundary_constraints": K(boundary)} if "boundary_constraints" in names else {}
    o = scen.new_problem(s, c, over=over)
    n_var = s.val(s.get(o, "n_var"))
    for kind in KINDS:
        if not has_kind(s, o, kind):
            continue
        n_out = s.val(s.get(o, COUNT[kind]))
        x = s.param("x", "array")
        X = s.param("X", "array")
        xe = elem(s, X)
        pt = s.val(s.method(o, POINT[kind], [x]))
        pe = s.val(s.method(o, POINT[kind], [xe]))
        w = f"{c.module} {c.name}"
        # the point evaluation is the class's own function
        if s.has(o, RAW[kind]) and not (kind == "ieq" and boundary):
            raw = s.val(s.method(o, RAW[kind], [x]))
            check_value(ctx, c.name, POINT[kind], pt, raw, 0, None, (n_out,), w)
        for suffix, order in (("jacobian", 1), ("hessian", 2)):
            dims = (n_out,) + (n_var,) * order
            m = f"{kind}_{suffix}"
            if s.has(o, m):
                check_value(ctx, c.name, m, s.val(s.method(o, m, [x])), pt, order, None, dims, w)
            m += "_batch"
            if s.has(o, m):
                check_value(ctx, c.name, m, s.val(s.method(o, m, [X])), pe, order, X, (rows_of(s, X),) + dims, w)
        m = f"{POINT[kind]}_batch"
        if s.has(o, m):
            check_value(ctx, c.name, m, s.val(s.method(o, m, [X])), pe, 0, X, (rows_of(s, X), n_out), w)
    s.take()


def rows_of(s, X):
    return Op("len", s.val(X))


PYMOO_KEYS = {"F": "objective_batch", "H": "eq_constraint_batch", "G": "ieq_constraint_batch"}


def adapter(ctx, cname):
    """the pymoo view publishes each quantity under its own key"""
    w = ctx.w
    s = ctx.session(f"pymoo view of {cname}")
    c = w.find_class(cname)
    names = [p.arg for p in scen.params_of(scen.ctor_of(c))]
    o = scen.new_problem(s, c, over={"boundary_constraints": K(True)} if "boundary_constraints" in names else {})
    a = s.method(o, "as_pymoo_problem")
    if a.tag != "ref" or a.a[0].cls is None:
        raise AnalysisError("as_pymoo_problem no longer returns an adapter object")
    out = s.param("out", "dict")
    X = s.param("X", "array")
    s.take()
    s.method(a, "_evaluate", [X, out])
    got = {}
    for e in s.take():
        if e.kind == "store" and e.loc is out.a[0] and e.idx is not None and is_k(e.idx):
            got.setdefault(kval(e.idx), []).append((e.valnum, e.where))
    X2 = s.call(Ext("numpy.atleast_2d"), [X])
    for key, m in PYMOO_KEYS.items():
        kind = {"F": "objective", "H": "eq", "G": "ieq"}[key]
        if not has_kind(s, o, kind):
            continue
        if key not in got:
            ctx.fail("pymoo-key", f"{cname}:{key}", f"the pymoo view never publishes `{key}`", where=f"{a.a[0].cls.module} {a.a[0].cls.name}._evaluate")
            continue
        pts = [s.val(s.method(o, POINT[kind], [elem(s, v)])) for v in (X, X2)]
        for t, where in got[key]:
            ctx.ob("pymoo key", f"{cname}.{key}")
            ok = False
            for p in pts:
                ops, _, core = decompose(t, {p, strip_core(p)})
                ok = ok or (core in (p, strip_core(p)) and ops == ["rows"])
            if not ok and not fuzzy(t):
                ctx.fail("pymoo-key", f"{cname}:{key}", f"`{key}` is not the population's {POINT[kind]} values: {show(t, 120)}", where=where)


def backed(ctx):
    """the pymoo-backed problem reads objective / equality / inequality values from F / H / G"""
    w = ctx.w
    s = ctx.session("pymoo-backed problem")
    c = w.find_class("_PymooBackedProblem")
    o = scen.new_problem(s, c, over={"boundary_constraints": K(False)})
    s.take()
    for kind, key in (("objective", "F"), ("eq", "H"), ("ieq", "G")):
        x = s.param("x", "array")
        s.take()
        s.method(o, RAW[kind], [x])
        keys = set()
        for e in s.take():
            if e.kind == "enter":
                for v in e.bound.values():
                    if isinstance(v, T) and is_k(v) and kval(v) in PYMOO_KEYS:
                        keys.add(kval(v))
            if e.kind == "missing_key" and is_k(e.key):
                keys.add(kval(e.key))
        ctx.ob("pymoo key", f"{c.name}.{RAW[kind]} reads {sorted(keys)}")
        if keys and keys != {key}:
            ctx.fail("pymoo-key", f"{c.name}.{RAW[kind]}", f"{RAW[kind]} reads pymoo output {sorted(keys)}, expected {key!r}", where=f"{c.module} {c.name}")


FIXTURE = '''
import numpy as np
import jax.numpy as jnp
from jax import jit, vmap, jacrev, jacfwd
class MOP:
    def __init__(self, n_var, n_obj, xl, xu):
        self.n_var, self.n_obj, self.xl, self.xu = n_var, n_obj, xl, xu
        self._f = jit(self._objective)
    def objective(self, x):
        return np.array(self._f(x))
    def objective_batch(self, X):
        return np.asarray(vmap(self._objective)(X * 2))
    def objective_jacobian(self, x):
        return np.array(jacrev(jacfwd(self._f))(x))
    def objective_jacobian_batch(self, X):
        return np.array(vmap(jacrev(self._f))(X)).reshape(len(X), self.n_var, self.n_obj)
class P(MOP):
    def _objective(self, x):
        return jnp.array([jnp.sum(x**2), jnp.sum((x - 1)**2)])
'''


def selftest(ctx):
    from ..framework import Ctx

    c = Ctx(ctx.prop)
    c._w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/base.py": FIXTURE})
    problem(c, c.w.find_class("P"), False)
    rules = {f.rule for f in c.findings.values()}
    ctx.need({"different-function", "wrong-derivative", "wrong-shape"} <= rules, f"self-test: got {sorted(c.findings)}")
    ctx.selftests.append("fixture whose batch evaluates another function, whose Jacobian is a Hessian and whose batch Jacobian is scrambled: all three rules fire")


def run(ctx):
    ctx.rule("core(evaluation) is the class's own function at the same point; transformations == [rows] + derivatives; extents in order; pymoo keys F/H/G")
    w = ctx.w
    cls = [c for c in scen.problems(w)]
    back = w.find_class("_PymooBackedProblem")
    jobs = [("p", c.name, b) for c in cls + [back] for b in (False, True)]
    jobs += [("a", c.name, None) for c in cls] + [("b", "", None)]

    def job(c, j):
        if j[0] == "p":
            k = c.w.find_class(j[1])
            if j[2] and "boundary_constraints" not in [p.arg for p in scen.params_of(scen.ctor_of(k))]:
                return
            problem(c, k, j[2])
        elif j[0] == "a":
            adapter(c, j[1])
        else:
            backed(c)

    ctx.parallel(jobs, job, weight=lambda j: 1)
    ctx.at_least("evaluation decomposed", 600)
    ctx.at_least("pymoo key", 40)
