"""Entry points of the analysed library, as abstract runs over symbolic arguments.

The catalogue is derived from the analysed program itself (constructor signatures, class hierarchy, public
functions); only the names of the public API are fixed here, and one that vanishes is an analysis error.
"""

import ast

from .interp import AnalysisError
from .terms import K, Top, mk
from .world import Session

SCALAR_INT = {"n_var", "n_obj", "N", "dim", "Nf", "minpts", "interval", "last_n", "n_eq", "n_ieq", "n_samples", "nr_of_points", "k", "n_points", "seed", "kind", "n_component"}
BOOLS = {
    "verbose", "preconditioning", "limit_max_step_size", "minimization", "compute_hessian", "boundary_constraints", "matching",
    "plot", "with_rsg", "save_reference_set", "save_population", "return_index", "only_front_indices", "weakly", "compute_gradient", "equalities",
}
FLOATS = {"xtol", "eta_", "alpha", "eps", "theta", "beta", "p", "aspiration", "tol", "stationarity_tol", "feasibility_tol", "active_tol"}
STRS = {"filename", "name", "type", "path", "problem_name", "logger_id"}
CALLABLES = {"func", "jac", "hessian", "hess", "h", "h_jac", "h_hessian", "h_hess", "g", "g_jac", "g_hessian", "g_hess", "f", "phi_func", "ieq_func", "function", "fun", "kernel"}


def ann_text(a):
    try:
        return ast.unparse(a) if a is not None else ""
    except Exception:
        return ""


def origin_of(arg):
    """what kind of symbolic argument a parameter stands for"""
    t = ann_text(arg.annotation)
    n = arg.arg
    tl = t.lower()
    if n in BOOLS or t == "bool":
        return "bool"
    if n in CALLABLES or "callable" in tl or tl in ("arrayfunction", "jaxfunction", "arrayfunction | none", "jaxfunction | none"):
        return "callable"
    if n in STRS or t == "str":
        return "str"
    if "ndarray" in tl or "arraylike" in tl or "list[" in tl:
        return "array"
    if n in SCALAR_INT or t in ("int", "int | None", "Union[int, str]"):
        return "int"
    if n in FLOATS or t == "float":
        return "float"
    if "dict" in tl or n == "metrics":
        return "dict"
    return "array"


def ctor_of(cls):
    init, owner = cls.lookup("__init__")
    while init is not None and init.tag == "wrap":
        init = init.a[1]
    return init.a[0] if init is not None and init.tag == "fn" else None


def params_of(fo, skip_self=True):
    a = fo.node.args
    ps = a.posonlyargs + a.args
    if skip_self and fo.cls is not None and ps:
        ps = ps[1:]
    return ps + a.kwonlyargs


def args_for(s, fo, omit=(), over=None, prefix="", skip_self=True):
    kw = {}
    for p in params_of(fo, skip_self):
        if p.arg in omit:
            continue
        if over and p.arg in over:
            kw[p.arg] = over[p.arg]
        else:
            kw[p.arg] = s.param(prefix + p.arg, origin_of(p))
    return kw


def method_args(s, cls, name, prefix="", over=None, only_required=False):
    """symbolic arguments for a method; with ``only_required`` the optional ones keep their defaults"""
    m, _ = cls.lookup(name)
    while m is not None and m.tag == "wrap":
        m = m.a[1]
    if m is None or m.tag != "fn":
        raise AnalysisError(f"{cls.name}.{name} has vanished")
    fo = m.a[0]
    omit = set()
    if only_required:
        a = fo.node.args
        pos = a.posonlyargs + a.args
        n = len(pos) - len(a.defaults)
        omit = {p.arg for p in pos[n:]} | {p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        omit -= set(over or {})
    names = {p.arg for p in params_of(fo)}
    return args_for(s, fo, omit, {k: v for k, v in (over or {}).items() if k in names}, prefix)


OPTIMIZERS = ["HVN", "DpN", "MMDNewton", "Lara"]
STEP = {}


def step_method(w, cls):
    """the method that performs one iteration: the one ``run`` calls in its loop besides log/terminate"""
    run, _ = cls.lookup("run")
    if run is None or run.tag != "fn":
        raise AnalysisError(f"{cls.name}.run has vanished")
    pub = []
    for n in ast.walk(run.a[0].node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
            if n.func.attr not in ("log", "terminate") and n.func.attr not in pub:
                pub.append(n.func.attr)
    for cand in ("iterate", "newton_iteration", "iteration", "step"):
        if cls.lookup(cand)[0] is not None:
            return cand
    if len(pub) == 1:
        return pub[0]
    raise AnalysisError(f"cannot identify the iteration method of {cls.name}: {pub}")


CSTR = ("h", "h_jac", "h_hessian", "g", "g_jac", "g_hessian")


def optimizer(s, kind, variant="full", over=None, leave=()):
    """abstract optimizer instance.

    variants: full     - every argument supplied
              bare     - only the required arguments (unconstrained, random start)
              eq / ieq - only one kind of constraint
    """
    cls = s.w.find_class(kind)
    fo = ctor_of(cls)
    if fo is None:
        raise AnalysisError(f"{kind} has no constructor")
    over = dict(over or {})
    names = [p.arg for p in params_of(fo)]
    if "ref" in names and kind != "HVN" and "ref" not in over:
        over["ref"] = reference_set(s)
    omit = set()
    if variant == "bare":
        n = len(fo.node.args.args) - 1 - len(fo.defaults)
        omit = set(names[n:])
    elif variant == "eq":
        omit = {n for n in names if n in ("g", "g_jac", "g_hessian")}
    elif variant == "ieq":
        omit = {n for n in names if n in ("h", "h_jac", "h_hessian")}
    omit -= set(over)
    omit |= set(leave)
    kw = args_for(s, fo, omit, over)
    return s.new(cls, [], kw)


def reference_set(s, variant="array"):
    cls = s.w.find_class("ReferenceSet")
    fo = ctor_of(cls)
    if variant == "array":
        return s.new(cls, [s.param("refset", "array")])
    if variant == "array+eta":
        return s.new(cls, [], args_for(s, fo, over={"ref": s.param("refset", "array"), "eta": s.param("eta", "dict")}, omit=("plot",)))
    return s.new(cls, [], args_for(s, fo, over={"ref": s.param("refset", "dict"), "eta": s.param("eta", "dict")}, omit=("plot",)))


def drive(s, obj, kind, rounds=2):
    step = step_method(s.w, s.w.find_class(kind))
    for _ in range(rounds):
        s.method(obj, step)
        s.method(obj, "log")
        s.method(obj, "terminate")


class Scn:
    def __init__(self, name, fn, full=False, heavy=True):
        self.name, self.fn, self.full, self.heavy = name, fn, full, heavy


def catalogue(w, thorough=False):
    out = []

    def add(name, fn, **k):
        out.append(Scn(name, fn, **k))

    for k in OPTIMIZERS:
        w.find_class(k)
        for v in ("full", "bare"):
            add(f"{k}[{v}]", lambda s, k=k, v=v: drive(s, optimizer(s, k, v), k))
        add(f"{k}.run", lambda s, k=k: s.method(optimizer(s, k, "full", {"max_iters": s.param("max_iters", "int")}), "run"), full=True)
    add("State", _state)
    add("HypervolumeDerivatives", _hv)
    for c in ("GenerationalDistance", "InvertedGenerationalDistance"):
        add(c, lambda s, c=c: _dist(s, c))
    for c in ("MMD", "MMDMatching"):
        add(c, lambda s, c=c: _mmd(s, c))
    for v in ("array", "array+eta", "dict"):
        add(f"ReferenceSet[{v}]", lambda s, v=v: _refset(s, v))
        add(f"ReferenceSet[{v}] unmatched", lambda s, v=v: _refset_unmatched(s, v))
    add("bootstrap", _bootstrap)
    for c in problems(w):
        add(f"problem {c.name}", lambda s, c=c: drive_problem(s, c))
    done = {sc.name for sc in out}
    for m, fo in public_functions(w):
        add(f"{m}.{fo.name}", lambda s, fo=fo: s.call(mk("fn", fo), [], args_for(s, fo)), heavy=False)
    for c in other_classes(w):
        add(f"class {c.name}", lambda s, c=c: drive_class(s, c))
    return out


def run_catalogue(w, thorough=False, only=None, record=None):
    """yield (scenario, session, events)"""
    heavy = w.heavy()
    for sc in catalogue(w, thorough):
        if sc.full and not thorough:
            continue
        if only is not None and not only(sc):
            continue
        w.interp.opaque = heavy if sc.heavy else frozenset()
        s = Session(w)
        sc.fn(s)
        yield sc, s, s.take()


def _state(s):
    cls = s.w.find_class("State")
    st = s.new(cls, [], args_for(s, ctor_of(cls)))
    X = s.param("X", "array")
    s.method(st, "update", [X])
    s.method(st, "update_one", [s.param("x", "array"), s.param("k", "int")])
    for m in ("is_feasible", "check_KKT"):
        if s.has(st, m):
            s.method(st, m)
    s.method(st, "__getitem__", [s.param("indices", "array")])
    for m in ("save",):
        if s.has(st, m):
            s.method(st, m, [s.param("filename", "str")])
    if s.has(st, "load"):
        s.call(s.I.getattr_(mk("cls", cls), "load", s.node(), s.st, s.fr), [s.param("filename", "str")])


def _kw(s, cls, name, **over):
    m, _ = cls.lookup(name)
    while m is not None and m.tag == "wrap":
        m = m.a[1]
    if m is None or m.tag != "fn":
        raise AnalysisError(f"{cls.name}.{name} has vanished")
    return args_for(s, m.a[0], over=over)


def _hv(s):
    cls = s.w.find_class("HypervolumeDerivatives")
    o = s.new(cls, [], args_for(s, ctor_of(cls)))
    s.method(o, "compute_derivatives", [], _kw(s, cls, "compute_derivatives"))
    s.method(o, "compute_derivatives", [s.param("X")])
    s.method(o, "compute", [], _kw(s, cls, "compute"))
    s.method(o, "compute", [s.param("X")])
    s.set(o, "ref", s.param("ref2", "array"))
    if s.has(o, "compute_automatic_differentiation"):
        s.method(o, "compute_automatic_differentiation", [s.param("X")])


def _dist(s, name):
    cls = s.w.find_class(name)
    o = s.new(cls, [], args_for(s, ctor_of(cls)))
    s.method(o, "compute", [], _kw(s, cls, "compute"))
    s.method(o, "compute", [s.param("X")])
    s.method(o, "compute_derivatives", [], _kw(s, cls, "compute_derivatives"))
    s.method(o, "compute_derivatives", [s.param("X")])
    o2 = s.new(cls, [], args_for(s, ctor_of(cls), over={"ref": reference_set(s)}))
    s.method(o2, "compute", [], _kw(s, cls, "compute"))
    s.method(o2, "compute_derivatives", [], _kw(s, cls, "compute_derivatives"))


def _mmd(s, name):
    cls = s.w.find_class(name)
    for ref in ("array", "set"):
        over = {"ref": reference_set(s)} if ref == "set" else {}
        o = s.new(cls, [], args_for(s, ctor_of(cls), over=over, omit=("kernel",)))
        for m in ("compute", "compute_derivatives", "compute_gradient", "compute_hessian"):
            if s.has(o, m):
                s.method(o, m, [], _kw(s, cls, m))
                if m != "compute_hessian":
                    s.method(o, m, [s.param("X")])


def _refset(s, v):
    o = reference_set(s, v)
    s.method(o, "match", [s.param("Y", "array")])
    s.method(o, "shift", [s.param("c", "float"), s.param("indices", "array")])
    s.method(o, "match", [s.param("Y", "array")])
    if s.has(o, "set_medoids"):
        s.method(o, "set_medoids", [s.param("medroid", "array"), s.param("k", "int")])
    s.get(o, "reference_set")


def _refset_unmatched(s, v):
    """shift before any matching took place, then query"""
    o = reference_set(s, v)
    s.method(o, "shift", [s.param("c", "float")])
    s.get(o, "reference_set")


def _bootstrap(s):
    f = s.w.find_func("bootstrap_reference_set")
    fo = f.a[0]
    opt = optimizer(s, "MMDNewton", "full")
    prob = s.param("problem", "object")
    s.call(f, [], args_for(s, fo, over={"optimizer": opt, "problem": prob}))


def problems(w):
    mop = w.find_class("MOP")
    return [c for c in w.all_classes() if mop in c.mro and c is not mop and c.name not in ("CMOP",) and not c.name.startswith("_") and not _abstract(c)]


def _abstract(c):
    return c.lookup("_objective")[0] is None


PROBLEM_CALLS = (
    "objective", "objective_jacobian", "objective_hessian", "objective_batch", "objective_jacobian_batch", "objective_hessian_batch",
    "eq_constraint", "eq_jacobian", "eq_hessian", "eq_constraint_batch", "eq_jacobian_batch", "eq_hessian_batch",
    "ieq_constraint", "ieq_jacobian", "ieq_hessian", "ieq_constraint_batch", "ieq_jacobian_batch", "ieq_hessian_batch",
)


def new_problem(s, c, over=None, omit=()):
    fo = ctor_of(c)
    return s.new(c, [], args_for(s, fo, over=over, omit=omit)) if fo is not None else s.new(c)


def drive_problem(s, c, calls=PROBLEM_CALLS):
    o = new_problem(s, c)
    f = s.fields(o)
    for m in calls:
        if not s.has(o, m):
            continue
        if m.startswith("eq") and f.get("_eq") is not None and f["_eq"] is K(None):
            continue
        if m.startswith("ieq") and f.get("_ieq") is not None and f["_ieq"] is K(None):
            continue
        s.method(o, m, [s.param("x" if "batch" not in m else "X", "array")])
    for m in ("get_pareto_front", "get_pareto_set", "as_pymoo_problem"):
        if s.has(o, m):
            mm, _ = c.lookup(m)
            g = mm
            while g.tag == "wrap":
                g = g.a[1]
            if g.tag == "fn":
                s.method(o, m, [], args_for(s, g.a[0]))


def public_functions(w):
    for m, fr in w.frames.items():
        for name, v in w.base.heap[fr].f.items():
            f = v
            while f.tag == "wrap":
                f = f.a[1]
            if f.tag == "fn" and f.a[0].module == m and f.a[0].cls is None and not name.startswith("__"):
                if f.a[0].name == "bootstrap_reference_set":
                    continue
                yield m, f.a[0]


COVERED = {"State", "HypervolumeDerivatives", "GenerationalDistance", "InvertedGenerationalDistance", "MMD", "MMDMatching", "ReferenceSet"}


def other_classes(w):
    mop = w.find_class("MOP")
    out = []
    for c in w.all_classes():
        if mop in c.mro or c.name in COVERED or c.name in OPTIMIZERS:
            continue
        out.append(c)
    return out


def drive_class(s, c):
    """construct the class with symbolic arguments and call each of its own methods"""
    fo = ctor_of(c)
    o = s.new(c, [], args_for(s, fo)) if fo is not None else s.new(c)
    for x in c.mro:
        if not hasattr(x, "node"):
            continue
        for n in x.node.body:
            if isinstance(n, ast.FunctionDef) and n.name not in ("__init__", "__new__"):
                m, owner = c.lookup(n.name)
                g = m
                while g is not None and g.tag == "wrap":
                    g = g.a[1]
                if g is not None and g.tag == "fn" and g.a[0].node is n:
                    static = any(isinstance(d, ast.Name) and d.id in ("staticmethod", "property", "classmethod") for d in n.decorator_list)
                    if static:
                        continue
                    s.method(o, n.name, [], args_for(s, g.a[0]))
