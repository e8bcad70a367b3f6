"""Every caller-supplied callback is used in its own role, equalities before inequalities."""

from .. import entries, scen
from ..prov import ROLES, norm_role, outer_cbs, peel, phis, role_of_label
from ..interp import Cell
from ..terms import leaves_of, K, Op, T, is_k, kval, show, subterms
from ..world import Session
from .c04 import VARIANTS, full, new_state, row_index

EXPLANATION = (
    "Role (nominal type) inference for the nine callbacks a user supplies. Each is an abstract value carrying its role; the "
    "roles are propagated through constructors, attributes, batch lookup, slices and copies. Decided: (1) every binding of a "
    "callback to a parameter or attribute that is named after a role agrees with the callback's role; (2) each quantity of "
    "the population record consists of applications of the callbacks of its own role only; (3) wherever equality and "
    "inequality parts are stacked, the equality part comes first, and the accessors cut at the number of equalities; "
    "(4) the numbers of equality/inequality constraints are determined from the respective callback."
)
ASSUMPTIONS = ["a callback whose bound method has a `<name>_batch` sibling implements the same function row-wise (checked for the native problems by C06)"]

FIELD_ROLES = {
    "Y": {"func"}, "J": {"jac"}, "cstr_value": {"h", "g"}, "active_indices": {"h", "g"},
    "cstr_grad": {"h_jac", "g_jac"}, "cstr_hess": {"h_hess", "g_hess"},
}
ACCESSOR_ROLES = {"H": "h", "G": "g"}


def callable_role(v):
    """role carried by a callable value (None when it carries none)"""
    if v.tag == "ref" and v.a[0].kind == "param" and not v.a[1] and v.a[0].origin == "callable":
        r = norm_role(v.a[0].label)
        return r if r in ROLES else None
    return None


def role_class(cls):
    """a class whose constructor takes several callbacks by role (a helper with one generic `func` is not)"""
    fo = scen.ctor_of(cls) if cls is not None else None
    return fo is not None and len({norm_role(p.arg) for p in scen.params_of(fo)} & ROLES) >= 2


def bindings(ctx, events):
    for e in events:
        if e.kind == "enter":
            if e.callee.name != "__init__" or not role_class(getattr(e.callee, "cls", None)):
                continue
            for name, v in e.bound.items():
                if not isinstance(v, T):
                    continue
                for u in phis(v):
                    r = callable_role(u)
                    if r and norm_role(name) in ROLES:
                        ctx.ob("callback bound to a role-named parameter", f"{e.callee.qual}({name}={u.a[0].label})")
                        if r != norm_role(name):
                            ctx.fail("role-mismatch", f"{e.callee.qual}:{name}<-{r}", f"the {r} callback is passed as `{name}` of {e.callee.qual}", e)
        elif e.kind == "attrset":
            if not any(role_class(b.a[0].cls) for b in phis(e.base) if b.tag == "ref"):
                continue
            for u in phis(e.value) if isinstance(e.value, T) else ():
                r = callable_role(u)
                if r and norm_role(e.attr) in ROLES:
                    ctx.ob("callback stored in a role-named attribute", f"{e.where} {e.attr}={u.a[0].label}")
                    if r != norm_role(e.attr):
                        ctx.fail("role-mismatch", f"{e.func}:{e.attr}<-{r}", f"the {r} callback is stored as `{e.attr}`", e)


def stack_order(ctx, who, field, t, where):
    """in every stacking of equality and inequality parts the equality part is first"""
    for x in subterms(t):
        if x.tag != "op" or x.a[0] not in ("tuple", "list"):
            if x.tag != "tup":
                continue
            parts = x.a
        else:
            parts = x.a[1:]
        kinds = []
        for p in parts:
            if not isinstance(p, T):
                kinds.append(None)
                continue
            rs = {r.split("_")[0] for r, _, _ in outer_cbs(p)} & {"h", "g"}
            kinds.append(next(iter(rs)) if len(rs) == 1 else None)
        if "h" in kinds and "g" in kinds:
            ctx.ob("stacking of equality and inequality parts", f"{who}.{field}")
            if kinds.index("g") < max(i for i, k in enumerate(kinds) if k == "h"):
                ctx.fail("stack-order", f"{who}.{field}", f"`{field}` stacks the inequality part before the equality part", where=where)


def roles_of_fields(ctx, who, s, st, present, where):
    f = s.fields(st)
    for a, want in FIELD_ROLES.items():
        if not s.has(st, a) and a not in f:
            continue
        t = s.val(s.get(st, a))
        roles = {r for r, _, _ in outer_cbs(t)}
        ctx.ob("role of a population field", f"{who}.{a}: {sorted(roles)}")
        bad = roles - want
        if bad & ROLES:
            ctx.fail("wrong-callback", f"{who}.{a}:{','.join(sorted(bad))}", f"`{a}` is computed from the {sorted(bad)} callback(s)", where=where)
        for r in sorted(want & present):
            if r not in roles and t.tag != "top" and not any(x.tag == "top" for x in subterms(t)) and not (a == "active_indices" and r == "h"):
                ctx.fail("missing-callback", f"{who}.{a}:{r}", f"`{a}` does not contain the result of the {r} callback: {show(t, 120)}", where=where)
        stack_order(ctx, who, a, t, where)


def cut(ctx, s, st, name, field, lo, hi, where):
    """accessor == field[..., lo:hi]"""
    if not s.has(st, name):
        return
    t = s.val(s.get(st, name))
    base = s.val(s.get(st, field))
    ok = False
    if t.tag == "op" and t.a[0] == "sub" and t.a[1] is base:
        i = t.a[2]
        parts = i.a[1:] if i.tag == "op" and i.a[0] == "tuple" else i.a if i.tag == "tup" else (i,)
        if len(parts) == 2 and full(parts[0]) and parts[1].tag == "sl":
            a, b, c = parts[1].a
            N = K(None)
            a0 = K(0)
            ok = (a is lo or (lo is N and a is a0)) and b is hi
            ctx.ob("accessor cut", f"State.{name} = {field}[:, {show(a, 20)}:{show(b, 20)}]")
            if not ok:
                ctx.fail("accessor-cut", f"State.{name}", f"`{name}` is columns {show(a, 40)}:{show(b, 40)} of `{field}`, expected {show(lo, 40)}:{show(hi, 40)}", where=where)
            return
    ctx.ob("undetermined accessor", f"State.{name}: {show(t, 80)}")


COMBINED = ("cstr_value", "cstr_grad", "cstr_hess", "active_indices")


def symbols(s, st):
    """the combined quantities become symbols, so that every slice taken of them can be read off the terms"""
    out = {}
    for a in COMBINED:
        if a in s.fields(st):
            p = s.param("combined:" + a, "array")
            s.set(st, a, p)
            out[s.val(p)] = a
    return out


def slices(t, syms, seen, out):
    """slices (field, lower, upper) taken of a combined quantity, directly or of some of its rows; None if not one"""
    if isinstance(t, (tuple, frozenset)):
        for x in t:
            slices(x, syms, seen, out)
        return None
    if not isinstance(t, T):
        return None
    if t in seen:
        return seen[t]
    seen[t] = r = syms.get(t)
    if t.tag == "op" and t.a[0] == "sub":
        b = slices(t.a[1], syms, seen, out)
        slices(t.a[2], syms, seen, out)
        if b is not None:
            i = t.a[2]
            for x in i.a[1:] if i.tag == "op" and i.a[0] == "tuple" else i.a if i.tag == "tup" else (i,):
                if isinstance(x, T) and x.tag == "sl":
                    out.append((b, x.a[0], x.a[1], t))
        seen[t] = r = b
    else:
        for x in t.a:
            slices(x, syms, seen, out)
    return r


def parts(ctx, s, n_eq, n_ieq, syms, events, result, who):
    """wherever a combined quantity is cut at a constraint count, it is cut at the number of equalities"""
    seen, out = {}, []
    if isinstance(result, T):
        slices(s.val(result), syms, seen, out)
    at = {}
    for e in events:
        if e.kind in ("extcall", "store", "attrset", "enter", "callback"):
            n0 = len(out)
            for v in [*(getattr(e, "argvals", None) or ()), getattr(e, "valnum", None), getattr(e, "value", None)]:
                if isinstance(v, T):
                    slices(v if v.tag != "ref" else s.val(v), syms, seen, out)
            for x in out[n0:]:
                at.setdefault(x, e)
    counts = leaves_of(n_eq) | leaves_of(n_ieq)
    for x in out:
        f, lo, hi, t = x
        for b in (lo, hi):
            if b is None or b.tag == "k" or not (leaves_of(b) & counts):
                continue
            ctx.ob("cut of a combined quantity", f"{who}: {f} at {show(b, 30)}")
            if b is not n_eq and not any(y.tag == "top" for y in subterms(b)):
                if not total(b, n_eq, n_ieq):
                    ctx.fail("accessor-cut", f"{who}.{f}", f"`{f}` is cut at {show(b, 40)} instead of the number of equality constraints", at.get(x), where=who)


def total(b, n_eq, n_ieq):
    """the number of all constraints, as an upper bound, cuts nothing"""
    return b.tag == "op" and b.a[0] == "add" and set(b.a[1:]) == {n_eq, n_ieq}


def readers(ctx, variant):
    """methods of the population record that read the combined quantities"""
    s = ctx.session(f"State[{variant}] readers")
    st = new_state(s, variant)
    s.method(st, "update", [s.param("X", "array")])
    syms = symbols(s, st)
    n_eq, n_ieq = s.val(s.get(st, "n_eq")), s.val(s.get(st, "n_ieq"))
    s.take()
    for name in ("is_feasible", "check_KKT"):
        if s.has(st, name):
            r = s.method(st, name, [])
            parts(ctx, s, n_eq, n_ieq, syms, s.take(), r, f"State.{name}")


def state(ctx, variant):
    s = ctx.session(f"State[{variant}]")
    st = new_state(s, variant)
    bindings(ctx, s.take())
    X = s.param("X", "array")
    s.method(st, "update", [X])
    bindings(ctx, s.take())
    present = {norm_role(n) for n in ("func", "jac", "h", "h_jac", "h_hess", "g", "g_jac", "g_hess")} - {norm_role(n) for n in VARIANTS[variant]}
    roles_of_fields(ctx, "State", s, st, present, "hvd.base State.update")
    n_eq = s.val(s.get(st, "n_eq"))
    n_var = s.val(s.get(st, "n_var"))
    N = K(None)
    w = "hvd.base State"
    cut(ctx, s, st, "H", "cstr_value", N, n_eq, w)
    cut(ctx, s, st, "G", "cstr_value", n_eq, N, w)
    cut(ctx, s, st, "primal", "X", N, n_var, w)
    cut(ctx, s, st, "dual", "X", n_var, N, w)
    # single point evaluation
    x = s.param("x", "array")
    for m in ("eval_cstr", "eval_cstr_jac", "eval_cstr_hess"):
        if s.has(st, m):
            t = s.val(s.method(st, m, [x]))
            stack_order(ctx, "State", m, t, f"hvd.base State.{m}")
    before = {a: s.val(v) for a, v in s.fields(st).items()}
    s.method(st, "update_one", [x, s.param("k", "int")])
    for a in FIELD_ROLES:
        if a in before:
            t = s.val(s.fields(st)[a])
            for u in phis(t):
                if u.tag == "op" and u.a[0] == "upd":
                    roles = {r for r, _, _ in outer_cbs(u.a[3])}
                    bad = (roles - FIELD_ROLES[a]) & ROLES
                    ctx.ob("role of an updated row", f"State.{a}: {sorted(roles)}")
                    if bad:
                        ctx.fail("wrong-callback", f"State.update_one.{a}:{','.join(sorted(bad))}", f"a row of `{a}` is computed from {sorted(bad)}", where="hvd.base State.update_one")
                    stack_order(ctx, "State.update_one", a, u.a[3], "hvd.base State.update_one")
    bindings(ctx, s.take())


def optimizer(ctx, kind, variant):
    s = ctx.session(f"{kind}[{variant}]", entries.indicator_methods(ctx.w))
    o = scen.optimizer(s, kind, variant)
    bindings(ctx, s.take())
    st = s.get(o, "state")
    names = {norm_role(p.arg) for p in scen.params_of(scen.ctor_of(s.w.find_class(kind)))} & ROLES
    if variant == "eq":
        names -= {"g", "g_jac", "g_hess"}
    elif variant == "ieq":
        names -= {"h", "h_jac", "h_hess"}
    elif variant == "bare":
        names &= {"func", "jac", "hess"}
    # an optimizer that never uses second derivatives of the constraints may drop them
    names -= {"h_hess", "g_hess"} if kind == "MMDNewton" else set()
    roles_of_fields(ctx, kind, s, st, names, f"{kind} after construction")
    for a, role, other in (("n_eq", "h", "g"), ("n_ieq", "g", "h")):
        t = s.val(s.get(st, a))
        roles = {r for r, _, _ in outer_cbs(t, skip_shape=False)}
        ctx.ob("constraint count", f"{kind}.{a}: {sorted(roles)}")
        if other in roles:
            ctx.fail("wrong-count", f"{kind}.{a}", f"`{a}` is counted from the {other} callback", where=f"{kind} constructor")
        if role in names and role not in roles and not any(x.tag == "top" for x in subterms(t)):
            ctx.fail("wrong-count", f"{kind}.{a}", f"`{a}` does not come from the {role} callback: {show(t, 80)}", where=f"{kind} constructor")
    scen.drive(s, o, kind, 1)
    bindings(ctx, s.take())
    iteration(ctx, s, o, kind)
    roles_of_fields(ctx, kind, s, s.get(o, "state"), set(), f"{kind} after one iteration")


def iteration(ctx, s, o, kind):
    """slices of the combined quantities an iteration takes"""
    st = s.get(o, "state")
    if st.tag != "ref":
        return
    c = s.fields(st)
    n_eq, n_ieq = c.get("n_eq"), c.get("n_ieq")
    if n_eq is None or n_ieq is None:
        return
    syms = symbols(s, st)
    s.take()
    scen.drive(s, o, kind, 1)
    parts(ctx, s, s.val(n_eq), s.val(n_ieq), syms, s.take(), None, kind)


FORMS = ("a Python number", "a 0-d array", "a list of two numbers", "a vector of three")
SIZES = (1, 1, 2, 3)


def returned(s, label, form):
    """what the constraint function returns"""
    p = s.param(label + " value", "array", shape=() if form == 1 else (K(3),))
    if form == 0:
        return lambda args, kwargs, node, st: K(0.5)
    if form == 2:
        return lambda args, kwargs, node, st: s.I.alloc(node, Cell("list", items=[K(0.5), K(-0.5)]), st)
    return lambda args, kwargs, node, st: p


def count(ctx, kind, role, form):
    """the number of constraints is the number of values the function returns"""
    s = ctx.session(f"{kind} {role} returns {FORMS[form]}", entries.indicator_methods(ctx.w))
    label = role
    s.I.cb_values[label] = returned(s, label, form)
    o = scen.optimizer(s, kind, "eq" if role == "h" else "ieq")
    a = "n_eq" if role == "h" else "n_ieq"
    bad = [e for e in s.take() if e.kind == "unsized_len" and not e.tries]
    for e in bad[:1]:
        ctx.ob("number of constraints", f"{kind}.{a}: {FORMS[form]}")
        ctx.fail("constraint-count", f"{kind}.{a}:{form}", f"the {role} callback may return {FORMS[form]}, of which len() is taken", e)
    if bad:
        return
    st = s.get(o, "state")
    t = s.val(s.get(st if st.tag == "ref" else o, a))
    if is_k(t):
        ctx.ob("number of constraints", f"{kind}.{a}: {FORMS[form]} -> {show(t, 20)}")
        if kval(t) != SIZES[form] or isinstance(kval(t), bool):
            ctx.fail("constraint-count", f"{kind}.{a}:{form}", f"when the {role} callback returns {FORMS[form]}, `{a}` is {show(t, 20)} instead of {SIZES[form]}", where=f"{kind} constructor")
    else:
        ctx.ob("undetermined number of constraints", f"{kind}.{a}: {FORMS[form]} -> {show(t, 60)}")


FIXTURE = '''
import numpy as np
class State:
    def __init__(self, n_var, n_eq, n_ieq, func, jac, h=None, g=None):
        self.n_var, self.n_eq, self.n_ieq = n_var, n_eq, n_ieq
        self.func, self.jac = func, jac
        self.h = g
        self.g = h
    def update(self, X):
        self.X = np.asarray(X).copy()
        self.Y = np.array(self.func(self.X))
        self.cstr_value = np.concatenate((self.h(self.X), self.g(self.X)), axis=1)
    @property
    def H(self):
        return self.cstr_value[:, : self.n_ieq]
    def update_one(self, x, k):
        self.Y[k] = self.jac(x)
'''


def selftest(ctx):
    from ..framework import Ctx

    c = Ctx(ctx.prop)
    c._w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/base.py": FIXTURE})
    state(c, "full")
    rules = {f.rule for f in c.findings.values()}
    ctx.need({"role-mismatch", "stack-order", "accessor-cut", "wrong-callback"} <= rules, f"self-test: got {sorted(c.findings)}")
    ctx.selftests.append("fixture with swapped constraint callbacks, wrong stacking, wrong cut and wrong role: all four rules fire")


def run(ctx):
    ctx.rule("role(callback) == role(name) at every role-named binding; role sets of population fields; equality-first stacking; accessor cuts; constraint counts")
    jobs = [("state", v) for v in VARIANTS] + [(k, v) for k in scen.OPTIMIZERS for v in ("full", "bare", "eq", "ieq")]

    jobs += [("count", k, r, f) for k in ("HVN", "DpN", "MMDNewton") for r in ("h", "g") for f in range(len(FORMS))]

    def job(c, j):
        if j[0] == "count":
            count(c, *j[1:])
        elif j[0] == "state":
            state(c, j[1])
            readers(c, j[1])
        else:
            optimizer(c, *j)

    ctx.parallel(jobs, job, weight=lambda j: 5 if j[0] == "DpN" else 4 if j[0] == "HVN" else 1)
    ctx.at_least("callback bound to a role-named parameter", 20)
    ctx.at_least("role of a population field", 20)
    ctx.at_least("stacking of equality and inequality parts", 5)
