"""Population records stay coherent: every derived quantity belongs to the current points."""

from .. import entries, scen
from ..prov import has_top, outer_cbs, peel, phis, row_base
from ..terms import K, Op, T, is_k, kval, leaves_of, show, subterms
from ..world import Session

EXPLANATION = (
    "Value-number analysis of the population record and of the optimizers that own one. The points X are a fresh symbol; "
    "after every full update, every single-point update, every slice and every optimizer iteration, each derived field is "
    "decomposed into the callback applications it consists of, and each application must be to the (rows of the) primal "
    "part of the points now held; a field that was not refreshed still mentions the previous points. A single-point update "
    "must write the same row of every per-point field. A slice must select the same rows of every per-point field and share "
    "no storage with the original."
)
ASSUMPTIONS = ["callbacks are deterministic functions of their argument", "NumPy indexing semantics as modelled in hvdlint/models.py"]

VARIANTS = {
    "full": (),
    "eq": ("g", "g_jac", "g_hess"),
    "ieq": ("h", "h_jac", "h_hess"),
    "none": ("h", "h_jac", "h_hess", "g", "g_jac", "g_hess"),
    "nohess": ("h_hess", "g_hess"),
}


def value_leaves(t):
    """leaf symbols a value depends on, ignoring pure shape dependences"""
    out = set()
    seen = set()

    def go(x):
        if isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)
            return
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        if x.tag == "op":
            if x.a[0] == "sym":
                out.add(x.a[1].a[1])
                return
            if x.a[0] == "len" or (x.a[0] == "attr" and is_k(x.a[2]) and kval(x.a[2]) in ("shape", "ndim", "size", "dtype")):
                return
            if x.a[0] == "call" and isinstance(x.a[1], T) and x.a[1].tag == "ext" and x.a[1].a[0].split(".")[-1] in ("zeros", "ones", "empty"):
                return
        if x.tag == "top":
            for y in x.a[0]:
                go(y)
            return
        for y in x.a:
            go(y)

    go(t)
    return out


def new_state(s, variant):
    cls = s.w.find_class("State")
    fo = scen.ctor_of(cls)
    names = [p.arg for p in scen.params_of(fo)]
    omit = {n for n in names if n in VARIANTS[variant]}
    st = s.new(cls, [], scen.args_for(s, fo, omit))
    return st


def point_fields(before, after):
    """attributes written by an update that are not running counters"""
    out = []
    for a, v in after.items():
        if a in before and is_k(before[a]) and isinstance(kval(before[a]), (int, float)) and not isinstance(kval(before[a]), bool):
            continue
        if a in before and before[a] is v:
            continue
        out.append(a)
    return out


def check_args(ctx, rule, cname, field, term, P, what, ev=None, where="hvd.base State"):
    """every callback application in `term` is to P or to a row of P"""
    n = 0
    for role, label, args in outer_cbs(term):
        n += 1
        if not args:
            continue
        a = args[0]
        ok = any(row_base(x) is P or peel(x) is P for x in phis(a)) if a.tag == "phi" else (row_base(a) is P or peel(a) is P)
        if not ok and core(a).tag == "top":
            ctx.ob("undetermined argument", f"{cname}.{field}")
            continue
        ctx.ob("callback application in a derived field", f"{cname}.{field}: {role}({show(a, 80)})")
        if not ok:
            ctx.fail(rule, f"{cname}.{field}:{role}", f"{what}: `{field}` holds {role} evaluated at {show(a, 160)} instead of the current points", where=where)
    return n


def state_checks(ctx, variant):
    s = ctx.session(f"State[{variant}]")
    st = new_state(s, variant)
    before = s.fields(st)
    X1, X2, X3 = s.param("X1", "array"), s.param("X2", "array"), s.param("X3", "array")
    s.method(st, "update", [X1])
    f1 = s.fields(st)
    fields = point_fields(before, f1)
    ctx.need(len(fields) >= 5, f"State.update writes only {fields}")
    s.take()
    s.method(st, "update", [X2])
    P = peel(s.val(s.get(st, "primal")))
    ctx.need("X2" in value_leaves(P), "State.primal does not depend on the points handed to update")
    f2 = s.fields(st)
    for a in fields:
        t = s.val(f2[a])
        ctx.ob("field refreshed by update", f"{variant}: {a}")
        if "X1" in value_leaves(t):
            ctx.fail("stale-field", f"State.update:{a}", f"after updating to new points, `{a}` still depends on the previous points: {show(t, 160)}", where="hvd.base State.update")
        check_args(ctx, "wrong-points", "State.update", a, t, P, "after a full update", where="hvd.base State.update")
    base2 = {a: s.val(f2[a]) for a in fields}
    # -- single point ----------------------------------------------------------
    x = s.param("x", "array")
    k = s.param("k", "int")
    s.take()
    s.method(st, "update_one", [x, k])
    ev = s.take()
    f3 = s.fields(st)
    kv = s.val(k)
    for a in fields:
        t = s.val(f3[a])
        if not outer_cbs(base2[a]) and "X2" not in value_leaves(base2[a]):
            ctx.ob("constant field")  # e.g. all-zero Hessians when no callback is given
            continue
        ctx.ob("row written by update_one", f"{variant}: {a}")
        if t is base2[a]:
            ctx.fail("stale-row", f"State.update_one:{a}", f"replacing one point leaves its entry of `{a}` unchanged", where="hvd.base State.update_one")
            continue
        for u in phis(t):
            if u.tag == "op" and u.a[0] == "upd" and u.a[1] is base2[a]:
                path = u.a[2].a
                if len(path) == 1 and path[0].tag == "op" and path[0].a[0] == "idx":
                    if row_index(path[0].a[1]) is not kv:
                        ctx.fail("wrong-row", f"State.update_one:{a}", f"`{a}` is written at {show(path[0], 60)}, not at the row of the replaced point", where="hvd.base State.update_one")
                lv = value_leaves(u.a[3])
                if "x" not in lv:
                    ctx.fail("wrong-points", f"State.update_one:{a}", f"the new entry of `{a}` does not depend on the new point", where="hvd.base State.update_one")
                elif "X2" in lv:
                    ctx.fail("wrong-points", f"State.update_one:{a}", f"the new entry of `{a}` is computed from the old points: {show(u.a[3], 120)}", where="hvd.base State.update_one")
                for role, label, args in outer_cbs(u.a[3]):
                    if args and not has_top(args[0]) and "x" not in value_leaves(args[0]):
                        ctx.fail("wrong-points", f"State.update_one:{a}:{role}", f"{role} is evaluated at {show(args[0], 80)}", where="hvd.base State.update_one")
            else:
                ctx.ob("undetermined row update")
    # other rows are untouched / whole-array replacement is fine only if it equals a row update: nothing else to check
    # -- slicing -----------------------------------------------------------------
    s.method(st, "update", [X3])
    f4 = s.fields(st)
    before_slice = {a: s.val(f4[a]) for a in f4}
    locs = {r.a[0] for a in fields for r in s.I.refs(f4[a])}
    I = s.param("rows", "array")
    iv = s.val(I)
    sl = s.method(st, "__getitem__", [I])
    f5 = s.fields(sl)
    for a in fields:
        t = s.val(f5.get(a, K(None)))
        ctx.ob("field selected by a slice", f"{variant}: {a}")
        if a not in f5:
            ctx.fail("slice-missing", f"State.__getitem__:{a}", f"a slice has no `{a}`", where="hvd.base State.__getitem__")
            continue
        for u in phis(t):
            if u.tag == "op" and u.a[0] == "sub" and u.a[1] in phis(before_slice[a]):
                if row_index(u.a[2]) is not iv:
                    ctx.fail("slice-rows", f"State.__getitem__:{a}", f"`{a}` of a slice is selected by {show(u.a[2], 60)} instead of the requested rows", where="hvd.base State.__getitem__")
            elif u in phis(before_slice[a]):
                ctx.fail("slice-rows", f"State.__getitem__:{a}", f"`{a}` of a slice still holds all rows", where="hvd.base State.__getitem__")
            elif u.tag != "top" and "rows" not in value_leaves(u) and not is_k(u):
                ctx.fail("slice-rows", f"State.__getitem__:{a}", f"`{a}` of a slice does not depend on the requested rows: {show(u, 100)}", where="hvd.base State.__getitem__")
        for r in s.I.refs(f5[a]):
            if r.a[0] in locs:
                ctx.fail("slice-alias", f"State.__getitem__:{a}", f"`{a}` of a slice shares storage with the sliced population", where="hvd.base State.__getitem__")
    f6 = s.fields(st)
    for a in f6:
        if s.val(f6[a]) is not before_slice[a]:
            ctx.fail("slice-mutates", f"State.__getitem__:{a}", f"slicing changes `{a}` of the original", where="hvd.base State.__getitem__")
    # -- omitted derivatives ---------------------------------------------------------
    cls = s.w.find_class("State")
    up, _ = cls.lookup("update")
    flags = [p.arg for p in scen.params_of(up.a[0]) if scen.origin_of(p) == "bool"]
    for fl in flags:
        X4 = s.param("X4_" + fl, "array")
        s.method(st, "update", [X3])
        s.method(st, "update", [X4], {fl: K(False)})
        f7 = s.fields(st)
        for a in fields:
            t = s.val(f7[a])
            ctx.ob("field after an update without derivatives", f"{fl}=False: {a}")
            if "X3" in value_leaves(t):
                ctx.fail("stale-field", f"State.update({fl}=False):{a}", f"`{a}` still belongs to the previous points after update({fl}=False)", where="hvd.base State.update")


def core(t):
    t = row_base(t)
    while t.tag == "op" and t.a[0] == "sub":
        t = peel(t.a[1])
    return t


def row_index(i):
    """unwrap (k,), (k, :), (k, ...) to k"""
    if i.tag == "op" and i.a[0] == "idx":
        i = i.a[1]
    if i.tag == "op" and i.a[0] == "tuple" and len(i.a) > 1:
        rest = i.a[2:]
        if all(full(x) for x in rest):
            return i.a[1]
    if i.tag == "tup" and i.a and all(full(x) for x in i.a[1:]):
        return i.a[0]
    return peel(i)


def full(x):
    if x.tag == "sl":
        return all(is_k(y) and kval(y) is None for y in x.a)
    return is_k(x) and kval(x) is Ellipsis


def optimizer_checks(ctx, kind, variant):
    w = ctx.w
    s = ctx.session(f"{kind}[{variant}]", entries.indicator_methods(w))
    o = scen.optimizer(s, kind, variant)
    stages = ["after construction", "after the first iteration", "after an iteration from arbitrary points"]
    for i, what in enumerate(stages):
        if i == 2:
            s.method(s.get(o, "state"), "update", [s.param("Xcur", "array")])
        if i:
            scen.drive(s, o, kind, 1)
        st = s.get(o, "state")
        P = peel(s.val(s.get(st, "primal")))
        if P.tag == "top":
            ctx.ob("undetermined points", f"{kind}[{variant}] {what}")
            continue
        Ps = {peel(p) for p in phis(P)}
        for a, v in s.fields(st).items():
            t = s.val(v)
            if t.tag == "top" or t is P or peel(t) is core(P) or any(peel(u) in Ps or peel(u) in {core(p) for p in Ps} for u in phis(t)):
                continue  # the points themselves (they result from the previous points)
            for role, label, args in outer_cbs(t):
                if not args:
                    continue
                a0 = args[0]
                if a0 is P or row_base(a0) is P or peel(a0) in Ps or row_base(a0) in Ps:
                    ctx.ob("derived field of the live population", f"{kind} {what}: {a}")
                    continue
                if core(a0).tag == "top":
                    ctx.ob("undetermined argument", f"{kind}.{a}")
                    continue
                if a.startswith("n_"):
                    continue
                ctx.fail("incoherent-state", f"{kind}:{a}:{role}", f"{what}: `{a}` holds {role} evaluated at other points than the population's: {show(a0, 160)}", where=f"{kind} ({what})")


def selftest(ctx):
    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/base.py": FIXTURE})
    from ..framework import Ctx

    c = Ctx(ctx.prop)
    c._w = w
    state_checks(c, "ieq")
    keys = sorted(c.findings)
    want = {"stale-field::State.update:V", "wrong-row::State.update_one:C", "slice-rows::State.__getitem__:C", "stale-row::State.update_one:V"}
    ctx.need(want <= set(keys), f"self-test: seeded incoherences not all reported, got {keys}")
    ctx.selftests.append(f"fixture with a stale field, a wrong row and an unsliced field is reported ({len(keys)} findings)")


FIXTURE = '''
import numpy as np
from copy import deepcopy
class State:
    def __init__(self, n_var, n_eq, n_ieq, func, jac, g=None, g_jac=None, h=None, h_jac=None):
        self.n_var = n_var
        self.func, self.jac, self.g = func, jac, g
        self.V = None
    @property
    def primal(self):
        return self.X[:, : self.n_var]
    def update(self, X):
        self.X = np.asarray(X).copy()
        self.Y = np.array(self.func(self.primal))
        self.J = np.array(self.jac(self.primal))
        self.C = np.array(self.g(self.primal))
        if self.V is None:
            self.V = np.array(self.g(self.primal))
    def update_one(self, x, k):
        p = x[: self.n_var]
        self.X[k] = x
        self.Y[k] = self.func(p)
        self.J[k] = self.jac(p)
        self.C[k + 1] = self.g(p)
    def __getitem__(self, idx):
        o = deepcopy(self)
        o.X = o.X[idx]
        o.Y = o.Y[idx]
        o.J = o.J[idx]
        o.V = o.V[idx]
        return o
'''


def run(ctx):
    ctx.rule("every outermost callback application inside a per-point field has the current primal points (or rows of them) as argument")
    ctx.rule("update_one writes row k of every per-point field from the new point; slices select the requested rows of every per-point field")
    jobs = [("state", v) for v in VARIANTS] + [(k, v) for k in scen.OPTIMIZERS for v in ("full", "bare")]
    if ctx.thorough:
        jobs += [(k, v) for k in scen.OPTIMIZERS for v in ("eq", "ieq")]

    def job(c, j):
        if j[0] == "state":
            state_checks(c, j[1])
        else:
            optimizer_checks(c, *j)

    ctx.parallel(jobs, job, weight=lambda j: 5 if j[0] == "DpN" else 4 if j[0] == "HVN" else 1)
    ctx.at_least("field refreshed by update", 25)
    ctx.at_least("row written by update_one", 20)
    ctx.at_least("derived field of the live population", 20)
