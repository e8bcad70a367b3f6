"""Answers do not depend on earlier queries, and a changed setting takes effect."""

from .. import entries, scen
from ..canon import Canon
from ..terms import K, Op, T, is_k
from ..world import Session

EXPLANATION = (
    "Each query (indicator values and derivatives, problem evaluations, hypervolume) is interpreted twice over the same symbolic inputs: "
    "on a fresh object, and on an object that has already answered other queries with other inputs; likewise on an object built with a "
    "setting and on one whose setting was assigned later. The canonical forms of the two answers must be equal, which covers every path "
    "through caches and memoised closures. In addition every attribute read inside a function whose reads are frozen by tracing or "
    "memoisation (jax.jit, functools.cache) must not be assigned outside the constructor anywhere in the library."
)
ASSUMPTIONS = [
    "reference-set matching is stateful by design: indicators that match are compared after a change of settings only",
    "kernel and length-scale of the kernel indicators are fixed at construction",
    "two values with the same term are the same value; values beyond the interpreter's precision compare equal when their inputs do",
]

SET = {  # settings that code outside the constructor assigns: the library, its scripts or a documented setter
    "HypervolumeDerivatives": ("ref",),
    "GenerationalDistance": ("ref",),
    "InvertedGenerationalDistance": ("ref",),
    "MMD": ("ref",),
    "MMDMatching": ("ref", "beta"),
}
STATEFUL = {"MMDMatching"}

FIXTURE = '''
from functools import lru_cache, partial
import numpy as np
from jax import jit
class A:
    def __init__(self, ref, scale):
        self.ref = ref
        self.scale = scale
        self.last = None
        self.f = None
    def fresh(self, X):
        return np.sum(X - self.ref)
    def lazy(self, X):
        if self.f is None:
            self.f = lambda x: np.sum(x - self.ref)
        return self.f(X)
    def cached(self, X):
        if self.last is None:
            self.last = np.sum(X - self.ref)
        return self.last
    def captured(self, X):
        if self.f is None:
            r = self.ref
            self.f = lambda x: np.sum(x - r)
        return self.f(X)
class B:
    def __init__(self, scale):
        self.scale = scale
        self.f = jit(self._f)
    def _f(self, x):
        return x * self.scale
    def value(self, x):
        return self.f(x)
    def widen(self):
        self.scale = 2 * self.scale
'''


def shaped(s, name, prefix=""):
    return s.param(prefix + name, "array", shape=(Op("sym", K(prefix + "rows")), Op("int", Op("sym", K("n_var")))))


def query(s, o, cls, m, prefix="", kw=None):
    args = scen.method_args(s, cls, m, prefix, over={"X": shaped(s, "X", prefix)}, only_required=True)
    args.update(kw or {})
    return s.val(s.method(o, m, [], args))


def answer(s, r, skip=frozenset()):
    return Canon(s, [r], skip).c(r)


def unread(ctx, cls, var, m, kw):
    """attributes the query never reads: a summarised method that receives the object cannot depend on them"""
    s = ctx.session(f"{cls.name} {m} reads")
    o = build(s, cls, var)
    for m2, kw2 in QUERIES:
        if cls.lookup(m2)[0] is not None:
            query(s, o, cls, m2, "other_", kw2)
    s.take()
    query(s, o, cls, m, kw=kw)
    read = {e.attr for e in s.take() if e.kind in ("attrget", "propget", "maybe_missing_attr")}
    return frozenset(s.fields(o)) - read


def build(s, cls, over=None, extra=()):
    fo = scen.ctor_of(cls)
    return s.new(cls, [], scen.args_for(s, fo, over=over, omit=("kernel",) + tuple(extra)))


def opaque(w):
    c = w.find_class("HypervolumeDerivatives")
    out = {w.find_func(n).a[0].qual for n in ("non_domin_sort", "hypervolume")}
    m, _ = c.lookup("hypervolume_dY")
    if m is not None:
        out.add(m.a[0].qual)
    return out


def same(ctx, what, key, a, b, msg):
    ctx.ob("pair of answers compared", what)
    if a != b:
        ctx.fail("stale-answer", key, f"{what}: {msg}", where=key.split(":")[0])


QUERIES = (("compute", {}), ("compute_derivatives", {"compute_hessian": K(True)}), ("compute_derivatives", {"compute_hessian": K(False)}), ("compute_automatic_differentiation", {}))


def indicator_job(ctx, name):
    cls = ctx.w.find_class(name)
    op = opaque(ctx.w)
    qs = [(m, kw) for m, kw in QUERIES if cls.lookup(m)[0] is not None]
    variants = [{"minimization": K(v)} for v in (True, False)] if name == "HypervolumeDerivatives" else [{"matching": K(False)}] if name == "InvertedGenerationalDistance" else [{}]
    for var in variants:
        tag = " ".join(f"{k}={v.a[0]}" for k, v in var.items())
        fresh, skip = {}, {}
        for i, (m, kw) in enumerate(qs):
            skip[i] = unread(ctx, cls, var, m, kw)
            s = ctx.session(f"{name} {m} fresh", op)
            o = build(s, cls, var)
            fresh[i] = answer(s, query(s, o, cls, m, kw=kw), skip[i])
        for i, (m, kw) in enumerate(qs):
            if name in STATEFUL:
                break
            s = ctx.session(f"{name} {m} after queries", op)
            o = build(s, cls, var)
            for m2, kw2 in qs:
                query(s, o, cls, m2, "other_", kw2)
            r = answer(s, query(s, o, cls, m, kw=kw), skip[i])
            same(ctx, f"{name}.{m} {tag}", f"{name}.{m}:history", fresh[i], r, "the answer depends on queries made before")
        for attr in SET[name]:
            for i, (m, kw) in enumerate(qs):
                for warm in (False,) if name in STATEFUL else (False, True):
                    s = ctx.session(f"{name} {m} {attr} assigned", op)
                    new = build(s, cls, var)
                    target = s.get(new, attr)
                    o = build(s, cls, dict(var, **{attr: s.param("old_" + attr, "float" if attr == "beta" else "array")}))
                    if warm:
                        for m2, kw2 in qs:
                            query(s, o, cls, m2, "other_", kw2)
                    if name == "HypervolumeDerivatives":
                        target = s.param(attr, "array")
                    s.set(o, attr, target)
                    r = answer(s, query(s, o, cls, m, kw=kw), skip[i])
                    same(ctx, f"{name}.{m} {tag} with `{attr}` assigned{' after other queries' if warm else ''}", f"{name}.{m}:{attr}", fresh[i], r, f"assigning `{attr}` does not take effect")


def problem_job(ctx, name):
    cls = ctx.w.find_class(name)
    calls = [m for m in scen.PROBLEM_CALLS]
    s0 = ctx.session(f"{name} probe")
    o = scen.new_problem(s0, cls)
    f = s0.fields(o)
    usable = []
    for m in calls:
        if not s0.has(o, m) or m.startswith("eq") and f.get("_eq") is K(None) or m.startswith("ieq") and f.get("_ieq") is K(None):
            continue
        usable.append(m)
    if not ctx.thorough:
        usable = [m for m in usable if "hessian" not in m]

    def arg(s, m, p=""):
        return s.param(p + ("X" if "batch" in m else "x"), "array")

    s = ctx.session(f"{name} fresh")
    fresh = {}
    for m in usable:
        o = scen.new_problem(s, cls)
        fresh[m] = answer(s, s.val(s.method(o, m, [arg(s, m)])))
    o = scen.new_problem(s, cls)
    for m in usable:
        s.method(o, m, [arg(s, m, "other_")])
    for m in usable:
        same(ctx, f"{name}.{m}", f"{name}.{m}:history", fresh[m], answer(s, s.val(s.method(o, m, [arg(s, m)]))), "the answer depends on queries made before")


def hv_job(ctx, _):
    w = ctx.w
    f = w.find_func("hypervolume")
    s = ctx.session("hypervolume")
    a = answer(s, s.val(s.call(f, [s.param("Y", "array"), s.param("ref", "array")])))
    s = ctx.session("hypervolume again")
    s.call(f, [s.param("otherY", "array"), s.param("otherref", "array")])
    b = answer(s, s.val(s.call(f, [s.param("Y", "array"), s.param("ref", "array")])))
    same(ctx, "hypervolume", "hypervolume:history", a, b, "the value depends on calls made before")


def dispatch(ctx, j):
    {"ind": indicator_job, "prob": problem_job, "hv": hv_job}[j[0]](ctx, j[1])


def cls_of(e):
    b = e.base
    return [x.a[0].cls for x in ([b] if b.tag == "ref" else list(b.a[0]) if b.tag == "phi" else []) if isinstance(x, T) and x.tag == "ref" and getattr(x.a[0], "cls", None) is not None]


def baked_visit(ctx, sc, s, events):
    """collect frozen reads and later assignments; judged in the parent"""
    reads, writes = {}, {}
    for e in events:
        if e.kind == "attrget" and e.baked:
            for c in cls_of(e):
                reads.setdefault((c.name, e.attr), (e.func, e.where))
        elif e.kind == "attrset" and not any(f.name == "__init__" for f in e.stack):
            for c in cls_of(e):
                writes.setdefault((c.name, e.attr), set()).add((e.func, e.where))
    ctx.extra.setdefault("reads", set()).update(k + v for k, v in reads.items())
    ctx.extra.setdefault("writes", set()).update(k + x for k, v in writes.items() for x in v)


def frozen(ctx, reads, writes):
    for cls, attr, func, where in sorted(reads):
        ws = sorted((f, x) for c, a, f, x in writes if c == cls and a == attr)
        ctx.ob("attribute read frozen by tracing or memoisation", f"{cls}.{attr} in {func}")
        others = [f for f, _ in ws if f != func]
        if not others and attr in SET.get(cls, ()):
            others = ["its user"]
        if others:  # an accumulator that only its own function touches is not a setting
            ctx.fail("frozen-read", f"{cls}.{attr}", f"`{func}` reads `{attr}` inside a traced or memoised function, which keeps the first value; {others[0]} assigns it later", where=where)


def selftest(ctx):
    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    got = {}
    for m in ("fresh", "lazy", "cached", "captured"):
        s = Session(w)
        o = s.new("A", [s.param("ref", "array"), s.param("scale", "float")])
        a = answer(s, s.val(s.method(o, m, [s.param("X", "array")])))
        s = Session(w)
        o = s.new("A", [s.param("old", "array"), s.param("scale", "float")])
        s.method(o, m, [s.param("other", "array")])
        s.set(o, "ref", s.param("ref", "array"))
        got[m] = a == answer(s, s.val(s.method(o, m, [s.param("X", "array")])))
    ctx.need(got == {"fresh": True, "lazy": True, "cached": False, "captured": False}, f"self-test: {got}")
    s = Session(w)
    o = s.new("B", [s.param("scale", "float")])
    s.method(o, "value", [s.param("x", "array")])
    s.method(o, "widen")
    sub = type(ctx)("C08", "quick", 1)
    baked_visit(sub, None, s, s.take())
    frozen(sub, sub.extra["reads"], sub.extra["writes"])
    ctx.need(len(sub.findings) == 1, f"self-test frozen reads: {sub.findings}")
    ctx.selftests.append("a cached answer, a captured setting and a setting read inside a traced function are reported; recomputation is not")


def run(ctx):
    ctx.rule("the answer of a used object equals the answer of a fresh one; an assigned setting equals a constructed one; frozen reads are never assigned later")
    jobs = [("ind", n) for n in SET] + [("hv", None)] + [("prob", c.name) for c in scen.problems(ctx.w)]
    ctx.parallel(jobs, dispatch, weight=lambda j: {"ind": 9, "hv": 3}.get(j[0], 1))
    entries.catalogue(ctx, baked_visit)
    reads, writes = ctx.extra.pop("reads", set()), ctx.extra.pop("writes", set())
    frozen(ctx, reads, writes)
    ctx.at_least("pair of answers compared", 150)
    ctx.at_least("attribute read frozen by tracing or memoisation", 20)
