"""Different routes to the same indicator quantity agree."""

from .. import models, scen
from ..canon import Canon
from ..terms import K, Op, T, is_k, kval, mk, skey, subterms
from ..world import Session
from .c08 import build, opaque, shaped

EXPLANATION = (
    "Each indicator's value, gradient and Hessian are interpreted along every route the interface offers over the same symbolic points: "
    "gradient with and without the Hessian, objective values and Jacobians supplied or evaluated internally, value from points or from "
    "their objective values, reference given as array or as reference set, maximisation of f or minimisation of -f. The results are exact "
    "terms over uninterpreted callbacks; row-wise evaluations of a callback and the supplied symbol are unified and negations are pushed "
    "to the leaves; the two routes must give the same normal form."
)
ASSUMPTIONS = [
    "supplied objective values and Jacobians are those of the supplied points",
    "non-dominated sorting, hypervolume and the hypervolume's partial derivatives are uninterpreted functions of their arguments",
]

INDICATORS = ("HypervolumeDerivatives", "GenerationalDistance", "InvertedGenerationalDistance", "MMD", "MMDMatching")
ROLE = {"func": "Y", "jac": "J", "hessian": "H", "hess": "H"}
YNAMES = ("Y",)
JNAMES = ("YdX", "Jacobian", "jacobian", "J", "jac")

WRAP = {
    "numpy.array", "numpy.asarray", "numpy.stack", "numpy.vstack", "jax.numpy.asarray", "jax.numpy.array", "numpy.ascontiguousarray", "numpy.copy",
    "numpy.atleast_2d", "numpy.row_stack",
}

FIXTURE = '''
import numpy as np
class A:
    def __init__(self, func, jac):
        self.func, self.jac = func, jac
    def good(self, X, Y=None):
        if Y is None:
            Y = np.array([self.func(x) for x in X])
        return np.sum(Y, axis=0)
    def shifted(self, X, Y=None):
        if Y is None:
            return np.sum(np.array([self.func(x) for x in X]), axis=0)
        return np.sum(Y, axis=1)
    def negated(self, X, Y=None):
        Y = np.array([-1 * self.func(x) for x in X]) if Y is None else Y
        return np.sum(Y, axis=0)
'''


# ---------------------------------------------------------------- normal form
def neg(t):
    if t.tag == "op" and t.a[0] == "neg":
        return t.a[1]
    if is_k(t) and isinstance(kval(t), (int, float)) and not isinstance(kval(t), bool):
        return K(-kval(t))
    if t.tag == "phi":
        return mk("phi", frozenset(neg(x) for x in t.a[0]))
    return Op("neg", t)


class Normal:
    """terms with row-wise callback evaluations and supplied arrays unified, negations pushed to the evaluations"""

    def __init__(self, sub=None, negate=frozenset()):
        self.memo = {}
        self.negate = negate  # leaves replaced by their negation

    def leaf(self, name):
        s = Op("given", K(name))
        return neg(s) if name in self.negate else s

    def __call__(self, t):
        if isinstance(t, T):
            r = self.memo.get(t)
            if r is None:
                r = self.memo[t] = self.go(t)
            return r
        if isinstance(t, tuple):
            return tuple(self(x) for x in t)
        if isinstance(t, frozenset):
            return frozenset(self(x) for x in t)
        return t

    @staticmethod
    def data(x):
        return x.tag == "op" and (x.a[0] == "given" or (x.a[0] == "sym" and kval(x.a[1]) in ("X", "givenY", "givenJ")) or x.a[0] in ("cb", "self", "undetermined"))

    def row(self, t):
        """(role, sign) if t evaluates one callback at the current row of X"""
        if t.tag == "op" and t.a[0] == "neg":
            r = self.row(t.a[1])
            return (r[0], -r[1]) if r else None
        if t.tag == "op" and t.a[0] == "mul" and len(t.a) == 3:
            ks = [x for x in t.a[1:] if is_k(x) and kval(x) in (-1, -1.0)]
            rest = [x for x in t.a[1:] if x not in ks]
            if len(ks) == 1 and len(rest) == 1:
                r = self.row(rest[0])
                return (r[0], -r[1]) if r else None
        if t.tag == "op" and t.a[0] == "call" and isinstance(t.a[1], T) and t.a[1].tag == "ext" and t.a[1].a[0] in WRAP and len(t.a) == 3:
            return self.row(t.a[2])
        if t.tag == "op" and t.a[0] in ("mark",):
            return self.row(t.a[2])
        if t.tag == "op" and t.a[0] == "cb" and len(t.a) == 3 and kval(t.a[1]) in ROLE:
            x = t.a[2]
            if x.tag == "op" and x.a[0] in ("sub", "elem") and x.a[1].tag == "op" and x.a[1].a[0] == "sym" and kval(x.a[1].a[1]) == "X":
                return ROLE[kval(t.a[1])], 1
        return None

    def go(self, t):
        if t.tag == "top":
            # undetermined part: known only by what it may depend on, and every route depends on the points or their evaluations
            return Op("undetermined", *sorted({x for x in t.a[0] if not self.data(x)}, key=skey))
        if t.tag == "op" and t.a[0] == "sym":
            n = kval(t.a[1])
            if n == "givenY":
                return self.leaf("Y")
            if n == "givenJ":
                return self.leaf("J")
            if n in self.negate:
                return neg(t)
            return t
        if t.tag == "op" and t.a[0] in ("listof", "vmap"):
            r = self.row(t.a[1])
            if r:
                x = self.leaf(r[0])
                return neg(x) if r[1] < 0 else x
        if t.tag == "op" and t.a[0] == "call" and isinstance(t.a[1], T) and t.a[1].tag == "ext" and t.a[1].a[0] in WRAP and len(t.a) == 3:
            return self(t.a[2])
        if t.tag == "op" and t.a[0] == "neg":
            return neg(self(t.a[1]))
        if t.tag == "op" and t.a[0] == "mul" and len(t.a) == 3:
            ks = [x for x in t.a[1:] if is_k(x) and kval(x) in (-1, -1.0)]
            if len(ks) == 1:
                return neg(self(t.a[2] if ks[0] is t.a[1] else t.a[1]))
        if t.tag == "phi":
            return mk("phi", frozenset(self(x) for x in t.a[0])) if len({self(x) for x in t.a[0]}) > 1 else self(next(iter(t.a[0])))
        if t.tag == "op":
            # an evaluation at a single row: x -> cb(x)
            r = self.row(t)
            if r:
                x = Op("rowof", self.leaf(r[0])) if not (self.leaf(r[0]).tag == "op" and self.leaf(r[0]).a[0] == "neg") else neg(Op("rowof", self.leaf(r[0]).a[1]))
                return neg(x) if r[1] < 0 else x
        return mk(t.tag, *[self(x) for x in t.a])


def parts(r):
    if r.tag == "op" and r.a[0] in ("tuple", "list"):
        return list(r.a[1:])
    if r.tag == "tup":
        return list(r.a)
    return [r]


def given(s, cls, m, y, j):
    over = {"X": shaped(s, "X")}
    mm, _ = cls.lookup(m)
    while mm.tag == "wrap":
        mm = mm.a[1]
    names = [p.arg for p in scen.params_of(mm.a[0])]
    if y:
        for n in YNAMES:
            if n in names:
                over[n] = s.param("givenY", "array")
    if j:
        for n in JNAMES:
            if n in names:
                over[n] = s.param("givenJ", "array")
    return over


def ask(ctx, name, var, m, kw, y=False, j=False, ref=None):
    cls = ctx.w.find_class(name)
    s = ctx.session(f"{name}.{m} Y={y} J={j} {ref or ''}", opaque(ctx.w))
    models.BIG[0] = 10  # the Hessians of the long routes stay exact terms
    v = dict(var)
    if ref == "set":
        v["ref"] = s.new("ReferenceSet", [s.param("ref", "array")])
    o = build(s, cls, v)
    args = scen.method_args(s, cls, m, over=given(s, cls, m, y, j), only_required=True)
    if y == "only":
        args.pop("X", None)
    args.update({k: x for k, x in kw.items()})
    return s, s.val(s.method(o, m, [], args))


# the object a summarised method was called on: the routes differ in what it holds, the result depends on its arguments
def strip(t, memo=None):
    memo = {} if memo is None else memo
    if isinstance(t, T):
        r = memo.get(t)
        if r is None:
            if t.tag == "ref" and getattr(t.a[0], "cls", None) is not None and t.a[0].cls.name in INDICATORS:
                r = Op("self")
            else:
                r = mk(t.tag, *[strip(x, memo) for x in t.a])
            memo[t] = r
        return r
    if isinstance(t, tuple):
        return tuple(strip(x, memo) for x in t)
    if isinstance(t, frozenset):
        return frozenset(strip(x, memo) for x in t)
    return t


def key(s, t, negate=frozenset()):
    n = Normal(negate=negate)

    def pre(v):
        return n(strip(v)) if isinstance(v, T) else v

    return Canon(s, [t], pre=pre).c(pre(t))


def undetermined(t):
    n = Normal()
    return {n(x) for x in subterms(strip(t)) if x.tag == "top"}


def agree(ctx, what, where, a, b, msg, negate=frozenset(), flip=False):
    """a, b: (session, term)"""
    ctx.ob("pair of routes compared", what)
    ta, tb = a[1], b[1]
    ka = key(a[0], ta)
    kb = key(b[0], neg(tb) if flip else tb, negate)
    if ka != kb:
        ua, ub = (undetermined(x) for x in (ta, tb))
        if ua != ub:
            ctx.ob("pair not comparable: part of a result undetermined on one route", what)
            return
        ctx.fail("routes-disagree", where, f"{what}: {msg}", where=where)


def variants(name):
    if name == "HypervolumeDerivatives":
        return [("minimising", {"minimization": K(True)}), ("maximising", {"minimization": K(False)})]
    if name == "InvertedGenerationalDistance":
        return [("", {"matching": K(False)}), ("matching", {"matching": K(True)})]
    return [("", {})]


def job(ctx, name):
    cls = ctx.w.find_class(name)
    H, G = {"compute_hessian": K(True)}, {"compute_hessian": K(False)}
    for tag, var in variants(name):
        who = f"{name} {tag}".strip()
        h = ask(ctx, name, var, "compute_derivatives", H)
        g = ask(ctx, name, var, "compute_derivatives", G)
        hp = parts(h[1])
        ctx.need(len(hp) == 2, f"{name}.compute_derivatives does not return (gradient, Hessian)")
        agree(ctx, f"{who}: gradient with and without Hessian", f"{name}.compute_derivatives:gradient", (h[0], hp[0]), g, "the gradient differs when the Hessian is computed along with it")
        for y, j in ((True, False), (False, True), (True, True)):
            nm = " and ".join([n for n, f in (("objective values", y), ("Jacobians", j)) if f])
            h2 = ask(ctx, name, var, "compute_derivatives", H, y, j)
            for i, q in ((0, "gradient"), (1, "Hessian")):
                agree(ctx, f"{who}: {q} with supplied {nm}", f"{name}.compute_derivatives:supplied", (h[0], hp[i]), (h2[0], parts(h2[1])[i]), f"the {q} changes when {nm} of the same points are supplied")
            g2 = ask(ctx, name, var, "compute_derivatives", G, y, j)
            agree(ctx, f"{who}: gradient alone with supplied {nm}", f"{name}.compute_derivatives:supplied", g, g2, f"the gradient changes when {nm} of the same points are supplied")
        v = ask(ctx, name, var, "compute", {})
        v2 = ask(ctx, name, var, "compute", {}, True)
        agree(ctx, f"{who}: value from points and from objective values", f"{name}.compute:supplied", v, v2, "the value changes when objective values of the same points are supplied")
        v3 = ask(ctx, name, var, "compute", {}, "only")
        agree(ctx, f"{who}: value from objective values alone", f"{name}.compute:supplied", v, v3, "the value changes when only objective values are given")
        if name != "HypervolumeDerivatives":
            for m, kw, base in (("compute", {}, v), ("compute_derivatives", H, h), ("compute_derivatives", G, g)):
                r = ask(ctx, name, var, m, kw, ref="set")
                agree(ctx, f"{who}.{m}: reference as array and as set", f"{name}.{m}:reference", base, r, "the result depends on whether the reference is given as array or as reference set")
        elif tag == "maximising":
            lo = {"minimization": K(True)}
            N = frozenset({"Y", "J", "H", "ref"})
            for y in (False, True):
                for j in (False, True):
                    a = ask(ctx, name, var, "compute_derivatives", H, y, j)
                    b = ask(ctx, name, lo, "compute_derivatives", H, y, j)
                    for i, q in ((0, "gradient"), (1, "Hessian")):
                        agree(ctx, f"{name}: {q} of maximising f and of minimising -f (Y={y}, J={j})", f"{name}.compute_derivatives:orientation", (a[0], parts(a[1])[i]), (b[0], parts(b[1])[i]), f"the {q} when maximising differs from that of minimising the negated problem", N)
                a = ask(ctx, name, var, "compute", {}, y)
                b = ask(ctx, name, lo, "compute", {}, y)
                agree(ctx, f"{name}: value of maximising f and of minimising -f (Y={y})", f"{name}.compute:orientation", a, b, "the value when maximising differs from that of minimising the negated problem", N)


def selftest(ctx):
    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    got = {}
    for m in ("good", "shifted", "negated"):
        r = []
        for y in (False, True):
            s = Session(w)
            o = s.new("A", [s.param("func", "callable"), s.param("jac", "callable")])
            a = [s.param("X", "array")] + ([s.param("givenY", "array")] if y else [])
            r.append((s, s.val(s.method(o, m, a))))
        got[m] = key(*r[0]) == key(*r[1])
    ctx.need(got == {"good": True, "shifted": False, "negated": False}, f"self-test: {got}")
    ctx.selftests.append("a route with another axis and a route with another sign are told apart; equal routes are not")


def run(ctx):
    ctx.rule("all routes to an indicator value, gradient or Hessian have the same normal form")
    ctx.parallel(list(INDICATORS), job)
    ctx.at_least("pair of routes compared", 60)
