"""Hypervolume gradient and Hessian are the derivatives of the hypervolume."""

import itertools

from .. import elems
from ..elems import A, Ev, Failure, Fraction, Obj, P, PyExc, Undecided, add, array, mul, neg
from .c29 import atoms, same, short
from .c30 import hessians, total

EXPLANATION = (
    "Element-level abstract evaluation of HypervolumeDerivatives on objective points whose coordinates are unknowns of which only the order along each axis is fixed. All order types of up to three points are enumerated, "
    "dominated points included. hypervolume() and the non-dominated sort are replaced by their specification under the order type (the volume by inclusion and exclusion). Every entry of the gradient and the Hessian in objective space is compared with the derivative of that "
    "polynomial, and every entry in decision space with the chain rule over unknown Jacobians and Hessians of the objectives."
)
ASSUMPTIONS = [
    "hypervolume() returns the dominated volume and non_domin_sort the first front (N01, N05, C16)",
    "points are in general position: no two share a coordinate, and all lie inside the reference point",
]


def hv(points, ref):
    """dominated volume by inclusion and exclusion, as a polynomial"""
    out = 0
    inside = [p for p in points if all(elems.place(a) <= elems.place(r) for a, r in zip(p, ref))]
    for k in range(1, len(inside) + 1):
        for S in itertools.combinations(inside, k):
            t = 1 if k % 2 else -1
            for d, r in enumerate(ref):
                top = max((p[d] for p in S), key=elems.place)
                t = mul(t, add(r, neg(top)))
            out = add(out, t)
    return out


def d_atom(v, name):
    r = 0
    for m, c in P.of(v).t.items():
        for i, x in enumerate(m):
            if x == name:
                t = c
                for j, y in enumerate(m):
                    if j != i:
                        t = mul(t, P.atom(y))
                r = add(r, t)
    return r


def first_front(Y, *a, only_front_indices=False, **k):
    if not only_front_indices or a:
        raise Undecided("form of the sort")
    rows = [[elems.place(x) for x in array(r).flat] for r in array(Y).rows()]
    dom = lambda p, q: p != q and all(x <= y for x, y in zip(p, q))
    left, rank, f = set(range(len(rows))), {}, 0
    while left:
        front = [i for i in sorted(left) if not any(dom(rows[j], rows[i]) for j in left)]
        rank[f] = A((len(front),), front)
        left -= set(front)
        f += 1
    return rank


def case(ctx, N, n, dim, perms, minimize):
    """perms[d] is the order of the points along axis d + 1; along axis 0 they are in order"""
    w = ctx.w
    cls = w.find_class("HypervolumeDerivatives")
    orders = [tuple(range(N))] + list(perms)
    who = f"{N} points, {n} objectives, {dim} variables, order {orders}" + ("" if minimize else ", maximisation")
    sign = 1 if minimize else -1
    elems.ROOTS.clear()
    elems.ORDER.clear()
    try:
        Y, X, R = atoms("y", N, n), atoms("x", N, dim), atoms("ref", n)
        J, F = atoms("J", N, n, dim), hessians("F", N, n, dim)
        for d, o in enumerate(orders):
            for i in range(N):
                elems.ORDER[f"y.{i}.{d}"] = sign * Fraction(o[i] + 1)
            elems.ORDER[f"ref.{d}"] = sign * Fraction(N + 1)

        def of(what):
            return lambda x, *a: array(what[int(repr(array(x).flat[0]).split(".")[1])]).copy()

        ev = Ev(w, {})
        vol = lambda pts, ref, *a: hv([array(p).flat for p in array(pts).rows()], array(ref).flat)
        for fn, stub in (("hypervolume", vol), ("non_domin_sort", first_front)):
            f = w.find_func(fn)
            f = elems.unwrapped(f).a[0] if hasattr(f, "a") else f
            ev.stubs[f.qual] = stub
        o = Obj(cls)
        ev.method(o, "__init__", n_var=dim, n_obj=n, ref=R, func=of(Y), jac=of(J), hessian=of(F), minimization=minimize)
        flip = lambda v: v if minimize else neg(v)
        V = hv([[flip(x) for x in array(r).flat] for r in Y.rows()], [flip(x) for x in R.flat])
        at = [f"y.{i}.{d}" for i in range(N) for d in range(n)]
        G = [d_atom(V, a) for a in at]
        H = [[d_atom(g, a) for a in at] for g in G]
    except (Undecided, Failure, PyExc) as e:
        ctx.ob("hypervolume derivatives not decided", f"{who}: {e}")
        return
    JJ = lambda l, a, i: J[l, a, i]
    gX = [total(mul(G[l * n + a], JJ(l, a, i)) for a in range(n)) for l in range(N) for i in range(dim)]

    def hX(l, i, m, j):
        v = total(mul(mul(JJ(l, a, i), H[l * n + a][m * n + b]), JJ(m, b, j)) for a in range(n) for b in range(n))
        return add(v, total(mul(G[l * n + a], F[l, a, i, j]) for a in range(n))) if l == m else v

    def gradient(v, what, want):
        v = array(v)
        if len(v.flat) != len(want):
            ctx.ob("hypervolume derivatives not decided", f"{who}, {what}: shape {v.shape}")
            return
        ctx.ob("gradient entries compared", f"{who}: {what}", len(want))
        for q, (x, e) in enumerate(zip(v.flat, want)):
            if not same(x, e):
                ctx.fail("wrong-gradient", f"HypervolumeDerivatives:{what}", f"{who}: entry {q} of {what} is {short(x)}, the derivative of the hypervolume is {short(e)}", where=f"{cls.module} HypervolumeDerivatives")
                return

    def hessian(v, what, want, k):
        v = array(v)
        if v.shape != (N * k, N * k):
            ctx.ob("hypervolume derivatives not decided", f"{who}, {what}: shape {v.shape}")
            return
        ctx.ob("Hessian entries compared", f"{who}: {what}", (N * k) ** 2)
        for l, i, m, j in itertools.product(range(N), range(k), range(N), range(k)):
            x, e = v[l * k + i, m * k + j], want(l, i, m, j)
            if not same(x, e):
                ctx.fail("wrong-hessian", f"HypervolumeDerivatives:{what}", f"{who}: entry ({l}.{i}, {m}.{j}) of {what} is {short(x)}, the derivative of the hypervolume is {short(e)}", where=f"{cls.module} HypervolumeDerivatives")
                return

    def attempt(what, meth, **kw):
        try:
            return ev.method(o, meth, **kw)
        except (Undecided, Failure, PyExc) as e:
            ctx.ob("hypervolume derivatives not decided", f"{who}, {what}: {type(e).__name__} {e}")
            return None

    forms = {"": {"X": X, "Y": Y, "YdX": J}, " without Jacobian": {"X": X, "Y": Y}, " from decision points only": {"X": X}}
    for how, kw in forms.items():
        out = attempt(f"compute_derivatives{how}", "compute_derivatives", **kw)
        if isinstance(out, (tuple, list)) and len(out) == 2:
            gradient(out[0], f"compute_derivatives{how}: gradient", gX)
            hessian(out[1], f"compute_derivatives{how}: Hessian", hX, dim)
        out = attempt(f"compute_derivatives{how} without Hessian", "compute_derivatives", compute_hessian=False, **kw)
        if isinstance(out, A):
            gradient(out, f"compute_derivatives{how}: gradient alone", gX)
    if cls.lookup("_compute_hessian")[0] is not None:
        d = attempt("objective space", "_compute_hessian", X=X, Y=Y, YdX=J)
        if isinstance(d, dict):
            if "HVdY" in d:
                gradient(d["HVdY"], "HVdY", G)
            if "HVdY2" in d:
                hessian(d["HVdY2"], "HVdY2", lambda l, a, m, b: H[l * n + a][m * n + b], n)
    try:
        v = elems.scalar(ev.method(o, "compute", Y=Y))
        ctx.ob("values compared", who)
        if not same(v, V):
            ctx.fail("wrong-value", "HypervolumeDerivatives:compute", f"{who}: compute returns {short(v)} instead of {short(V)}", where=f"{cls.module} HypervolumeDerivatives")
    except (Undecided, Failure, PyExc) as e:
        ctx.ob("hypervolume derivatives not decided", f"{who}, compute: {e}")


def jobs(thorough):
    out = []
    for N, n, dim in ((1, 2, 2), (2, 2, 2), (3, 2, 1), (1, 3, 1), (2, 3, 1), (3, 3, 1)) + (((3, 2, 2), (2, 3, 2), (4, 2, 1), (2, 4, 1)) if thorough else ()):
        for perms in itertools.product(itertools.permutations(range(N)), repeat=n - 1):
            for minimize in (True, False):
                if thorough or minimize or N * n < 9:
                    out.append((N, n, dim, perms, minimize))
    if not thorough:
        out.append((4, 2, 1, ((3, 2, 1, 0),), True))
        out.append((4, 2, 1, ((3, 0, 2, 1),), False))
        out.append((3, 3, 1, ((1, 2, 0), (2, 0, 1)), False))
    return out


FIXTURE = '''
import numpy as np
from .u import hypervolume, non_domin_sort
class HypervolumeDerivatives:
    def __init__(self, n_var, n_obj, ref, func=None, jac=None, hessian=None, minimization=True):
        self.s = 1 if minimization else -1
        self.ref, self.jac, self.func = ref, jac, func
    def compute(self, X=None, Y=None):
        return hypervolume(self.s * Y, self.s * self.ref)
    def compute_derivatives(self, X, Y=None, compute_hessian=True, YdX=None):
        Y = np.array([self.func(x) for x in X])
        r = self.s * self.ref
        d = self.s * Y - r
        g = self.s * np.array([[d[i, 1 - k] for k in range(2)] for i in range(len(Y))])
        return np.einsum("ij,ijk->ik", g, np.array([self.jac(x) for x in X])) * SIGN
'''


def selftest(ctx):
    from ..framework import Ctx

    got = []
    for k in ("1", "-1"):
        w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/u.py": "def hypervolume(a, r):\n    return 0\n\n\ndef non_domin_sort(x, only_front_indices=False):\n    return {}\n", "hvd/m.py": FIXTURE.replace("SIGN", k)})
        t = Ctx(ctx.prop)
        t._w = w
        case(t, 1, 2, 2, ((0,),), False)
        got.append((len(t.findings), t.counts.get("gradient entries compared", 0), t.counts.get("values compared", 0)))
    ctx.need(got[0] == (0, 6, 1) and got[1][0] > 0, f"self-test: {got}")
    ctx.selftests.append("the gradient of the volume of one box is accepted, with the opposite sign it is reported")


def run(ctx):
    ctx.rule("every entry of a returned hypervolume gradient or Hessian is the derivative of the dominated volume")
    ctx.parallel(jobs(ctx.thorough), lambda c, j: case(c, *j), weight=lambda j: (j[0] * j[1]) ** 3)
