"""Derivatives of the distance-based indicators are the derivatives of their own values."""

import itertools

from .. import elems, scen
from ..elems import A, Ev, Ext, Failure, Obj, P, PyExc, Undecided, add, array, mul, neg
from .c29 import atoms, same, short

EXPLANATION = (
    "Element-level abstract evaluation of the indicator classes on points whose coordinates are unknowns. The kernel is an unknown function: its values and its first and second "
    "derivatives at each pair of points are unknowns, related only by the kernel being an even function of the difference of its arguments. The polynomial that compute() returns is differentiated term by term with respect to every coordinate, pushed through the "
    "chain rule with unknown Jacobians and Hessians of the objectives, and compared entry by entry with what compute_derivatives, compute_gradient and compute_hessian return. Nearest-neighbour assignments are enumerated."
)
ASSUMPTIONS = [
    "the kernel is a twice differentiable even function of x - y, which is checked for the kernels of the package; JAX's jacrev/jacfwd/vmap/jit do what they document",
    "points are in general position: nearest neighbours do not change in a neighbourhood and no distance is zero",
    "GD and IGD: the derivatives are those of the p-th power of the value (documented); IGD with p = 2; with matching those of the sum, not the mean, of squared distances",
]


# ------------------------------------------------------------------------------------------- kernel
class Kernel:
    """the kernel or one of its derivatives; ``wrt`` lists the argument of each differentiation"""

    def __init__(self, names, wrt=()):
        self.names, self.wrt = names, tuple(wrt)

    def point(self, v):
        key = tuple(repr(x) for x in array(v).flat)
        if key not in self.names:
            raise Undecided(f"kernel at {key}")
        return self.names[key]

    def __call__(self, x, y, *a, **k):
        p, q = self.point(x), self.point(y)
        d = array(x).shape[0]
        if not self.wrt:
            return kval(p, q)
        flat = [kder(p, q, list(zip(self.wrt, c))) for c in itertools.product(range(d), repeat=len(self.wrt))]
        return A((d,) * len(self.wrt), flat)

    def diff(self, argnums=0):
        if argnums not in (0, 1) or len(self.wrt) > 1:
            raise Undecided("derivative of the kernel")
        return Kernel(self.names, self.wrt + (argnums,))


def kval(p, q):
    return P.atom("k|" + "|".join(sorted((p, q))))


def kder(p, q, by):
    """derivative of k at (p, q); ``by`` is a list of (argument, component). k(x, y) is an even function of x - y, so
    differentiating by the second argument changes the sign and exchanging the points changes it once per derivative"""
    sign = (-1) ** sum(arg for arg, _ in by)
    comp = sorted(a for _, a in by)
    if p > q:
        p, q, sign = q, p, sign * (-1) ** len(by)
    if p == q:
        if len(by) % 2:
            return 0
        p = q = "T"  # the same at every point
    v = P.atom("|".join(["d" * len(by), p, q] + [str(a) for a in comp]))
    return v if sign > 0 else neg(v)


def derive_atom(m, l, a):
    """derivative of one unknown with respect to coordinate a of point Y<l>"""
    me = f"Y{l}"
    if m == f"y.{l}.{a}":
        return 1
    if m in elems.ROOTS:
        raise Undecided("derivative of a root")
    part = m.split("|")
    if part[0] == "k":
        p, q = part[1:]
        if p == q:
            return 0
        return kder(p, q, [(0, a)]) if p == me else kder(p, q, [(1, a)]) if q == me else 0
    if part[0] == "d":
        p, q, c = part[1], part[2], int(part[3])
        if p == q:
            return 0
        r = 0
        if p == me:
            r = add(r, kder(p, q, [(0, c), (0, a)]))
        if q == me:
            r = add(r, kder(p, q, [(0, c), (1, a)]))
        return r
    if part[0] == "dd":
        raise Undecided("third derivative")
    return 0


def derive(v, l, a):
    r = 0
    for m, c in P.of(v).t.items():
        for i, x in enumerate(m):
            d = derive_atom(x, l, a)
            if d != 0:
                t = mul(c, d)
                for j, y in enumerate(m):
                    if j != i:
                        t = mul(t, P.atom(y))
                r = add(r, t)
    return r


def hessians(name, N, n, dim):
    """second derivatives of the objectives: symmetric"""
    return A((N, n, dim, dim), [P.atom(f"{name}.{l}.{a}.{min(i, j)}.{max(i, j)}") for l in range(N) for a in range(n) for i in range(dim) for j in range(dim)])


# ------------------------------------------------------------------------------------------- setting
class Setting:
    def __init__(self, w, N, M, n, dim, assign=None):
        self.w, self.N, self.M, self.n, self.dim, self.assign, self.matched = w, N, M, n, dim, assign, False
        self.Y, self.R, self.X = atoms("y", N, n), atoms("r", M, n), atoms("x", N, dim)
        self.J, self.H = atoms("J", N, n, dim), hessians("F", N, n, dim)
        names = {tuple(repr(x) for x in self.Y[i].flat): f"Y{i}" for i in range(N)}
        names.update({tuple(repr(x) for x in self.R[i].flat): f"R{i}" for i in range(M)})
        self.kernel = Kernel(names)
        ev = self.ev = Ev(w, {})
        ev.stubs.update({
            "functools.partial": lambda f, *a, **k: f if isinstance(f, Kernel) and not a else (lambda *b, **q: ev.call(f, list(a) + list(b), {**k, **q})),
            "jax.jit": lambda f=None, **k: f if f is not None else (lambda g: g), "jax.jacrev": self.diff, "jax.jacfwd": self.diff, "jax.grad": self.diff, "jax.vmap": self.vmap,
            "jax.hessian": lambda f, argnums=0: self.diff(self.diff(f, argnums), argnums),
            "scipy.spatial.distance.cdist": self.cdist, "numpy.argmin": self.argmin, "jax.numpy.argmin": self.argmin,
            "numpy.min": self.least, "numpy.amin": self.least, "jax.numpy.min": self.least,
        })
        self.refobj = Obj(reference_set=self.R, N=M, match=self.match)

    def match(self, *a, **k):
        self.refobj.f["reference_set"] = self.R

    def call(self, o, meth, *a, **k):
        """call an indicator while the reference set is still in the order of an earlier matching"""
        if self.matched:
            self.refobj.f["reference_set"] = array(self.R.rows()[::-1])
        return self.ev.method(o, meth, *a, **k)

    def diff(self, f, argnums=0, **k):
        if not isinstance(f, Kernel):
            raise Undecided("derivative of something else than the kernel")
        return f.diff(argnums)

    def vmap(self, f, in_axes=0, out_axes=0, **k):
        ev = self.ev

        def mapped(*args):
            ax = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
            if len(ax) != len(args) or any(x not in (0, None) for x in ax) or out_axes != 0:
                raise Undecided("vmap axes")
            ns = {array(v).shape[0] for v, x in zip(args, ax) if x == 0}
            if len(ns) != 1:
                raise Failure("vmap lengths")
            return array([ev.call(f, [array(v)[i] if x == 0 else v for v, x in zip(args, ax)], {}) for i in range(ns.pop())])

        return mapped

    def cdist(self, a, b, metric="euclidean", p=2, **k):
        a, b = array(a), array(b)
        out = []
        for x in a.rows():
            for y in b.rows():
                if isinstance(metric, str):
                    d = self.ev.bin("Sub", x, y)
                    sq = elems.einsum("i,i->", [d, d])
                    if metric == "sqeuclidean":
                        out.append(sq)
                    elif metric == "euclidean" or metric == "minkowski" and p == 2:
                        out.append(elems.power(P.of(sq), elems.Fraction(1, 2)))
                    else:
                        raise Undecided(f"metric {metric}")
                else:
                    out.append(elems.scalar(self.ev.call(metric, [x, y], {})))
        return A((a.shape[0], b.shape[0]), out)

    def argmin(self, D, axis=None, **k):
        D = array(D)
        if self.assign is None or axis not in (1, -1) or D.shape[0] != len(self.assign) or any(x >= D.shape[1] for x in self.assign):
            raise Undecided("argmin")
        return A((len(self.assign),), list(self.assign))

    def least(self, D, axis=None, **k):
        D = array(D)
        return array([D[i, int(j)] for i, j in enumerate(self.argmin(D, axis).flat)])

    def jac(self, what):
        def f(x, *a):
            k = repr(array(x).flat[0])
            i = int(k.split(".")[1])
            return array(what[i]).copy()

        return f

    def build(self, cls, **over):
        o = Obj(cls)
        fo = cls.lookup("__init__")[0].a[0]
        names = [p.arg for p in scen.params_of(fo)]
        val = {"n_var": self.dim, "n_obj": self.n, "ref": self.refobj, "func": self.jac(self.Y), "jac": self.jac(self.J), "hessian": self.jac(self.H), "hess": self.jac(self.H), "kernel": self.kernel}
        val.update(over)
        if not set(over) <= set(names):
            raise Undecided(f"parameters {names}")
        self.ev.method(o, "__init__", **{k: v for k, v in val.items() if k in names})
        return o


def expected(S, V):
    """gradient and Hessian of the polynomial V with respect to Y and to X"""
    N, n, dim = S.N, S.n, S.dim
    G = [[derive(V, l, a) for a in range(n)] for l in range(N)]
    H = {(l, a, m, b): derive(G[l][a], m, b) for l in range(N) for a in range(n) for m in range(N) for b in range(n)}
    gX = {}
    hX = {}
    for l in range(N):
        for i in range(dim):
            gX[l, i] = total(mul(G[l][a], S.J[l, a, i]) for a in range(n))
    for l, i, m, j in itertools.product(range(N), range(dim), range(N), range(dim)):
        v = total(mul(mul(S.J[l, a, i], H[l, a, m, b]), S.J[m, b, j]) for a in range(n) for b in range(n))
        if l == m:
            v = add(v, total(mul(G[l][a], S.H[l, a, i, j]) for a in range(n)))
        hX[l, i, m, j] = v
    return G, H, gX, hX


def total(it):
    r = 0
    for x in it:
        r = add(r, x)
    return r


def flat_hessian(S, M, k, get):
    """first entry of a Hessian (full or block form) that differs: (l, i, m, j, value, expected)"""
    N = S.N
    M = array(M)
    if M.shape == (N * k, N * k):
        at = lambda l, i, m, j: M[l * k + i, m * k + j]
        off = True
    elif M.shape == (N, k, k):
        at = lambda l, i, m, j: M[l, i, j]
        off = False
    else:
        return None, f"shape {M.shape}"
    for l, i, m, j in itertools.product(range(N), range(k), range(N), range(k)):
        e = get(l, i, m, j)
        if l != m and not off:
            if not same(e, 0):
                return (l, i, m, j, 0, e), None
            continue
        if not same(at(l, i, m, j), e):
            return (l, i, m, j, at(l, i, m, j), e), None
    return None, None


def indicator(ctx, name, N, M, n, dim, over, assign=None, power=None, scale=1):
    w = ctx.w
    cls = w.find_class(name)
    who = f"{name}{' ' + str(over) if over else ''} with {N} points, {M} references, {n} objectives, {dim} variables" + (f", nearest {assign}" if assign else "")
    elems.ROOTS.clear()
    try:
        S = Setting(w, N, M, n, dim, assign)
        o = S.build(cls, **over)
        S.matched = name == "MMDMatching" or bool(over.get("matching"))
        V = elems.scalar(S.call(o, "compute", X=S.X, Y=S.Y))
        if power is not None:
            V = elems.power(P.of(V), power)
        V = mul(V, scale)
        if any(m in elems.ROOTS for t in P.of(V).t for m in t):
            raise Undecided(f"value {short(V)}")
        G, H, gX, hX = expected(S, V)
    except (Undecided, Failure, PyExc) as e:
        ctx.ob("indicator not decided", f"{who}: {e}")
        return
    ctx.ob("values differentiated term by term", f"{who}: {len(P.of(V).t)} terms")
    where = f"{cls.module} {name}"

    def attempt(what, f):
        try:
            return f()
        except (Undecided, Failure, PyExc) as e:
            ctx.ob("indicator not decided", f"{who}, {what}: {e}")
            return None

    def gradient(g, what, want, k):
        try:
            g = array(g)
        except (Undecided, Failure):
            return
        if g.shape != (N, k):
            ctx.ob("indicator not decided", f"{who}, {what}: shape {g.shape}")
            return
        ctx.ob("gradient entries compared", f"{who}: {what}", N * k)
        for l in range(N):
            for a in range(k):
                if not same(g[l, a], want(l, a)):
                    ctx.fail("wrong-gradient", f"{name}:{what}", f"{who}: entry ({l}, {a}) of {what} is {short(g[l, a])}, the derivative of the value is {short(want(l, a))}", where=where)
                    return

    def hessian(M_, what, want, k):
        try:
            bad, odd = flat_hessian(S, M_, k, want)
        except (Undecided, Failure):
            return
        if odd:
            ctx.ob("indicator not decided", f"{who}, {what}: {odd}")
            return
        ctx.ob("Hessian entries compared", f"{who}: {what}", (N * k) ** 2)
        if bad:
            ctx.fail("wrong-hessian", f"{name}:{what}", f"{who}: entry ({bad[0]}.{bad[1]}, {bad[2]}.{bad[3]}) of {what} is {short(bad[4])}, the derivative of the value is {short(bad[5])}", where=where)

    fo = cls.lookup("compute_derivatives")[0].a[0]
    names = [p.arg for p in scen.params_of(fo)]
    jn = next((x for x in names if x.lower() in ("jacobian", "ydx")), None)
    kw = {"X": S.X, "Y": S.Y, **({jn: S.J} if jn else {})}
    forms = {"": kw, " without Jacobian": {"X": S.X, "Y": S.Y}, " from decision points only": {"X": S.X}}
    for how, kw in forms.items():
        out = attempt(f"compute_derivatives{how}", lambda: S.call(o, "compute_derivatives", **kw))
        if isinstance(out, (tuple, list)) and len(out) == 2:
            gradient(out[0], f"compute_derivatives{how}: gradient", lambda l, i: gX[l, i], dim)
            hessian(out[1], f"compute_derivatives{how}: Hessian", lambda *q: hX[q], dim)
        out = attempt(f"compute_derivatives{how} without Hessian", lambda: S.call(o, "compute_derivatives", compute_hessian=False, **kw))
        if isinstance(out, A):
            gradient(out, f"compute_derivatives{how}: gradient alone", lambda l, i: gX[l, i], dim)
    for meth in ("compute_gradient", "compute_hessian"):
        if cls.lookup(meth)[0] is None:
            continue
        d = attempt(meth, lambda: S.call(o, meth, S.X, S.Y))
        if isinstance(d, dict):
            for key, v in d.items():
                if key == "MMDdY":
                    gradient(v, f"{meth}: {key}", lambda l, a: G[l][a], n)
                elif key == "MMDdX":
                    gradient(v, f"{meth}: {key}", lambda l, i: gX[l, i], dim)
                elif key == "MMDdY2":
                    hessian(v, f"{meth}: {key}", lambda *q: H[q], n)
                elif key == "MMDdX2":
                    hessian(v, f"{meth}: {key}", lambda *q: hX[q], dim)


def kernel_symmetry(ctx, module, name):
    """k(x, y) = k(y, x) = k(x + t, y + t)"""
    w = ctx.w
    fo = elems.unwrapped(w.find_func(name)).a[0]
    elems.ROOTS.clear()

    def opaque(f, even=False):
        def g(v, *a, **k):
            def one(x):
                x = P.of(x)
                if even:
                    x = min(x, P.of(neg(x)), key=repr)
                return P.atom(f"{f}({x!r})")
            return A(v.shape, [one(x) for x in v.flat]) if isinstance(v, A) and v.shape else one(elems.scalar(v))
        return g

    ev = Ev(w, {})
    for m in ("numpy", "jax.numpy"):
        ev.stubs.update({f"{m}.exp": opaque("exp"), f"{m}.abs": opaque("abs", True), f"{m}.absolute": opaque("abs", True), f"{m}.sqrt": opaque("sqrt"), f"{m}.linalg.norm": opaque("norm", True)})
    x, y, t = atoms("x", 2), atoms("y", 2), atoms("t", 2)
    par = [p.arg for p in scen.params_of(fo)]
    kw = {p: P.atom(p) for p in par[2:] if p != "alpha"}
    try:
        k = lambda a, b: elems.scalar(ev.call(elems.Fn(fo.node, fo.module, None, None, fo.qual), [a, b], dict(kw)))
        base = k(x, y)
        forms = {"with its arguments exchanged": k(y, x), "after moving both points": k(ev.bin("Add", x, t), ev.bin("Add", y, t))}
    except (Undecided, Failure, PyExc) as e:
        ctx.ob("kernel not decided", f"{name}: {e}")
        return
    for what, v in forms.items():
        ctx.ob("kernel symmetries decided", f"{name} {what}")
        if not same(base, v):
            ctx.fail("kernel-not-symmetric", f"{name}", f"kernel {name}: {what} is {short(v)} instead of {short(base)}; the derivatives of the discrepancy rely on it", where=f"{module} {name}")


FIXTURE = '''
import numpy as np
class D:
    def __init__(self, ref, jac, hess, c=2):
        self.ref, self.jac, self.hess, self.c = ref, jac, hess, c
    def compute(self, X=None, Y=None):
        return np.mean(np.sum((Y - self.ref.reference_set) ** 2, axis=1))
    def compute_derivatives(self, X, Y=None, compute_hessian=True, Jacobian=None):
        d = Y - self.ref.reference_set
        g = self.c / len(Y) * np.einsum("ijk,ij->ik", Jacobian, d)
        H = np.array([self.hess(x) for x in X])
        h = self.c / len(Y) * (np.einsum("ijk,ijl->ikl", Jacobian, Jacobian) + np.einsum("ijkl,ij->ikl", H, d))
        return (g, h) if compute_hessian else g
'''


def selftest(ctx):
    from ..framework import Ctx

    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    got = []
    for c in (2, 3):
        t = Ctx(ctx.prop)
        t._w = w
        indicator(t, "D", 2, 2, 2, 2, {"c": c})
        got.append((len(t.findings), t.counts.get("Hessian entries compared", 0)))
    ctx.need(got[0] == (0, 16) and got[1][0] == 3, f"self-test: {got}")
    ctx.selftests.append("derivatives of a mean squared distance are accepted, the same with a wrong factor are reported")


def jobs(thorough):
    out = []
    for N, M, n, dim in ((2, 2, 2, 2), (3, 2, 2, 1), (2, 3, 1, 3), (1, 2, 2, 2)) + (((3, 4, 2, 2), (3, 3, 3, 1)) if thorough else ()):
        out.append(("MMD", N, M, n, dim, {}))
    for N, n, dim in ((2, 2, 2), (3, 2, 1), (2, 1, 3), (1, 2, 2)) + (((3, 2, 2), (3, 3, 1)) if thorough else ()):
        out.append(("MMDMatching", N, N, n, dim, {}))
        out.append(("MMDMatching", N, N, n, dim, {"beta": P.atom("beta")}))
        out.append(("InvertedGenerationalDistance", N, N, n, dim, {"matching": True}, None, None, N))
    for beta in (0, elems.Fraction(1, 32), elems.Fraction(1, 3), 1, 4):
        out.append(("MMDMatching", 2, 2, 2, 1, {"beta": beta}))
    for a in itertools.product(range(2), repeat=3):
        out.append(("InvertedGenerationalDistance", 2, 3, 2, 2, {}, a, 2))
    for a in itertools.product(range(3), repeat=2):
        out.append(("GenerationalDistance", 2, 3, 2, 2, {}, a, 2))
    out.append(("GenerationalDistance", 2, 2, 2, 2, {"p": 4}, (1, 0), 4))
    out.append(("GenerationalDistance", 2, 1, 1, 2, {"p": 6}, (0, 0), 6))
    return out


def run(ctx):
    ctx.rule("every entry of a returned gradient or Hessian is the derivative of the returned value")
    ctx.parallel(jobs(ctx.thorough), lambda c, j: indicator(c, *j), weight=lambda j: j[1] * j[2])
    for name in ("rational_quadratic", "rbf", "laplace"):
        if ctx.w.find_func(name) is not None:
            kernel_symmetry(ctx, "hvd/mmd.py", name)
