"""The packed Newton system and its solution keep every entry in its place."""

import itertools

from .. import elems, scen
from ..elems import A, Ev, Failure, Obj, P, PyExc, Sink, Undecided, add, array, mul, neg

EXPLANATION = (
    "Element-level abstract evaluation. The Newton-step methods are interpreted on arrays of fixed small shape whose elements are named unknowns (gradient, "
    "indicator Hessian, multipliers, constraint values, constraint gradients and Hessians), for every pattern of active multipliers. Each linear system handed to a solver is compared entry by "
    "entry with the Newton system of the primal-dual residual: rows are identified by their right-hand side, columns by the place their solution entry takes in the returned "
    "step. The solution is a vector of unknowns. Both the direct solver and the least-squares fallback are followed."
)
ASSUMPTIONS = [
    "the solvers return the solution of the system they are given; precondition_hessian returns a matrix of the same layout as its argument",
    "quick: two points with three variables and two multipliers, every activity pattern; thorough: also three points with three multipliers",
]


def atoms(name, *shape):
    out = []
    for c in itertools.product(*[range(k) for k in shape]):
        out.append(P.atom(name + "".join(f".{k}" for k in c)))
    return A(shape, out)


class System:
    def __init__(self, M, b):
        self.M, self.b = array(M), array(b)
        self.b = elems.reshape(self.b, (len(self.b.idx),))


class Setting:
    """one optimizer, one activity pattern"""

    def __init__(self, w, kind, N, d, m, active, fallback=False, precondition=False, hess=True):
        self.w, self.kind, self.N, self.d, self.m, self.active = w, kind, N, d, m, active
        self.systems = []
        cls = w.find_class(kind)
        self.g = atoms("g", N, d)
        if kind == "DpN":
            self.H = atoms("H", N, d, d)
        else:
            self.H = atoms("H", N * d, N * d)
        self.l, self.c, self.J = atoms("l", N, m), atoms("c", N, m), atoms("J", N, m, d)
        self.B = atoms("B", N, m, d, d) if hess and m else A((0,), [])
        mask = A((N, m), [bool(active[i][j]) for i in range(N) for j in range(m)])
        mask.boolean = True

        def derivatives(X=None, Y=None, *a, **k):
            want = a[0] if a and isinstance(a[0], bool) else k.get("compute_hessian", True)
            return (self.g.copy(), self.H.copy()) if want else self.g.copy()

        def solve(M, b, *a, **k):
            if fallback:
                raise PyExc("singular")
            return self.solution(M, b)

        def lstsq(M, b, *a, **k):
            return (self.solution(M, b), A((0,), []), 0, A((0,), []))

        stubs = {"scipy.linalg.solve": solve, "numpy.linalg.solve": solve, "numpy.linalg.lstsq": lstsq, "scipy.linalg.lstsq": lstsq,
                 "scipy.sparse.linalg.spsolve": lambda M, b, *a, **k: elems.reshape(solve(M, b), (-1,)),
                 "precondition_hessian": lambda H, *a, **k: array(H).copy()}
        ev = self.ev = Ev(w, stubs)
        ind = Obj(compute_derivatives=derivatives)
        primal = atoms("x", N, d)
        X = elems.concat([primal, self.l], 1) if m else primal
        self.state = Obj(
            w.find_class("State"), primal=primal, X=X, Y=atoms("y", N, 2), J=atoms("D", N, 2, d), dual=self.l, cstr_value=self.c, active_indices=mask,
            cstr_grad=self.J, cstr_hess=self.B, N=N, n_var=d, dim_p=d, n_eq=0, n_ieq=m, n_cstr=m, dim=d + m, _constrained=m > 0,
        )
        self.o = Obj(
            cls, state=self.state, indicator=ind, active_indicator=ind, N=N, dim_p=d, dim=d + m, dim_d=m, n_var=d, n_obj=2, n_eq=0, n_ieq=m, n_cstr=m, _constrained=m > 0,
            preconditioning=precondition, logger=Sink(), verbose=False, iter_count=1,
        )

    def solution(self, M, b):
        k = len(self.systems)
        s = System(M, b)
        n = len(s.b.idx)
        if s.M.ndim != 2 or s.M.shape != (n, n):
            raise Undecided(f"system of shape {s.M.shape} with {n} values")
        self.systems.append(s)
        return A(array(b).shape, [P.atom(f"s.{k}.{i}") for i in range(n)])

    def step(self):
        cls = self.o.cls
        fo = cls.lookup("_compute_netwon_step")[0]
        if fo is None:
            raise Undecided("no Newton step method")
        names = [p.arg for p in scen.params_of(fo.a[0])]
        if len(names) > 1:
            raise Undecided(f"parameters {names}")
        return self.ev.method(self.o, "_compute_netwon_step", *([self.state] if names else []))

    # -- the Newton system
    def residual(self, i, a):
        if a >= self.d:
            return self.c[i, a - self.d]
        r = self.g[i, a]
        for j in range(self.m):
            if self.active[i][j]:
                r = add(r, mul(self.l[i, j], self.J[i, j, a]))
        return r

    def entry(self, i, a, k, b):
        d = self.d
        if a < d and b < d:
            h = (self.H[i, a, b] if i == k else 0) if self.kind == "DpN" else self.H[i * d + a, k * d + b]
            if i == k and self.B.idx and self.kind != "MMDNewton":
                for j in range(self.m):
                    if self.active[i][j]:
                        h = add(h, mul(self.l[i, j], self.B[i, j, a, b]))
            return h
        if i != k or a >= d and b >= d:
            return 0
        return self.J[i, b - d, a] if b >= d else self.J[i, a - d, b]

    def labels(self):
        return [(i, a) for i in range(self.N) for a in range(self.d + self.m) if a < self.d or self.active[i][a - self.d]]


def same(x, y):
    return elems.norm(x) == elems.norm(y) and isinstance(elems.norm(x), (P,) + elems.NUM)


def label(d, at):
    return f"point {at[0]}, " + (f"variable {at[1]}" if at[1] < d else f"multiplier {at[1] - d}")


def judge(S, step, ret):
    """first disagreement (rule, message) or None"""
    N, d, m = S.N, S.d, S.m
    want = S.labels()
    step = array(step)
    if step.shape != (N, d + m):
        return "step-shape", f"the returned step has shape {step.shape}, expected {(N, d + m)}"
    col = {}
    for i in range(N):
        for a in range(d + m):
            v = elems.norm(step[i, a])
            if (i, a) not in want:
                if not (isinstance(v, elems.NUM) and v == 0):
                    return "inactive-step", f"{label(d, (i, a))} is inactive but its step is {v}"
                continue
            if not isinstance(v, P) or len(v.t) != 1 or len(next(iter(v.t))) != 1 or not next(iter(v.t))[0].startswith("s."):
                return "misplaced-step", f"the step of {label(d, (i, a))} is {v}, not an entry of the solution"
            (name,), c = next(iter(v.t.items()))
            key = tuple(int(x) for x in name.split(".")[1:])
            if key in col:
                return "misplaced-step", f"{label(d, (i, a))} and {label(d, col[key][0])} take the same entry of the solution"
            if c not in (1, -1):
                return "misplaced-step", f"the step of {label(d, (i, a))} is {v}"
            col[key] = ((i, a), c)
    for k, s in enumerate(S.systems):
        n = s.M.shape[0]
        used = [col.get((k, j)) for j in range(n)]
        if None in used:
            return "misplaced-step", f"entry {used.index(None)} of the solution of a {n}x{n} system is not used in the step"
        at, sign = [u[0] for u in used], {u[1] for u in used}
        if len(sign) > 1:
            return "misplaced-step", "entries of one solution enter the step with different signs"
        sign = sign.pop()
        own = set(at)
        left = list(at)
        for r in range(n):
            b = elems.norm(s.b[r])
            t = row = None
            for q in left:
                e = S.residual(*q)
                for f in (1, -1):
                    if same(b, mul(f, e)):
                        row, t = q, f
                        break
                if row is not None:
                    break
            if row is None:
                return "residual-entry", f"value {r} of the right-hand side is {short(b)}, which is not the residual of any of its unknowns (e.g. {label(d, left[0])}: {short(S.residual(*left[0]))})"
            left.remove(row)
            for j in range(n):
                x, y = s.M[r, j], mul(-sign * t, S.entry(*row, *at[j]))
                if not same(x, y):
                    return "matrix-entry", f"the coefficient of {label(d, at[j])} in the equation of {label(d, row)} is {short(x)}, expected {short(y)}"
        # unknowns the equations depend on but that are not in the system
        for q in own:
            for p in want:
                if p not in own and not same(S.entry(*q, *p), 0):
                    return "matrix-entry", f"the equation of {label(d, q)} lacks {label(d, p)}"
    if ret is not None:
        R = array(ret)
        if R.shape == (N, d + m):
            for i in range(N):
                for a in range(d + m):
                    e = S.residual(i, a) if (i, a) in want else 0
                    if not same(R[i, a], e):
                        return "residual-entry", f"the residual reported for {label(d, (i, a))} is {short(R[i, a])}, expected {short(e)}"
    return None


def short(v):
    s = repr(elems.norm(v))
    return s if len(s) < 90 else s[:87] + "..."


def cases(thorough):
    out = [(2, 3, 2, tuple(tuple(p[2 * i : 2 * i + 2]) for i in range(2))) for p in itertools.product((0, 1), repeat=4)]
    out += [(3, 2, 1, ((1,), (0,), (1,))), (3, 2, 3, ((1, 0, 1), (0, 0, 0), (0, 1, 0))), (3, 2, 3, ((0, 1, 1), (1, 1, 1), (1, 0, 0))), (2, 2, 0, ((), ())), (1, 2, 1, ((1,),))]
    if thorough:
        out += [(3, 2, 2, tuple(tuple(p[2 * i : 2 * i + 2]) for i in range(3))) for p in itertools.product((0, 1), repeat=6)]
        out += [(4, 2, 1, tuple((x,) for x in p)) for p in itertools.product((0, 1), repeat=4)]
    return out


def job(ctx, kind, part):
    w = ctx.w
    cls = w.find_class(kind)
    fo = cls.lookup("_compute_netwon_step")[0]
    where = f"{fo.a[0].module} {fo.a[0].qual}" if fo is not None else kind
    failed, decided = [], 0
    for n, (N, d, m, active) in enumerate(cases(ctx.thorough)):
        if n % 4 != part:
            continue
        for fallback, pre in ((False, False), (True, False), (False, True)):
            who = f"{kind}: {N} points, {d} variables, active {active or 'none'}{', fallback' if fallback else ''}{', preconditioned' if pre else ''}"
            S = Setting(w, kind, N, d, m, active, fallback, pre)
            try:
                out = S.step()
                step, ret = (out[0], out[1]) if isinstance(out, (tuple, list)) and len(out) == 2 else (out, None)
                if not S.systems:
                    raise Undecided("no linear system seen")
                bad = judge(S, step, ret)
            except (Undecided, PyExc) as e:
                ctx.ob("system not decided", f"{who}: {e}")
                continue
            except Failure as e:
                failed.append((who, active, str(e)))
                continue
            decided += 1
            ctx.ob("assembled systems compared entry by entry", who)
            ctx.ob("matrix entries compared", who, sum(len(s.M.idx) for s in S.systems))
            if bad:
                ctx.fail(bad[0], f"{kind}:{bad[0]}", f"{who}: {bad[1]}", where=where)
    for who, active, e in failed:
        if decided and any(x for r in active for x in r):
            ctx.ob("assembled systems compared entry by entry", who)
            ctx.fail("does-not-fit", f"{kind}:shapes", f"{who}: {e}, while other activity patterns are handled", where=where)
        else:
            ctx.ob("system not decided", f"{who}: {e}")


FIXTURE = '''
import numpy as np
from scipy.linalg import block_diag
def system(H, J, mask):
    J = block_diag(*[J[i, k] for i, k in enumerate(mask)])
    return np.r_[np.c_[H, J.T], np.c_[J, np.zeros((len(J), len(J)))]]
def pack(X, d, mask):
    return np.r_[X[:, :d].reshape(-1, 1), X[:, d:][mask].reshape(-1, 1)]
def swapped(X, d, mask):
    return np.r_[X[:, :d].T.reshape(-1, 1), X[:, d:][mask].reshape(-1, 1)]
'''


def selftest(ctx):
    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    ev = Ev(w)
    mask = A((2, 2), [True, False, True, True])
    M = ev.call(ev.glob("hvd.m", "system"), [atoms("H", 4, 4), atoms("J", 2, 2, 2), mask], {})
    X = atoms("x", 2, 4)
    good = ev.call(ev.glob("hvd.m", "pack"), [X, 2, mask], {})
    bad = ev.call(ev.glob("hvd.m", "swapped"), [X, 2, mask], {})
    names = lambda a: [repr(x) for x in a.flat]
    ok = M.shape == (7, 7) and repr(M[4, 1]) == "J.0.0.1" and repr(M[3, 6]) == "J.1.1.1" and M[4, 2] == 0
    ok = ok and names(good) == ["x.0.0", "x.0.1", "x.1.0", "x.1.1", "x.0.2", "x.1.2", "x.1.3"] and names(bad) != names(good)
    ctx.need(ok, f"self-test: {names(good)}")
    ctx.selftests.append("a system assembled from blocks and a packed vector have the expected entries; a transposed packing is told apart")


def run(ctx):
    ctx.rule("every entry of the assembled system, its right-hand side and the returned step is the one the primal-dual Newton system prescribes")
    jobs = [(k, part) for k in ("HVN", "DpN", "MMDNewton") for part in range(4)]
    ctx.parallel(jobs, lambda c, j: job(c, *j), weight=lambda j: 2)
