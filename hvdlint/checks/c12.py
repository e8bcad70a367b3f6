"""The Newton system: matrix, residual, sign, and the fallback for singular systems."""

import ast

from .. import scen
from ..terms import K, Op, T, is_k, kval, leaves_of, mk, show, subterms
from ..world import Session

EXPLANATION = (
    "The step computation of each Newton optimizer is interpreted with the population's data (values, Jacobians, constraint values, "
    "gradients, Hessians, active sets, multipliers) as symbols and the indicator as an uninterpreted function, which gives the linear "
    "system as an exact term. Checked on it: the fallback solves the same matrix and right-hand side, covers exceptions and warnings and "
    "has the same sign; the step is minus the solution; the matrix is [[A, H^T], [H, 0]] with H the gradients of the active constraints "
    "and A the indicator Hessian plus multipliers times constraint Hessians; preconditioning flips definiteness the right way; in the "
    "residual each multiplier is paired with the gradient of the same point's same active constraint."
)
ASSUMPTIONS = [
    "a system whose matrix cannot be decomposed into blocks is counted as undetermined and not reported",
    "MMDNewton omits constraint curvature by design (its population carries no constraint Hessians)",
]

PEEL = {
    "scipy.sparse.csc_matrix", "scipy.sparse.csr_matrix", "scipy.sparse.csc_array", "scipy.sparse.csr_array", "scipy.sparse.coo_matrix",
    "numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.ravel", "numpy.copy", "numpy.squeeze", "numpy.atleast_2d", "numpy.atleast_1d",
    "numpy.asfortranarray", "numpy.matrix", "numpy.float64",
}
DIRECT = {"scipy.linalg.solve", "numpy.linalg.solve", "scipy.sparse.linalg.spsolve", "scipy.linalg.lu_solve", "scipy.linalg.cho_solve", "scipy.linalg.solve_banded"}
LSQ = {"numpy.linalg.lstsq", "scipy.linalg.lstsq"}
INDICATORS = ("HypervolumeDerivatives", "GenerationalDistance", "InvertedGenerationalDistance", "MMD", "MMDMatching")
NEWTON = {"HVN": -1, "DpN": 1, "MMDNewton": 1}  # sign under which the preconditioner works (ascent / descent)

FIXTURE = '''
import numpy as np
import warnings
from scipy.linalg import solve
class A:
    def good(self, M, b, c):
        with warnings.catch_warnings():
            warnings.filterwarnings("error")
            try:
                x = -1 * solve(M, b.reshape(-1, 1))
            except Exception:
                x = -1 * np.linalg.lstsq(M, b.reshape(-1, 1), rcond=None)[0]
        return x
    def otherside(self, M, b, c):
        with warnings.catch_warnings():
            warnings.filterwarnings("error")
            try:
                x = -1 * solve(M, b)
            except Exception:
                x = -1 * np.linalg.lstsq(M, c, rcond=None)[0]
        return x
    def sign(self, M, b, c):
        with warnings.catch_warnings():
            warnings.filterwarnings("error")
            try:
                x = -1 * solve(M, b)
            except Exception:
                x = np.linalg.lstsq(M, b, rcond=None)[0]
        return x
    def narrow(self, M, b, c):
        with warnings.catch_warnings():
            warnings.filterwarnings("error")
            try:
                x = -1 * solve(M, b)
            except ValueError:
                x = -1 * np.linalg.lstsq(M, b, rcond=None)[0]
        return x
    def unwarned(self, M, b, c):
        try:
            x = -1 * solve(M, b)
        except Exception:
            x = -1 * np.linalg.lstsq(M, b, rcond=None)[0]
        return x
'''


def is_call(t, names=None):
    if not (isinstance(t, T) and t.tag == "op" and t.a[0] == "call" and isinstance(t.a[1], T)):
        return None
    f = t.a[1]
    n = f.a[0] if f.tag == "ext" else kval(f) if is_k(f) else None
    return n if n is not None and (names is None or n in names) else None


def items(t):
    if isinstance(t, T) and t.tag == "op" and t.a[0] in ("tuple", "list"):
        return t.a[1:]
    if isinstance(t, T) and t.tag == "tup":
        return t.a
    return None


def peel(t):
    while isinstance(t, T):
        if is_call(t, PEEL):
            t = t.a[2]
        elif t.tag == "op" and t.a[0] in ("reshape", "ravel", "astype", "copy", "mark") and len(t.a) > 1:
            t = t.a[2] if t.a[0] == "mark" else t.a[1]
        else:
            return t
    return t


def strip(t):
    """(sign, term) without value-preserving wrappers and negations"""
    sg = 1
    while isinstance(t, T):
        t = peel(t)
        if t.tag == "op" and t.a[0] == "neg":
            sg, t = -sg, t.a[1]
        elif t.tag == "op" and t.a[0] == "mul" and len(t.a) == 3 and any(is_k(x) and kval(x) in (-1, 1) for x in t.a[1:]):
            k = [x for x in t.a[1:] if is_k(x)][0]
            rest = [x for x in t.a[1:] if x is not k]
            if len(rest) != 1:
                break
            sg, t = sg * int(kval(k)), rest[0]
        else:
            break
    return sg, t


# ---------------------------------------------------------------- the solver pair
def signs(t, want, sign=1, depth=0):
    """signs with which the wanted subterm enters the value, through value-preserving and selecting operations"""
    out = set()
    w = want(t)
    if w:
        return {sign * (w if w in (1, -1) else 1)}
    if not isinstance(t, T) or depth > 40:
        return out
    if t.tag == "phi":
        for x in t.a[0]:
            out |= signs(x, want, sign, depth + 1)
        return out
    if t.tag == "tup":
        for x in t.a:
            out |= signs(x, want, sign, depth + 1)
        return out
    if t.tag != "op":
        return out
    n = t.a[0]
    if n == "neg":
        return signs(t.a[1], want, -sign, depth + 1)
    if n == "mul":
        s = sign
        for x in t.a[1:]:
            if is_k(x) and isinstance(kval(x), (int, float)) and kval(x) < 0:
                s = -s
        for x in t.a[1:]:
            out |= signs(x, want, s, depth + 1)
        return out
    for x in t.a[1:]:
        if isinstance(x, T):
            out |= signs(x, want, sign, depth + 1)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    out |= signs(y, want, sign, depth + 1)
    return out


def broad(h):
    if h.type is None:
        return True
    names = {n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(h.type) if isinstance(n, (ast.Name, ast.Attribute))}
    if names & {"Exception", "BaseException"}:
        return True
    return bool(names & {"LinAlgError"}) and bool({n for n in names if n.endswith("Warning")})


def solver_events(ev):
    return [e for e in ev if e.kind == "extcall" and (e.name in DIRECT or e.name in LSQ) and len(e.argvals) >= 2]


def pairs(ctx, who, ev):
    """[(matrix, rhs, event)] of the direct solves, after checking each against its fallback"""
    se = solver_events(ev)
    direct = [e for e in se if e.name in DIRECT]
    lsq = [e for e in se if e.name in LSQ]
    errs = [e for e in ev if e.kind == "extcall" and e.name in ("warnings.filterwarnings", "warnings.simplefilter") and e.argvals and is_k(e.argvals[0]) and kval(e.argvals[0]) == "error"]
    out = []
    for e in direct:
        A, b = peel(e.argvals[0]), strip(e.argvals[1])[1]
        ctx.ob("Newton system solved", f"{who}: {e.name} at {e.where}")
        out.append((A, b, e))
        hs = [h for t in e.tries or () for h in t.handlers]
        if not any(broad(h) for h in hs):
            ctx.fail("no-fallback", f"{e.func}:{e.name}", "a singular or ill-conditioned system makes the step computation raise: no handler around the solve takes every solver error and warning", e)
            continue
        raised = any(x.withs is not None and e.withs and set(map(id, x.withs)) & set(map(id, e.withs)) or x.withs == e.withs and e.withs for x in errs)
        ctx.ob("numerical-singularity warnings turned into errors", f"{who}: {bool(raised)}")
        if not raised and not any(x.where.split(":")[0] == e.where.split(":")[0] and x.func == e.func for x in errs):
            ctx.fail("warning-unhandled", f"{e.func}:{e.name}", "a nearly singular system only makes the solver warn, and warnings are not turned into errors here: the least-squares fallback is never taken for it", e)
        # the fallback runs where the solve could not: same function, same call path (handlers may call a helper)
        cands = [x for x in lsq if tuple(x.stack)[: len(tuple(e.stack))] == tuple(e.stack) or x.func == e.func] or lsq
        if not cands:
            ctx.fail("no-fallback", f"{e.func}:lstsq", "there is no least-squares fallback for the singular case", e)
            continue
        good = [x for x in cands if peel(x.argvals[0]) is A and strip(x.argvals[1])[1] is b]
        ctx.ob("fallback compared with the direct solve", f"{who}: {len(good)} of {len(cands)} identical")
        if not good:
            x = cands[0]
            if peel(x.argvals[0]) is not A:
                ctx.fail("fallback-differs", f"{x.func}:matrix", f"the least-squares fallback solves a different matrix: {show(peel(x.argvals[0]), 80)}", x)
            if strip(x.argvals[1])[1] is not b:
                ctx.fail("fallback-differs", f"{x.func}:residual", f"the least-squares fallback solves for a different right-hand side: {show(strip(x.argvals[1])[1], 80)}", x)
    return out


def solver_in(t, names):
    """0, or the sign with which the right-hand side enters the solver call"""
    if not (isinstance(t, T) and is_call(t, names) is not None):
        return 0
    return strip(t.a[3])[0] if len(t.a) > 3 else 1


def sign_check(ctx, who, ev, result):
    """the step is minus the solution, on the direct and on the fallback path"""
    # value of an array filled by stores: sign of the stores times the sign of the array in the result
    for names, what in ((DIRECT, "direct"), (LSQ, "fallback")):
        want = lambda t: solver_in(t, names)
        got = set()
        r = signs(result, want) if result is not None else set()
        got |= r
        if not got:
            outer = 1
            m = result
            while isinstance(m, T) and m.tag == "op" and m.a[0] in ("neg", "mul"):
                if m.a[0] == "neg":
                    outer, m = -outer, m.a[1]
                else:
                    for x in m.a[1:]:
                        if is_k(x) and kval(x) < 0:
                            outer = -outer
                    rest = [x for x in m.a[1:] if not is_k(x)]
                    if len(rest) != 1:
                        break
                    m = rest[0]
            for e in ev:
                vals = []
                if e.kind == "store" and e.valnum is not None:
                    vals = [e.valnum]
                elif e.kind == "summary":
                    vals = list(e.argvals)
                for v in vals:
                    got |= {outer * x for x in signs(v, want)}
        ctx.ob(f"sign of the {what} step", f"{who}: {sorted(got)}")
        if 1 in got:
            ctx.fail("step-sign", f"{who}:{what}", f"the {what} solution enters the step with a positive sign; the Newton step is minus the solution", where=who)


# ---------------------------------------------------------------- block structure
def rows_of(t):
    """list of block rows of a matrix term"""
    n = is_call(t)
    if n in ("numpy.r_", "numpy.vstack", "numpy.row_stack"):
        return items(t.a[2])
    if n == "numpy.concatenate" and len(t.a) == 3:
        return items(t.a[2])
    if n == "numpy.concatenate" and len(t.a) > 3:
        ax = [x for x in t.a[3:] if isinstance(x, T)]
        k = [kval(x.a[2]) if x.tag == "op" and x.a[0] == "kw" else kval(x) if is_k(x) else None for x in ax]
        if k == [0]:
            return items(t.a[2])
    return None


def cols_of(t):
    n = is_call(t)
    if n in ("numpy.c_", "numpy.hstack", "numpy.column_stack"):
        return items(t.a[2])
    if n == "numpy.concatenate" and len(t.a) > 3:
        ax = [x for x in t.a[3:] if isinstance(x, T)]
        k = [kval(x.a[2]) if x.tag == "op" and x.a[0] == "kw" else kval(x) if is_k(x) else None for x in ax]
        if k in ([1], [-1]):
            return items(t.a[2])
    return None


def blocks(t):
    """((A, B), (C, D)) or None"""
    t = peel(t)
    if is_call(t, {"numpy.block", "numpy.bmat", "scipy.sparse.bmat"}):
        rs = items(t.a[2])
        if rs and len(rs) == 2:
            cs = [items(r) for r in rs]
            if all(c and len(c) == 2 for c in cs):
                return cs
        return None
    rs = rows_of(t)
    if rs and len(rs) == 2:
        cs = [cols_of(r) for r in rs]
        if all(c and len(c) == 2 for c in cs):
            return cs
    cs = cols_of(t)
    if cs and len(cs) == 2:
        rs = [rows_of(c) for c in cs]
        if all(r and len(r) == 2 for r in rs):
            return [(rs[0][0], rs[1][0]), (rs[0][1], rs[1][1])]
    return None


def transposed(a, b):
    def tr(x):
        x = peel(x)
        if x.tag == "op" and x.a[0] == "T":
            return peel(x.a[1])
        if x.tag == "op" and x.a[0] in ("transpose",) and len(x.a) == 2:
            return peel(x.a[1])
        if is_call(x, {"numpy.transpose"}):
            return peel(x.a[2])
        return None

    return tr(a) is peel(b) or tr(b) is peel(a)


def zero(t):
    t = peel(t)
    return bool(is_call(t, {"numpy.zeros", "numpy.zeros_like"})) or (t.tag == "op" and t.a[0] == "mul" and any(is_k(x) and kval(x) == 0 for x in t.a[1:]))


def has(t, labels):
    return any(x.tag == "op" and x.a[0] == "sym" and kval(x.a[1]) in labels for x in subterms(t))


def opaque_value(t):
    return any(x.tag == "top" for x in subterms(t))


def summands(t):
    t = peel(t)
    if t.tag == "op" and t.a[0] == "add":
        out = []
        for x in t.a[1:]:
            out += summands(x)
        return out
    return [t]


def row_token(i):
    if isinstance(i, T) and i.tag == "op" and i.a[0] in ("enum_idx", "range_elem", "anyrow", "elem"):
        return ["row"]
    if isinstance(i, T) and i.tag == "k" and isinstance(kval(i), int):
        return [kval(i)]
    if isinstance(i, T) and i.tag == "op" and i.a[0] == "tuple":
        return sum((row_token(x) for x in i.a[1:]), [])
    if isinstance(i, T) and i.tag == "tup":
        return sum((row_token(x) for x in i.a), [])
    if isinstance(i, T) and i.tag == "sl":
        return []
    return ["mask"] if isinstance(i, T) else []


def selections(t, label):
    """index tokens of every maximal subscript chain that starts at the symbol"""
    out = []
    done = set()

    def base(x):
        """(tokens, mask terms) if x is a chain over the symbol"""
        if x.tag == "op" and x.a[0] == "sym" and kval(x.a[1]) == label:
            return [], []
        if x.tag == "op" and x.a[0] == "sub" and len(x.a) == 3:
            b = base(x.a[1])
            if b is None:
                return None
            toks = row_token(x.a[2])
            masks = list(mask_terms(x.a[2]))
            return b[0] + toks, b[1] + masks
        return None

    def go(x):
        if x in done or x.tag == "top":
            return
        done.add(x)
        b = base(x)
        parts = x.a[1:] if x.tag == "op" and x.a[0] == "mul" else x.a[2:3] if is_call(x, {"numpy.where", "numpy.multiply"}) else ()
        m = [y for y in parts if isinstance(y, T) and plain(y, "st.active_indices")]
        if m:
            # the values of inactive entries are blanked out
            out.extend((toks + ["mask"], masks + m) for y in x.a[1:] if isinstance(y, T) for toks, masks in selections(y, label))
            return
        if b is not None:
            out.append(b)
            # indices may select other things, the symbol itself cannot occur in them
            return
        for y in x.a:
            sub(y)

    def sub(y):
        if isinstance(y, T):
            go(y)
        elif isinstance(y, (tuple, frozenset)):
            for z in y:
                sub(z)

    go(t)
    return out


def anon(t):
    """the term with every row counter replaced by one token"""
    if isinstance(t, T):
        if t.tag == "op" and t.a[0] in ("enum_idx", "range_elem", "anyrow", "elem"):
            return Op("row")
        return mk(t.tag, *[anon(x) for x in t.a])
    if isinstance(t, tuple):
        return tuple(anon(x) for x in t)
    if isinstance(t, frozenset):
        return frozenset(anon(x) for x in t)
    return t


def mask_terms(i):
    if isinstance(i, T) and (i.tag == "tup" or i.tag == "op" and i.a[0] == "tuple"):
        for x in i.a:
            if isinstance(x, T):
                yield from mask_terms(x)
    elif isinstance(i, T) and i.tag != "sl" and row_token(i) == ["mask"]:
        yield anon(i)


ACTIVE = "st.active_indices"


def contractions(t, labels):
    """smallest subterms in which a multiplier meets one of the given constraint quantities"""
    out = []
    for x in subterms(t):
        if x.tag != "op" or x.a[0] in ("tuple", "list", "sub", "add", "listof"):
            continue
        if not (has(x, {"st.X"}) and has(x, labels)):
            continue
        kids = [y for y in x.a if isinstance(y, T)]
        kids += [z for y in x.a if isinstance(y, tuple) for z in y if isinstance(z, T)]
        if any(has(k, {"st.X"}) and has(k, labels) for k in kids):
            continue
        if is_call(x) is not None and isinstance(x.a[1], T) and is_k(x.a[1]):
            continue  # an uninterpreted function of the population
        out.append(x)
    return out


def pairing(ctx, who, x, label, where):
    """multiplier and constraint quantity are of the same point and both restricted to the active set"""
    d, c = selections(x, "st.X"), selections(x, label)
    if len(d) != 1 or len(c) != 1:
        ctx.ob("undetermined pairing", f"{who}: {show(x, 60)}")
        return
    ctx.ob("multiplier paired with a constraint derivative", f"{who}: {label[3:]} {d[0][0]} {c[0][0]}")
    short = label[3:]
    if "mask" not in c[0][0] and "mask" not in d[0][0]:
        ctx.fail("inactive-included", f"{who}:{short}", f"multipliers are multiplied with `{short}` of all constraints, active or not", where=where)
    elif d[0][0] != c[0][0]:
        ctx.fail("pairing", f"{who}:{short}", f"multipliers and `{short}` are not selected alike: {show(x, 140)}", where=where)
    elif d[0][1] != c[0][1]:
        ctx.fail("pairing", f"{who}:{short}", f"multipliers and `{short}` are selected by different index sets: {show(x, 140)}", where=where)


def indicator_term(t, k=None):
    """calls of an indicator's derivative function inside a term"""
    return [x for x in subterms(t) if (is_call(x) or "").endswith("compute_derivatives")]


def structure(ctx, who, A, e, constrained, sigma, curvature):
    if A.tag == "phi":
        for x in A.a[0]:
            structure(ctx, who, peel(x), e, constrained, sigma, curvature)
        return
    if not constrained:
        top_left(ctx, who, A, e, sigma, False)
        return
    b = blocks(A)
    if b is None:
        if not opaque_value(A) and not has(A, {"st.cstr_grad"}):
            ctx.fail("matrix-blocks", f"{who}:missing", f"with constraints the Newton matrix does not contain their gradients: {show(A, 120)}", e)
        ctx.ob("undetermined matrix", f"{who}: {show(A, 60)}")
        return
    (a, h_t), (h, z) = b
    ctx.ob("block system", f"{who}: [[{show(a, 30)}, ..], [{show(h, 30)}, ..]]")
    if not transposed(h_t, h):
        ctx.fail("matrix-blocks", f"{who}:asymmetric", f"the off-diagonal blocks are not transposes of each other: {show(h_t, 80)} / {show(h, 80)}", e)
    if not zero(z):
        ctx.fail("matrix-blocks", f"{who}:dual-block", f"the multiplier block is not zero: {show(z, 100)}", e)
    if not opaque_value(h):
        if not has(h, {"st.cstr_grad"}) or has(h, {"st.cstr_hess", "st.J", "st.cstr_value"}):
            ctx.fail("matrix-blocks", f"{who}:gradients", f"the off-diagonal block does not consist of the constraint gradients: {show(h, 100)}", e)
        else:
            orient(ctx, who, h_t, h, e)
            for toks, _ in selections(h, "st.cstr_grad"):
                ctx.ob("active selection of constraint gradients", f"{who}: {toks}")
                if "mask" not in toks:
                    ctx.fail("inactive-included", f"{who}:matrix", "the matrix contains the gradients of all constraints, active or not", e)
    top_left(ctx, who, a, e, sigma, curvature)


def orient(ctx, who, upper, lower, e):
    """rows of the lower block are constraints, so the upper block is the transposed one"""
    def is_t(x):
        x = peel(x)
        return x.tag == "op" and x.a[0] in ("T", "transpose") or bool(is_call(x, {"numpy.transpose"}))

    ctx.ob("orientation of the gradient blocks", who)
    if is_t(lower) and not is_t(upper):
        ctx.fail("matrix-blocks", f"{who}:orientation", "the gradients stand as columns below and rows on the right: the blocks are exchanged", e)


def top_left(ctx, who, a, e, sigma, curvature):
    if opaque_value(a):
        ctx.ob("undetermined primal block", f"{who}: {show(a, 60)}")
        return
    parts = summands(a)
    ind = [p for p in parts if indicator_term(p)]
    cur = [p for p in parts if has(p, {"st.cstr_hess"}) and p not in ind]
    ctx.ob("primal block", f"{who}: {len(ind)} indicator part(s), {len(cur)} curvature part(s)")
    if not ind:
        ctx.fail("primal-block", f"{who}:indicator", f"the primal block lacks the indicator Hessian: {show(a, 120)}", e)
    for p in ind:
        for q in p.a[0] if p.tag == "phi" else (p,):
            hessian_part(ctx, who, q, e, sigma)
    if curvature and not cur:
        ctx.fail("primal-block", f"{who}:curvature", f"the primal block lacks multipliers times constraint Hessians: {show(a, 120)}", e)
    for p in cur:
        if p.tag == "phi":
            alts = [q for q in p.a[0] if not zero(q)]
        else:
            alts = [p]
        for q in alts:
            if signs(q, lambda t: t.tag == "op" and t.a[0] == "sym" and kval(t.a[1]) == "st.cstr_hess") == {-1}:
                ctx.fail("primal-block", f"{who}:curvature-sign", f"the constraint curvature enters with a negative sign: {show(q, 100)}", e)
            for x in contractions(q, {"st.cstr_hess"}):
                pairing(ctx, who, x, "st.cstr_hess", e.where)


def hessian_part(ctx, who, p, e, sigma):
    """the indicator's second result, or that preconditioned with the right sign"""
    calls = [x for x in subterms(p) if is_call(x, {"precondition_hessian"})]
    for x in subterms(p):
        if x.tag == "op" and x.a[0] == "sub" and (is_call(x.a[1]) or "").endswith("compute_derivatives") and is_k(x.a[2]):
            ctx.ob("indicator result used as Hessian", f"{who}: component {kval(x.a[2])}")
            if kval(x.a[2]) not in (1, -1):
                ctx.fail("primal-block", f"{who}:component", f"component {kval(x.a[2])} of the indicator's derivatives is used as the Hessian", e)
    outer = signs(p, lambda t: (is_call(t) or "").endswith("compute_derivatives"))
    if not calls:
        if -1 in outer:
            ctx.fail("primal-block", f"{who}:sign", f"the indicator Hessian enters with a negative sign: {show(p, 100)}", e)
        return
    for c in calls:
        inner = signs(c.a[2], lambda t: (is_call(t) or "").endswith("compute_derivatives"))
        out = signs(p, lambda t: t is c)
        ctx.ob("preconditioned Hessian", f"{who}: inner {sorted(inner)} outer {sorted(out)}")
        if inner and out and (inner != {sigma} or out != {sigma}):
            ctx.fail("precondition-sign", f"{who}", f"preconditioning makes the Hessian {'positive' if sigma < 0 else 'negative'} definite or flips it: the sign inside is {sorted(inner)} and outside {sorted(out)}, expected {sigma}", e)


# ---------------------------------------------------------------- residual
def residual(ctx, who, values, where):
    """values: terms that make up the root-finding residual"""
    seen = set()
    cstr = False
    for v in values:
        for x in contractions(v, {"st.cstr_grad"}):
            if x in seen:
                continue
            seen.add(x)
            pairing(ctx, who, x, "st.cstr_grad", where)
        for x in subterms(v):
            if x.tag == "op" and x.a[0] == "add" and x not in seen:
                ps = list(x.a[1:])
                mult = [p for p in ps if contractions(p, {"st.cstr_grad"})]
                grad = [p for p in ps if indicator_term(p)]
                if not mult or not grad:
                    continue
                seen.add(x)
                ctx.ob("Lagrangian gradient", f"{who}: {show(x, 60)}")
                sm = set().union(*(signs(p, lambda t: t.tag == "op" and t.a[0] == "sym" and kval(t.a[1]) == "st.cstr_grad") for p in mult))
                sg = set().union(*(signs(p, lambda t: (is_call(t) or "").endswith("compute_derivatives")) for p in grad))
                if -1 in sm or -1 in sg:
                    ctx.fail("residual-sign", f"{who}", f"the Lagrangian gradient is not indicator gradient plus multipliers times constraint gradients: {show(x, 140)}", where=where)
        for toks, masks in selections(v, "st.cstr_value"):
            cstr = True
            ctx.ob("constraint part of the residual", f"{who}: {toks}")
            if "mask" not in toks:
                ctx.fail("inactive-included", f"{who}:residual", "the residual contains the values of all constraints, active or not", where=where)
    return cstr


def opaque_names(w):
    names = set()
    for c in INDICATORS:
        m, _ = w.find_class(c).lookup("compute_derivatives")
        names.add(m.a[0].qual)
    for f in ("precondition_hessian", "matrix_to_Nd_vector", "Nd_vector_to_matrix"):
        names.add(w.find_func(f).a[0].qual)
    return names


def stub(s, o):
    """the population with every quantity that an update computes replaced by a symbol"""
    st = s.get(o, "state")
    s.take()
    s.method(st, "update", [s.param("Xcur", "array")])
    wr = {e.attr for e in s.take() if e.kind == "attrset" and isinstance(e.base, T) and e.base.tag == "ref" and e.base.a[0] is st.a[0]}
    for f in sorted(wr):
        if not f.startswith("n_"):
            s.set(st, f, s.param("st." + f.lstrip("_"), "array"))
    s.take()
    return st, wr


def step_function(ctx, cls):
    """the method that solves the linear system: found by the solver call it contains"""
    out = []
    for c in cls.mro:
        if not hasattr(c, "node"):
            continue
        for n in c.node.body:
            if isinstance(n, ast.FunctionDef) and any(isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] in {d.split(".")[-1] for d in DIRECT} for x in ast.walk(n)):
                out.append(n)
    return out


def job(ctx, j):
    kind, variant, prec = j
    cls = ctx.w.find_class(kind)
    s = ctx.session(f"{kind} {variant} {prec or ''}", opaque_names(ctx.w))
    over = {"verbose": K(False)}
    if prec is not None and any(a.arg == "preconditioning" for a in scen.params_of(scen.ctor_of(cls))):
        over["preconditioning"] = K(prec)
    o = scen.optimizer(s, kind, variant, over)
    st, wr = stub(s, o)
    who = f"{kind}"
    need = {"X", "Y", "J"} | ({"cstr_value", "cstr_grad", "active_indices"} if variant != "bare" else set())
    ctx.need(need <= {f.lstrip("_") for f in wr}, f"population quantities not found: {sorted(need - wr)}")
    m, _ = cls.lookup("_compute_netwon_step")
    if m is None:
        # renamed: drive the whole iteration instead
        s.method(o, scen.step_method(ctx.w, cls))
        ev, res = s.take(), None
    else:
        n = len([a for a in m.a[0].node.args.args]) - 1 - len(m.a[0].defaults)
        r = s.method(o, "_compute_netwon_step", [st][:n])
        res = s.val(r) if r is not None else None
        it = items(res) if res is not None else None
        res = it[0] if it else res
        ev = s.take()
    sys_ = pairs(ctx, who, ev)
    ctx.need(sys_, f"{kind}: no linear solve found in the step computation")
    sign_check(ctx, who, ev, res)
    constrained = variant != "bare"
    curvature = constrained and any(f.lstrip("_") == "cstr_hess" for f in wr) and kind != "MMDNewton"
    vals = []
    for A, b, e in sys_:
        structure(ctx, who, A, e, constrained, NEWTON[kind], curvature)
        vals.append(b)
    vals += [e.valnum for e in ev if e.kind == "store" and e.valnum is not None]
    for e in ev:
        if e.kind == "store" and e.valnum is not None and not any(is_call(x, DIRECT | LSQ) for x in subterms(e.valnum)):
            for c in [x for x in subterms(e.valnum) if is_call(x, {"precondition_hessian"})]:
                inner = {-1 if c.a[2].tag == "op" and (c.a[2].a[0] == "neg" or c.a[2].a[0] == "mul" and any(is_k(y) and kval(y) < 0 for y in c.a[2].a[1:])) else 1}
                out = signs(e.valnum, lambda t: t is c)
                ctx.ob("preconditioned Hessian", f"{who}: inner {sorted(inner)} outer {sorted(out)}")
                if out and (inner != {NEWTON[kind]} or out != {NEWTON[kind]}):
                    ctx.fail("precondition-sign", f"{who}", f"preconditioning works on the wrong sign of the Hessian: inside {sorted(inner)}, outside {sorted(out)}, expected {NEWTON[kind]}", e)
    if constrained:
        where = sys_[0][2].where
        cstr = residual(ctx, who, vals, where)
        lv = set()
        for v in vals:
            lv |= {kval(x.a[1]) for x in leaves_of(v) if x.tag == "op" and x.a[0] == "sym"}
        for f, msg in (("st.cstr_grad", "multipliers times constraint gradients"), ("st.cstr_value", "the constraint values")):
            ctx.ob("ingredient of the residual", f"{who}: {f[3:]}")
            if f not in lv:
                ctx.fail("residual-incomplete", f"{who}:{f[3:]}", f"the residual does not depend on {msg}", where=where)


# ---------------------------------------------------------------- every point's system, with the loop over points unrolled
KEEP = {"sub", "reshape", "copy", "astype", "asarray", "ravel", "tuple", "list", "upd", "mark", "T", "bcast", "star", "kw"}
CHANGE = {"numpy.maximum", "numpy.minimum", "numpy.abs", "numpy.absolute", "numpy.fmax", "numpy.fmin", "numpy.clip", "numpy.where", "numpy.square", "numpy.sqrt", "numpy.sign", "numpy.power", "numpy.tanh", "numpy.round", "numpy.nan_to_num", "numpy.heaviside"}


def changed(t, label, seen=None):
    """an operation that alters the values of a quantity before they are placed in the residual, or None"""
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen or t.tag in ("k", "top", "ext"):
        return None
    seen.add(t)
    if is_call(t, DIRECT | LSQ) is not None:
        return None
    if t.tag == "op" and (t.a[0] in ("neg", "mul", "pow", "abs") or t.a[0] == "bin" or is_call(t, CHANGE)):
        inner = [x for x in t.a[1:] if isinstance(x, T) and not is_k(x)]
        if t.a[0] == "mul" and len(inner) == 1 and all(kval(x) in (-1, 1) for x in t.a[1:] if is_k(x)) or t.a[0] == "neg":
            inner = []  # a sign; compared with that of the gradient part
        if len(inner) and all(plain(x, label) or is_k(x) or x.tag == "ext" for x in inner if x.tag != "op" or x.a[0] != "kw") and any(plain(x, label) for x in inner):
            return t
    for x in t.a:
        for y in (x,) if isinstance(x, T) else x if isinstance(x, (tuple, frozenset)) else ():
            r = changed(y, label, seen)
            if r is not None:
                return r
    return None


def plain(t, label):
    """a selection of the quantity"""
    while isinstance(t, T):
        t = peel(t)
        if t.tag == "op" and t.a[0] == "sym":
            return kval(t.a[1]) == label
        if t.tag == "op" and t.a[0] == "sub":
            t = t.a[1]
            continue
        return False
    return False


def rows_job(ctx, kind, variant, prec):
    """preconditioning reaches every system; values go to the columns of the active constraints, unaltered"""
    from . import c19

    cls = ctx.w.find_class(kind)
    over = {}
    takes = any(a.arg == "preconditioning" for a in scen.params_of(scen.ctor_of(cls)))
    if takes:
        over["preconditioning"] = K(prec)
    cls, s, o, st, R = c19.build(ctx, kind, variant, over=over)
    m, _ = cls.lookup("_compute_netwon_step")
    if m is None:
        s.method(o, scen.step_method(ctx.w, cls))
    else:
        n = len(m.a[0].node.args.args) - 1 - len(m.a[0].defaults)
        s.method(o, "_compute_netwon_step", [st][:n])
    ev = s.take()
    who = f"{kind} {variant} preconditioning={prec if takes else None}"
    pre = [e for e in ev if e.kind == "store" and e.valnum is not None and any(is_call(x, {"precondition_hessian"}) for x in subterms(e.valnum))]
    for e in solver_events(ev):
        A = peel(e.argvals[0])
        has_ = any(is_call(x, {"precondition_hessian"}) for x in subterms(A))
        if takes and not any(x.tag == "top" for x in subterms(A)):
            ctx.ob("preconditioning of a system", f"{who}: {has_}")
            if has_ != prec and not (prec and pre and len(pre) % c19.N == 0 and unstored(A)):
                ctx.fail("precondition-switch", f"{e.func}:{'missing' if prec else 'present'}", f"preconditioning={prec}, but the matrix of this system is {'not ' if prec else ''}preconditioned: {show(A, 120)}", e)
        if e.name in DIRECT and variant != "bare":
            c = changed(e.argvals[1], "st.cstr_value")
            ctx.ob("constraint values in a residual", f"{who}: {'altered' if c is not None else 'as they are'}")
            if c is not None:
                ctx.fail("residual-altered", f"{e.func}:cstr_value", f"the constraint values enter the residual as {show(c, 100)}, not as they are", e)
            name = lambda t: kval(t.a[1]) if t.tag == "op" and t.a[0] == "sym" else ""
            sv = signs(e.argvals[1], lambda t: name(t) == "st.cstr_value")
            sg = signs(e.argvals[1], lambda t: str(name(t)).endswith(" gradient"))
            ctx.ob("sign of the constraint values in a residual", f"{who}: {sorted(sv)} {sorted(sg)}")
            if len(sv) == 1 and len(sg) == 1 and sv != sg:
                ctx.fail("residual-altered", f"{e.func}:sign", "the constraint values enter the residual with the opposite sign of the gradient part", e)
    if variant == "bare":
        return
    for e in ev:
        if e.kind == "store" and e.ref.tag == "ref" and isinstance(e.idx, T) and e.valnum is not None and c19.base_rows(s, R, e) == c19.N:
            path = [x.a[1] if x.tag == "op" and x.a[0] in ("idx", "idx?") and len(x.a) > 1 else x for x in e.ref.a[1]] + [e.idx]
            if len(path) == 1:
                it = items(path[0])
                if not it or len(it) != 2:
                    continue
                path = list(it)
            if len(path) != 2 or not c19.is_int(c19.first(path[0])):
                continue
            i = c19.first(path[1]) if items(path[1]) else path[1]
            if not isinstance(i, T) or i.tag != "sl":
                continue
            ctx.ob("columns of a row written as a range", f"{who}: {show(i, 60)}")
            if any(x.tag == "op" and x.a[0] == "sym" and kval(x.a[1]) in ("st.active_indices", "st.cstr_value", "st.cstr_grad") for b in i.a if isinstance(b, T) for x in subterms(b)):
                ctx.fail("columns", f"{e.func}:store", f"values of the active constraints are written to the leading columns {show(i, 60)} of a row; when a constraint before them is inactive they belong to later columns", e)


def unstored(A):
    return any(x.tag == "phi" for x in subterms(A))


def selftest(ctx):
    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    got = {}
    for m in ("good", "otherside", "sign", "narrow", "unwarned"):
        s = Session(w)
        o = s.new("A", [])
        r = s.method(o, m, [s.param("M", "array"), s.param("b", "array"), s.param("c", "array")])
        sub = type(ctx)("C12", "quick", 1)
        ev = s.take()
        pairs(sub, "A", ev)
        sign_check(sub, "A", ev, s.val(r))
        got[m] = sorted({f["rule"] if isinstance(f, dict) else str(f).split("::")[0] for f in sub.findings})
    want = {"good": [], "otherside": ["fallback-differs"], "sign": ["step-sign"], "narrow": ["no-fallback"], "unwarned": ["warning-unhandled"]}
    ctx.need(got == want, f"self-test: {got}")
    ctx.selftests.append("a different fallback, a flipped sign, a narrow handler and unhandled warnings are reported; the sound form is not")


def run(ctx):
    ctx.rule("step = -solution of [[A, H^T], [H, 0]] with the matching residual; the fallback solves the same system")
    jobs = [(k, v, p) for k in NEWTON for v in (("full", "bare", "eq", "ieq") if ctx.thorough else ("full", "bare", "ieq")) for p in (None, False)]
    jobs += [("rows", k, v, p) for k in NEWTON for v in ("full", "bare") for p in (True, False)]

    def either(c, j):
        rows_job(c, *j[1:]) if j[0] == "rows" else job(c, j)

    ctx.parallel(jobs, either)
    ctx.at_least("Newton system solved", 6)
    ctx.at_least("fallback compared with the direct solve", 6)
