"""Provenance queries over value terms: which callback applications a value consists of."""

import re

from .terms import K, Op, T, is_k, kval, leaves_of, subterms

ROLE_ALIASES = {"hessian": "hess", "h_hessian": "h_hess", "g_hessian": "g_hess", "jacobian": "jac"}
ROLES = {"func", "jac", "hess", "h", "h_jac", "h_hess", "g", "g_jac", "g_hess"}


def norm_role(name):
    name = name.lstrip("_")
    return ROLE_ALIASES.get(name, name)


def role_of_label(label):
    """the caller-supplied callable a callback label stands for (batch variants included)"""
    m = re.search(r"\$'(\w+)'", label)
    if m:
        label = m.group(1)
    return norm_role(label.split(".")[0].split("[")[0])


def outer_cbs(t, skip_shape=True):
    """outermost callback applications of a term: (role, label, args); shape/len dependences are not values"""
    out = []
    seen = set()

    def go(x):
        if isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)
            return
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        if x.tag == "op" and x.a[0] == "cb":
            out.append((role_of_label(kval(x.a[1])), kval(x.a[1]), x.a[2:]))
            return
        if skip_shape and x.tag == "op" and x.a[0] in ("len", "attr") and (x.a[0] == "len" or (is_k(x.a[2]) and kval(x.a[2]) in ("shape", "ndim", "size", "dtype"))):
            return
        for y in x.a:
            go(y)

    go(t)
    return out


def has_top(t):
    return any(x.tag == "top" for x in subterms(t))


PEEL_CALLS = {"numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.atleast_2d", "numpy.atleast_1d", "jax.numpy.asarray", "jax.numpy.array", "numpy.copy"}


def peel(t):
    """drop value-preserving wrappers"""
    while True:
        if t.tag == "op" and t.a[0] == "call" and len(t.a) > 2 and isinstance(t.a[1], T) and t.a[1].tag == "ext" and t.a[1].a[0] in PEEL_CALLS:
            t = t.a[2]
            continue
        return t


def row_base(t):
    """P for P[any row] (one row of a population), t itself otherwise"""
    t = peel(t)
    if t.tag == "op" and t.a[0] == "sub" and len(t.a) == 3:
        i = t.a[2]
        if i.tag == "op" and i.a[0] in ("anyrow", "range_elem", "enum_idx", "elem"):
            return peel(t.a[1])
    return t


def phis(t):
    return t.a[0] if t.tag == "phi" else (t,)
