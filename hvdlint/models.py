"""Descriptions of external (library) callables for the abstract interpreter.

Each model says which argument objects are written, whether the result shares storage with an
argument, and how the value number of the result is formed.  Unknown library calls are assumed
not to write their arguments (recorded as ``unmodelled`` evidence) and to return a fresh value
that depends on all arguments.
"""

import ast
import operator

from .terms import K, Ext, Op, Phi, T, Top, Tup, is_k, kval, leaves_of, missing, mk, show, size_of, skey, source_of, viewref

NONE = K(None)

FANCY_RESULTS = {
    f"{p}.{n}"
    for p in ("numpy", "jax.numpy", "autograd.numpy")
    for n in (
        "nonzero flatnonzero argsort isclose isfinite isnan isinf logical_not logical_and logical_or bitwise_and "
        "bitwise_or invert arange array asarray sort unique where less greater equal flip setdiff1d intersect1d any all r_"
    ).split()
}
INT_RESULTS = {f"{p}.{n}" for p in ("numpy", "jax.numpy") for n in ("argmin", "argmax", "count_nonzero")}
INT_RESULTS |= {"builtins.int", "builtins.len"}

NPS = ("numpy.", "jax.numpy.", "autograd.numpy.")

BIG = [1]  # factor on the size up to which values are kept as exact terms (set per session)


def npname(path):
    for p in NPS:
        if path.startswith(p):
            return path[len(p):]
    return None


# ---------------------------------------------------------------------------- value numbers
def nsub(base, idx):
    if base.tag == "phi":
        return Phi([nsub(b, idx) for b in base.a[0]])
    if base.tag == "tup":
        if is_k(idx) and isinstance(kval(idx), int) and -len(base.a) <= kval(idx) < len(base.a):
            return base.a[kval(idx)]
    if base.tag == "op":
        n = base.a[0]
        if n in ("tuple", "list") and is_k(idx) and isinstance(kval(idx), int) and not isinstance(kval(idx), bool):
            i = kval(idx)
            if -(len(base.a) - 1) <= i < len(base.a) - 1:
                return base.a[1:][i]
        if n == "dict":
            for i in range(1, len(base.a), 2):
                if base.a[i] is idx:
                    return base.a[i + 1]
        if n == "upd":
            path = base.a[2].a
            if len(path) == 1 and path[0].tag == "op" and path[0].a[0] == "idx":
                if path[0].a[1] is idx:
                    return base.a[3]
                if _position(path[0].a[1]) and _position(idx):
                    return nsub(base.a[1], idx)  # another element was replaced
    if base.tag == "top":
        return Top(base.a[0] | leaves_of(idx))
    return Op("sub", base, idx)


def _position(t):
    return is_k(t) and type(kval(t)) is int and kval(t) >= 0


def sub_of_known(bv, vi):
    while bv.tag == "op" and bv.a[0] == "upd" and _position(vi) and len(bv.a[2].a) == 1 and bv.a[2].a[0].tag == "op" and bv.a[2].a[0].a[0] == "idx":
        at = bv.a[2].a[0].a[1]
        if at is vi:
            # an element of an array of objects; a row of a matrix stays a view
            return bv.a[3] if bv.a[3].tag == "tup" else None
        if not _position(at):
            return None
        bv = bv.a[1]
    if bv.tag == "op" and bv.a[0] in ("tuple", "list") and is_k(vi) and isinstance(kval(vi), int):
        i = kval(vi)
        if -(len(bv.a) - 1) <= i < len(bv.a) - 1:
            return bv.a[1:][i]
    return None


def norm_op(name, args):
    if name == "T":
        x = args[0]
        if x.tag == "op" and x.a[0] == "T":
            return x.a[1]
        if x.tag == "phi":
            return Phi([norm_op("T", (y,)) for y in x.a[0]])
    if name in ("idx", "idx?") and len(args) == 2:
        return nsub(args[0], args[1])
    return Op(name, *args)


_OPS = {
    "Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv,
    "FloorDiv": operator.floordiv, "Mod": operator.mod, "Pow": operator.pow, "BitOr": operator.or_,
    "BitAnd": operator.and_, "BitXor": operator.xor, "LShift": operator.lshift, "RShift": operator.rshift,
}


def const_bin(op, x, y):
    f = _OPS.get(op)
    if f is None:
        return None
    if isinstance(x, (str, tuple, bytes)) or isinstance(y, (str, tuple, bytes)):
        if op != "Add":
            return None
    if op == "Pow" and isinstance(y, (int, float)) and abs(y) > 64:
        return None
    try:
        return (f(x, y),)
    except Exception:
        return None


def nneg(t):
    if is_k(t):
        try:
            return K(-kval(t))
        except Exception:
            return Top(())
    if t.tag == "op":
        if t.a[0] == "neg":
            return t.a[1]
        if t.a[0] == "mul" and is_k(t.a[1]):
            c = kval(t.a[1])
            if isinstance(c, (int, float)) and c == -1:
                return _mul([x for x in t.a[2:]])
            return _mul([K(-c)] + list(t.a[2:]))
        if t.a[0] == "add":
            return nadd([nneg(x) for x in t.a[1:]])
    return Op("neg", t)


def nadd(items):
    flat, const = [], 0
    for x in items:
        if x.tag == "op" and x.a[0] == "add":
            flat += x.a[1:]
        else:
            flat.append(x)
    rest = []
    for x in flat:
        if is_k(x) and isinstance(kval(x), (int, float)) and not isinstance(kval(x), bool):
            const += kval(x)
        else:
            rest.append(x)
    # cancel x and -x
    out = list(rest)
    for x in list(rest):
        n = nneg(x) if not (x.tag == "op" and x.a[0] == "add") else None
        if n is not None and x in out and n in out:
            out.remove(x)
            out.remove(n)
    if const != 0 or not out:
        out.append(K(const))
    if len(out) == 1:
        return out[0]
    return Op("add", *sorted(out, key=skey))


def _mul(items):
    flat = []
    for x in items:
        if x.tag == "op" and x.a[0] == "mul":
            flat += x.a[1:]
        else:
            flat.append(x)
    const, rest, neg = 1, [], False
    for x in flat:
        if is_k(x) and isinstance(kval(x), (int, float)) and not isinstance(kval(x), bool):
            const *= kval(x)
        elif x.tag == "op" and x.a[0] == "neg":
            neg = not neg
            rest.append(x.a[1])
        else:
            rest.append(x)
    if neg:
        const = -const
    if const == 0 and rest:
        return K(0)
    if const == 1 and rest:
        return rest[0] if len(rest) == 1 else Op("mul", *sorted(rest, key=skey))
    if not rest:
        return K(const)
    if const == -1:
        return Op("neg", rest[0] if len(rest) == 1 else Op("mul", *sorted(rest, key=skey)))
    return Op("mul", K(const), *sorted(rest, key=skey))


def nbin(op, a, b):
    if is_k(a) and is_k(b):
        r = const_bin(op, kval(a), kval(b))
        if r is not None:
            return K(r[0])
    if a.tag == "top" and b.tag == "top":
        return Top(a.a[0] | b.a[0])
    if size_of(a) + size_of(b) > 8000 * BIG[0]:
        return Top(leaves_of(a) | leaves_of(b))
    if op == "Add":
        return nadd([a, b])
    if op == "Sub":
        return nadd([a, nneg(b)])
    if op == "Mult":
        return _mul([a, b])
    if op == "Div" and is_k(b) and isinstance(kval(b), (int, float)) and kval(b) not in (0,):
        r = 1 / kval(b)
        if r * kval(b) == 1 and r == int(r * 2**20) / 2**20:
            return _mul([a, K(r)])
    if op == "Div" and a.tag == "op" and a.a[0] == "neg":
        return nneg(nbin("Div", a.a[1], b))
    return Op("bin", K(op), a, b)


def maybe_none(t):
    """could this library/callback result be None?  None = unknown"""
    if t.a[0] == "cb":
        return False
    p = t.a[1].a[0] if isinstance(t.a[1], T) and t.a[1].tag == "ext" else ""
    if npname(p) is not None or p.startswith("builtins.") and not p.endswith("getattr"):
        return False
    if p.startswith(("scipy.", "sklearn")):
        return False
    return None


# ---------------------------------------------------------------------------- helpers
def kwval(kwargs, name, default=None):
    return kwargs.get(name, default)


def argvals(I, args, st):
    out = []
    for a in args:
        if a.tag == "op" and a.a[0] == "star":
            out.append(Op("star", I.val(a.a[1], st)))
        else:
            out.append(I.val(a, st))
    return out


def callval(I, f, args, kwargs, st):
    t = [f] + argvals(I, args, st)
    for k in sorted(kwargs):
        t.append(Op("kw", K(k), I.val(kwargs[k], st)))
    return Op("call", *t)


def is_fnval(I, v, st):
    if v.tag in ("fn", "bound", "wrap"):
        return True
    if v.tag == "phi":
        return any(is_fnval(I, x, st) for x in v.a[0])
    return False


def run_callables(I, args, kwargs, node, st, fr, sample):
    """callables handed to a library function may be run by it: analyse their bodies for effects"""
    for v in list(args) + list(kwargs.values()):
        if is_fnval(I, v, st):
            n = arity(v)
            I.call(v, sample(n), {}, node, st, fr)


def arity(v):
    if v.tag == "phi":
        v = next(x for x in v.a[0] if x.tag in ("fn", "bound", "wrap"))
    skip = 0
    kws = set()
    while True:
        if v.tag == "bound":
            skip += 1
            v = v.a[1]
        elif v.tag == "wrap":
            if v.a[0] == "partial":
                skip += len(v.a[2])
                kws |= {k for k, _ in v.a[3]}
            v = v.a[1]
        elif v.tag == "fn":
            a = v.a[0].node.args
            names = [p.arg for p in a.posonlyargs + a.args][skip:]
            nd = len(v.a[0].defaults)
            req = len(a.posonlyargs + a.args) - nd - skip
            return max(0, min(req, len([x for x in names if x not in kws])))
        else:
            return 1


def store(I, ref, node, st, how, value=None):
    for r in I.refs(ref):
        I.store_event(r, node, st, how=how, idx=None, value=value)


def overwrite(I, ref, node, st, how, newv):
    store(I, ref, node, st, how)
    rs = I.refs(ref)
    for r in rs:
        c = I.cell(r, st)
        if c is not None and c.kind in ("arr", "param"):
            I.write_content(r, newv, st, weak=len(rs) > 1)


def alias(I, v, view, node, st):
    """value sharing storage with v"""
    if v.tag == "phi":
        return Phi([alias(I, x, view, node, st) for x in v.a[0]])
    if v.tag == "ref":
        c = I.cell(v, st)
        if c is not None and c.kind in ("arr", "param"):
            if view is None:
                return v
            if I.shapes and view.a[0] in ("at1", "at2") and len(I.shapes.get(I.val(v, st), ())) >= int(view.a[0][-1]):
                return v
            return viewref(v.a[0], v.a[1] + (view,))
        if c is not None and c.kind in ("list", "tuple", "set", "dict"):
            t = I.val(v, st)
            return I.arr(node, t if view is None else norm_op(view.a[0], (t,) + view.a[1:]), st, extra="arr")
        return v
    t = I.val(v, st)
    if view is not None:
        t = norm_op(view.a[0], (t,) + view.a[1:])
    return I.arr(node, t, st, extra="arr")


def fresh_copy(I, v, node, st, extra="copy"):
    return I.arr(node, I.val(v, st), st, extra=extra)


# functions whose result may be the argument itself (same storage)
ALIAS_ID = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "asarray_chkfinite", "require", "nan_to_num_"}
ALIAS_VIEW = {
    "atleast_1d": "at1", "atleast_2d": "at2", "atleast_3d": "at3", "ravel": "ravel", "reshape": "reshape", "squeeze": "squeeze",
    "transpose": "transpose", "swapaxes": "swapaxes", "moveaxis": "moveaxis", "expand_dims": "expand", "broadcast_to": "bcast",
    "flip": "flip", "fliplr": "flip", "flipud": "flip", "rollaxis": "rollaxis", "diagonal": "diagonal", "split": "split",
    "array_split": "split", "real": "real", "diag": "diag", "rot90": "rot90",
}
# first-argument mutators
MUT0 = {"copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis", "random.shuffle", "add.at", "subtract.at",
        "multiply.at", "maximum.at", "minimum.at", "ndarray.sort", "ndarray.fill", "ndarray.put"}
ND_MUT = {"sort", "fill", "put", "partition", "resize", "setfield", "itemset", "setflags"}
ND_VIEW = {"ravel": "ravel", "reshape": "reshape", "view": None, "transpose": "transpose", "squeeze": "squeeze",
           "swapaxes": "swapaxes", "diagonal": "diagonal"}
LIST_MUT = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "update", "setdefault", "popitem", "add",
            "discard", "__setitem__", "__delitem__", "appendleft", "difference_update", "intersection_update"}
RNG_METHODS = {"random", "rand", "randn", "normal", "uniform", "integers", "choice", "permutation", "shuffle"}


def canon(path):
    return {
        "numpy.product": "numpy.prod", "numpy.row_stack": "numpy.vstack", "numpy.absolute": "numpy.abs",
        "numpy.concatenate": "numpy.concatenate", "numpy.matmul": "numpy.matmul",
    }.get(path, path)


def ext_call(I, f, args, kwargs, node, st, fr):
    path = canon(f.a[0])
    if I.tracer is not None and I.traced:
        I.tracer.ext(I, path, args, kwargs, node, st)
    if path in I.ext_stubs:
        r = I.ext_stubs[path](args, kwargs, node, st)
        if r is not NotImplemented:
            return r
    h = EXT.get(path)
    if h is not None:
        return h(I, path, args, kwargs, node, st, fr)
    nn = npname(path)
    if path.startswith("jax.numpy."):
        I.ev("extcall", node, st, name=path, args=args, kwargs=kwargs, argvals=argvals(I, args, st), kwvals={k: I.val(v, st) for k, v in kwargs.items()}, recv=None, result=None)
        # functional arrays: results never share writable storage with host arrays
        if nn in ALIAS_ID or nn == "array" or nn == "copy":
            return I.arr(node, I.val(args[0], st), st, extra="jarr") if args else I.arr(node, Top(()), st)
        if nn in ALIAS_VIEW:
            return I.arr(node, norm_op(ALIAS_VIEW[nn], tuple(argvals(I, args, st)) + kwtail(I, kwargs, st)), st, extra="jarr")
        run_callables(I, args, kwargs, node, st, fr, lambda n: [Top(()) for _ in range(n)])
        return I.arr(node, npval(I, "numpy." + nn, args, kwargs, st, node), st, extra="jcall")
    if nn is not None:
        return np_call(I, path, nn, args, kwargs, node, st, fr)
    return generic_call(I, Ext(path), args, kwargs, node, st, fr)


def kwtail(I, kwargs, st):
    return tuple(Op("kw", K(k), I.val(kwargs[k], st)) for k in sorted(kwargs))


_BINFN = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow", "matmul": "MatMult",
          "dot": "MatMult", "mod": "Mod", "remainder": "Mod", "bitwise_and": "BitAnd", "logical_and": "BitAnd", "bitwise_or": "BitOr",
          "logical_or": "BitOr"}
_CMPFN = {"less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE", "equal": "Eq", "not_equal": "NotEq"}


def ncmp(n, a, b):
    if n == "Gt":
        n, a, b = "Lt", b, a
    elif n == "GtE":
        n, a, b = "LtE", b, a
    elif n in ("Eq", "NotEq") and b.n < a.n:
        a, b = b, a
    return mk("op", "cmp", n, a, b)


def npval(I, path, args, kwargs, st, node):
    nn = npname(path)
    av = argvals(I, args, st)
    if not kwargs or set(kwargs) == {"out"}:
        if nn in _BINFN and len(av) >= 2:
            return nbin(_BINFN[nn], av[0], av[1])
        if nn in _CMPFN and len(av) >= 2:
            return ncmp(_CMPFN[nn], av[0], av[1])
        if nn == "negative" and av:
            return nneg(av[0])
        if nn in ("invert", "logical_not", "bitwise_not") and av:
            return Op("invert", av[0])
        if nn == "square" and av:
            return Op("bin", K("Pow"), av[0], K(2))
    if nn.startswith("random."):
        return Op("rng", K(nn), K(f"{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}:{hash(I.ctx) % 10**8}"), *av, *kwtail(I, kwargs, st))
    if size_of_all(av) > 3000 * BIG[0]:
        lv = frozenset().union(*(leaves_of(x) for x in av)) if av else frozenset()
        return Top(lv)
    return Op("call", Ext(path), *av, *[Op("kw", K(k), I.val(kwargs[k], st)) for k in sorted(kwargs) if k != "out"])


def size_of_all(ts):
    return sum(size_of(t) for t in ts)


def np_call(I, path, nn, args, kwargs, node, st, fr):
    evd = dict(name=path, args=args, kwargs=kwargs, argvals=argvals(I, args, st), kwvals={k: I.val(v, st) for k, v in kwargs.items()}, recv=None, result=None)
    I.ev("extcall", node, st, **evd)
    if nn in MUT0 or nn.startswith("random.shuffle"):
        if args:
            overwrite(I, args[0], node, st, f"{path} writes its first argument", Op("mutated", *argvals(I, args, st)))
        return NONE
    out = kwargs.get("out")
    if out is not None and out is not NONE:
        val = npval(I, path, args, {k: v for k, v in kwargs.items() if k != "out"}, st, node)
        outs = [out] if out.tag != "tup" else list(out.a)
        for o in outs:
            overwrite(I, o, node, st, f"{path}(out=...)", val)
        return outs[0]
    # third positional of a ufunc is `out`
    if nn in ("clip",) and len(args) >= 4 or nn in ("add", "subtract", "multiply", "divide", "minimum", "maximum", "power") and len(args) >= 3:
        overwrite(I, args[-1], node, st, f"{path} positional out", npval(I, path, args[:-1], {}, st, node))
        return args[-1]
    if kwargs.get("overwrite_input") is not None and kwargs["overwrite_input"] is not K(False) and args:
        store(I, args[0], node, st, f"{path}(overwrite_input=...)")
    if nn == "nan_to_num" and kwargs.get("copy") is not None and kwargs["copy"] is not K(True) and args:
        overwrite(I, args[0], node, st, "numpy.nan_to_num(copy=False)", Op("call", Ext(path), I.val(args[0], st)))
        return args[0]
    if nn in ALIAS_ID:
        v = args[0] if args else kwargs.get("a", Top(()))
        return alias(I, v, None, node, st)
    if nn == "array":
        v = args[0] if args else kwargs.get("object", Top(()))
        cp = kwargs.get("copy")
        if cp is not None and cp is not K(True):
            return alias(I, v, None, node, st)
        return fresh_copy(I, v, node, st)
    if nn in ("copy",):
        return fresh_copy(I, args[0], node, st)
    if nn in ALIAS_VIEW and args:
        extra = tuple(argvals(I, args[1:], st)) + kwtail(I, kwargs, st)
        return alias(I, args[0], Op(ALIAS_VIEW[nn], *extra), node, st)
    if nn == "where" and len(args) == 1 or nn == "nonzero":
        return I.arr(node, Op("call", Ext(path), *argvals(I, args, st)), st)
    if nn in ("shape", "ndim") and args and I.val(args[0], st) in I.shapes:
        sh = I.shapes[I.val(args[0], st)]
        return Tup(sh) if nn == "shape" else K(len(sh))
    if I.shapes and nn in ("shape", "ndim", "size") and len(args) == 1:
        v = I.val(args[0], st)
        sh = shape_of(I, v)
        if sh is not None:
            if nn == "shape":
                return Tup(sh)
            n = K(len(sh)) if nn == "ndim" else size_known(I, v)
            if n is not None:
                return n
    if I.shapes and nn == "isscalar" and args:
        v = I.val(args[0], st)
        if v.tag == "k":
            return K(kval(v) is not None)
        if shape_of(I, v) is not None:
            return K(False)
    if nn == "shape":
        return Op("attr", I.val(args[0], st), K("shape"))
    if nn in ("ndim", "size"):
        return Op("attr", I.val(args[0], st), K(nn)) if args else Top(())
    if nn in ("errstate", "printoptions"):
        return Op("call", Ext(path), *argvals(I, args, st), *kwtail(I, kwargs, st))
    run_callables(I, args, kwargs, node, st, fr, lambda n: [Top(()) for _ in range(n)])
    if nn in ("seterr", "seterrcall", "random.seed"):
        return I.arr(node, Op("call", Ext(path)), st)
    t = npval(I, path, args, kwargs, st, node)
    if nn in ("linalg.norm",) and len(args) == 1 and "axis" not in kwargs:
        return t
    return I.arr(node, t, st, extra="np")


def generic_call(I, f, args, kwargs, node, st, fr, recv=None):
    path = f.a[0] if f.tag == "ext" else show(f)
    I.ev("extcall", node, st, name=path, args=args, kwargs=kwargs, argvals=argvals(I, args, st),
         kwvals={k: I.val(v, st) for k, v in kwargs.items()}, recv=recv, result=None)
    for k, v in kwargs.items():
        if k.startswith("overwrite_") and v is not K(False) and args:
            store(I, args[0], node, st, f"{path}({k}=...)")
            if k.endswith("_b") and len(args) > 1:
                store(I, args[1], node, st, f"{path}({k}=...)")
        if k == "out" and v is not NONE:
            store(I, v, node, st, f"{path}(out=...)")
        if k in ("copy", "check_finite") and False:
            pass
    sample = [Top(frozenset(leaves_of(I.val(a, st)))) for a in args if a.tag == "ref"]

    def mk_sample(n):
        return [Top(frozenset().union(*(s.a[0] for s in sample)) if sample else frozenset()) for _ in range(n)]

    run_callables(I, args, kwargs, node, st, fr, mk_sample)
    t = callval(I, f, args, kwargs, st)
    if f.tag == "ext" and source_of(path) and t.tag == "op":
        # two readings of a clock (or two draws) are two values
        t = Op(*t.a, K(f"@{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}"))
    if size_of(t) > 3000 * BIG[0]:
        t = Top(leaves_of(t))
    return I.arr(node, t, st, extra="gen")


# ---------------------------------------------------------------------------- wrappers
def call_wrap(I, f, args, kwargs, node, st, fr):
    kind, inner, a, kw = f.a
    if kind == "partial":
        k2 = dict(kw)
        k2.update(kwargs)
        return I.call(inner, list(a) + list(args), k2, node, st, fr)
    if kind == "wraps":
        v = args[0]
        if v.tag == "fn":
            nm = I.fn_name(inner)
            v.a[0].wraps_name = kval(nm) if is_k(nm) else None
            v.a[0].wraps_of = inner
        return v
    if kind == "jit":
        return traced_call(I, f, inner, args, kwargs, node, st, fr, None)
    if kind == "vmap":
        el = [I.elem(x, node, st, fr) if x.tag in ("ref", "phi", "tup") else Op("elem", I.val(x, st)) for x in args]
        v = traced_call(I, f, inner, el, kwargs, node, st, fr, "vmap")
        return I.arr(node, Op("vmap", I.val(v, st)), st, extra="vmap")
    if kind in ("jacrev", "jacfwd", "grad", "hessian", "jacobian", "value_and_grad"):
        v = traced_call(I, f, inner, args, kwargs, node, st, fr, kind)
        k = "jac" if kind in ("jacrev", "jacfwd", "jacobian", "grad") else kind
        return I.arr(node, Op("deriv", K(k), I.val(v, st), *kwtail(I, dict(kw), st)), st, extra="jac")
    if kind == "ctx":
        return Op("ctxmgr", inner, tuple(args), tuple(sorted(kwargs.items())))
    if kind == "cache":
        I.baked += 1
        try:
            return I.call(inner, args, kwargs, node, st, fr)
        finally:
            I.baked -= 1
    I.unmodelled[kind] = I.unmodelled.get(kind, 0) + 1
    return I.call(inner, args, kwargs, node, st, fr)


def traced_call(I, w, inner, args, kwargs, node, st, fr, kind):
    I.traced += 1
    tr = getattr(I, "tracestack", None)
    if tr is None:
        tr = I.tracestack = []
    tr.append(w)
    if I.tracer is not None:
        args, kwargs = I.tracer.enter(I, w, args, kwargs, node, st)
    I.baked += kind is None
    try:
        return I.call(inner, args, kwargs, node, st, fr)
    finally:
        tr.pop()
        I.traced -= 1
        I.baked -= kind is None


def callback(I, f, args, kwargs, node, st, fr):
    """call of a caller-supplied (unknown) callable"""
    if f.tag == "ref":
        loc = f.a[0]
        label = loc.label or str(loc.n)
        if f.a[1]:
            label += "[*]"
    else:
        label = show(f, 60)
    av = argvals(I, args, st)
    if label in I.cb_values:
        r = I.cb_values[label](args, kwargs, node, st)
        I.ev("callback", node, st, f=f, label=label, args=args, kwargs=kwargs, argvals=av,
             kwvals={k: I.val(v, st) for k, v in kwargs.items()}, result=r)
        return r
    kv = {k: I.val(v, st) for k, v in kwargs.items()}
    for v in list(args) + list(kwargs.values()):
        pass
    t = Op("cb", K(label), *av, *[Op("kw", K(k), kv[k]) for k in sorted(kv)])
    if size_of(t) > 3000 * BIG[0]:
        t = Top(leaves_of(t))
    r = I.arr(node, t, st, extra="cb")
    if r.tag == "ref":
        r.a[0].root = f"<result of {label}>"
    I.ev("callback", node, st, f=f, label=label, args=args, kwargs=kwargs, argvals=av, kwvals=kv, result=r)
    return r


# ---------------------------------------------------------------------------- methods of values
def method_call(I, recv, name, args, kwargs, node, st, fr):
    tag = recv.tag
    if I.tracer is not None and I.traced:
        I.tracer.method(I, recv, name, args, kwargs, node, st)
    if tag == "phi":
        outs = []
        for x in sorted(recv.a[0], key=skey):
            if x is NONE:
                continue
            outs.append(method_call(I, x, name, args, kwargs, node, st, fr))
        return Phi(outs) if outs else Top(())
    # jax functional updates: x.at[i].set(v)
    if tag == "op" and recv.a[0] == "sub" and recv.a[1].tag == "extm" and recv.a[1].a[1] == "at":
        base = recv.a[1].a[0]
        t = Op("at_" + name, I.val(base, st), recv.a[2], *argvals(I, args, st))
        if size_of(t) > 3000 * BIG[0]:
            t = Top(leaves_of(t))
        return I.arr(node, t, st, extra="at")
    if tag == "ref":
        c = I.cell(recv, st)
        if c is not None:
            k = c.kind
            if k in ("list", "set", "tuple") and not recv.a[1]:
                return list_method(I, recv, c, name, args, kwargs, node, st, fr)
            if k == "dict" and not recv.a[1]:
                return dict_method(I, recv, c, name, args, kwargs, node, st, fr)
            if k in ("arr", "param"):
                return arr_method(I, recv, c, name, args, kwargs, node, st, fr)
            if k == "inst":
                return I_generic_method(I, recv, name, args, kwargs, node, st, fr)
        return I_generic_method(I, recv, name, args, kwargs, node, st, fr)
    if tag == "super":
        return super_method(I, recv, name, args, kwargs, node, st, fr)
    if tag == "cls":
        if name == "__new__":
            co = args[0].a[0] if args and args[0].tag == "cls" else recv.a[0]
            loc = I.newloc(node, "inst", st, label=co.name, extra=co.qual, cls=co)
            from .interp import Cell

            st.heap[loc] = Cell("inst", f={})
            ref = mk("ref", loc, ())
            I.ev("new", node, st, cls=co, ref=ref)
            return ref
        return Top(())
    if tag == "op" and recv.a[0] == "instdict":
        inst = recv.a[1]
        c = I.cell(inst, st)
        from .interp import MISS, Cell

        if name == "copy":
            return I.alloc(node, Cell("dict", f={K(k): v for k, v in c.f.items()}), st)
        if name == "update":
            src = args[0] if args else None
            sc = I.cell(src, st) if src is not None and src.tag == "ref" else None
            c = c.copy()
            if sc is not None and sc.kind == "dict":
                for k, v in sc.f.items():
                    if is_k(k):
                        c.f[kval(k)] = v
            else:
                I.ev("dict_restore", node, st, base=inst, value=I.val(src, st) if src is not None else None)
                c.f["**restored**"] = src if src is not None else Top(())
            for k, v in kwargs.items():
                c.f[k] = v
            st.heap[inst.a[0]] = c
            return NONE
        if name in ("items", "keys", "values"):
            d = I.alloc(node, Cell("dict", f={K(k): v for k, v in c.f.items()}), st)
            return Op("dict" + name, d)
        if name in ("pop", "get"):
            if args and is_k(args[0]):
                v = c.f.get(kval(args[0]), args[1] if len(args) > 1 else NONE)
                if name == "pop":
                    c = c.copy()
                    c.f.pop(kval(args[0]), None)
                    st.heap[inst.a[0]] = c
                return v
        return Top(())
    if tag in ("k", "op", "top") or tag == "tup" or tag == "sl":
        if tag == "k" and isinstance(kval(recv), str):
            av = argvals(I, args, st)
            if all(is_k(x) for x in av) and not kwargs and name in ("lower", "upper", "strip", "startswith", "endswith", "split", "replace", "join", "format"):
                try:
                    r = getattr(kval(recv), name)(*[kval(x) for x in av])
                    if isinstance(r, (str, bool, int)):
                        return K(r)
                except Exception:
                    pass
            return Op("str." + name, recv, *av)
        if tag == "tup" and name in ("index", "count"):
            return Op("call", K(name), recv)
        tmp = I.arr(node, I.val(recv, st), st, extra="mrecv")
        return arr_method(I, tmp, I.cell(tmp, st), name, args, kwargs, node, st, fr)
    if tag in ("fn", "bound", "wrap"):
        return Top(())
    return I_generic_method(I, recv, name, args, kwargs, node, st, fr)


def I_generic_method(I, recv, name, args, kwargs, node, st, fr):
    rv = I.val(recv, st)
    I.ev("extcall", node, st, name="." + name, args=args, kwargs=kwargs, argvals=argvals(I, args, st),
         kwvals={k: I.val(v, st) for k, v in kwargs.items()}, recv=recv, result=None)
    run_callables(I, args, kwargs, node, st, fr, lambda n: [Top(()) for _ in range(n)])
    t = Op("mcall", K(name), rv, *argvals(I, args, st), *kwtail(I, kwargs, st))
    if size_of(t) > 3000 * BIG[0]:
        t = Top(leaves_of(t))
    return I.arr(node, t, st, extra="m")


def super_method(I, recv, name, args, kwargs, node, st, fr):
    selfv = recv.a[1]
    I.ev("extcall", node, st, name="super()." + name, args=args, kwargs=kwargs, argvals=argvals(I, args, st),
         kwvals={k: I.val(v, st) for k, v in kwargs.items()}, recv=selfv, result=None)
    if name == "__init__":
        return NONE
    return I.arr(node, Op("mcall", K("super." + name), *argvals(I, args, st)), st, extra="super")


def arr_method(I, recv, c, name, args, kwargs, node, st, fr):
    v = I.val(recv, st)
    av = argvals(I, args, st)
    is_param = c.kind == "param"
    origin = recv.a[0].origin if is_param else None
    I.ev("extcall", node, st, name="." + name, args=args, kwargs=kwargs, argvals=av,
         kwvals={k: I.val(x, st) for k, x in kwargs.items()}, recv=recv, recvval=v, result=None)
    if is_param and origin == "dict" and name in ("items", "keys", "values"):
        return Op("dict" + name, recv)
    if name in ("items", "keys", "values") and not args:
        return Op("dict" + name, recv) if is_param else I.arr(node, Op("mcall", K(name), v), st, extra="m")
    if name == "astype":
        cp = kwargs.get("copy")
        if cp is not None and cp is not K(True):
            return alias(I, recv, None, node, st)
        return I.arr(node, v, st, extra="m")
    if name in ("copy", "__copy__", "__deepcopy__"):
        return I.arr(node, v, st, extra="m")
    if name == "flatten":
        return I.arr(node, norm_op("ravel", (v,)), st, extra="m")
    if name == "tolist":
        return I.arr(node, v, st, extra="m")
    if name in ND_MUT and (name != "sort" or origin != "any"):
        overwrite(I, recv, node, st, f"in-place method .{name}()", Op("mutated", K(name), v, *av))
        return NONE
    if name in LIST_MUT:
        overwrite(I, recv, node, st, f"in-place method .{name}()", Op("mutated", K(name), v, *av))
        return I.arr(node, Op("mcall", K(name), v, *av), st, extra="m")
    if name in ND_VIEW:
        view = ND_VIEW[name]
        if name == "reshape" and len(av) == 1 and av[0].tag == "op" and av[0].a[0] == "tuple":
            av = list(av[0].a[1:])
        return alias(I, recv, Op(view, *av, *kwtail(I, kwargs, st)) if view else None, node, st)
    out = kwargs.get("out")
    if out is not None and out is not NONE:
        t = Op("call", Ext("numpy." + name), v, *av)
        overwrite(I, out, node, st, f".{name}(out=...)", t)
        return out
    if name == "round" and not is_param:
        return I.arr(node, Op("call", Ext("numpy.round"), v, *av), st, extra="m")
    if is_param and origin in ("any", None, "callable") and name not in ARR_METHODS:
        # method of an opaque caller object (metric, problem, ...): caller code runs
        lab = f"{recv.a[0].label}.{name}"
        t = Op("cb", K(lab), *av, *kwtail(I, kwargs, st))
        r = I.arr(node, t, st, extra="cb")
        I.ev("callback", node, st, f=recv, label=lab, args=args, kwargs=kwargs, argvals=av,
             kwvals={k: I.val(x, st) for k, x in kwargs.items()}, result=r)
        return r
    if name in ARR_METHODS:
        t = Op("call", Ext("numpy." + name), v, *av, *kwtail(I, kwargs, st))
        if name == "dot":
            t = nbin("MatMult", v, av[0])
        if size_of(t) > 3000 * BIG[0]:
            t = Top(leaves_of(t))
        return I.arr(node, t, st, extra="m")
    run_callables(I, args, kwargs, node, st, fr, lambda n: [Top(()) for _ in range(n)])
    t = Op("mcall", K(name), v, *av, *kwtail(I, kwargs, st))
    if size_of(t) > 3000 * BIG[0]:
        t = Top(leaves_of(t))
    return I.arr(node, t, st, extra="m")


ARR_METHODS = set(
    "sum mean min max argmin argmax any all prod std var cumsum cumprod argsort nonzero dot round clip trace take repeat "
    "searchsorted ptp conj tobytes item astype copy".split()
)


SET_METHODS = {"add": "BitOr", "update": "BitOr", "difference_update": "Sub", "discard": "Sub", "remove": "Sub", "intersection_update": "BitAnd",
               "symmetric_difference_update": "BitXor", "union": "BitOr", "difference": "Sub", "intersection": "BitAnd", "symmetric_difference": "BitXor"}


def list_method(I, recv, c, name, args, kwargs, node, st, fr):
    if c.kind == "set" and I.precise and name in SET_METHODS and len(args) == 1:
        other = Tup((I.val(args[0], st),)) if name in ("add", "discard", "remove") else args[0]
        ms = I.set_op(SET_METHODS[name], recv, other, st)
        if ms is not None:
            if name in ("union", "difference", "intersection", "symmetric_difference"):
                return I.new_set(node, ms, st)
            store(I, recv, node, st, f"container method .{name}()", args[0])
            I.set_members(recv, ms, st)
            return NONE
    if name in ("append", "add", "appendleft"):
        store(I, recv, node, st, f"container method .{name}()", args[0] if args else None)
        if c.kind == "set":
            I.list_star(recv, args[0], st)
        else:
            I.list_append(recv, args[0], st)
        return NONE
    if name in ("extend", "update"):
        store(I, recv, node, st, f"container method .{name}()", args[0] if args else None)
        for a in args:
            if c.kind == "set":
                I.list_star(recv, I.elem(a, node, st, fr), st)
            else:
                I.list_extend(recv, a, node, st, fr)
        return NONE
    if name == "insert":
        store(I, recv, node, st, "container method .insert()", args[1] if len(args) > 1 else None)
        cc = I.cell(recv, st)
        if I.precise and len(args) > 1 and cc is not None and cc.items is not None and not cc.summary and is_k(args[0]) and isinstance(kval(args[0]), int):
            cc = cc.copy()
            l = list(cc.items)
            l.insert(kval(args[0]), args[1])
            cc.items = tuple(l)
            st.heap[recv.a[0]] = cc
            return NONE
        I.list_star(recv, args[1] if len(args) > 1 else Top(()), st)
        return NONE
    if name in ("pop", "remove", "clear", "sort", "reverse", "discard", "popleft", "difference_update", "intersection_update"):
        store(I, recv, node, st, f"container method .{name}()")
        cc = I.cell(recv, st).copy()
        el = Phi(cc.items) if cc.items else (cc.star if cc.star is not None else Top(()))
        if name == "clear":
            cc.items, cc.star = (), None
        elif name == "pop" and cc.items and not cc.summary and (not args or is_k(args[0])):
            i = kval(args[0]) if args else -1
            if isinstance(i, int) and -len(cc.items) <= i < len(cc.items):
                el = cc.items[i]
                l = list(cc.items)
                del l[i]
                cc.items = tuple(l)
        elif name != "pop" or cc.items:
            cc.star = el
            cc.items = None
        st.heap[recv.a[0]] = cc
        for k, v in kwargs.items():
            if is_fnval(I, v, st):
                I.call(v, [el], {}, node, st, fr)
        return el if name in ("pop", "popleft") else NONE
    if name == "copy":
        from .interp import Cell

        return I.alloc(node, Cell(c.kind, items=c.items, star=c.star), st)
    if name in ("union", "difference", "intersection", "symmetric_difference"):
        from .interp import Cell

        vs = [I.elem(recv, node, st, fr)] + ([I.elem(a, node, st, fr) for a in args] if name == "union" else [])
        return I.alloc(node, Cell("set", star=Phi(vs)), st)
    if name in ("index", "count"):
        return Op("int", Op("mcall", K(name), I.val(recv, st), *argvals(I, args, st)))
    return I_generic_method(I, recv, name, args, kwargs, node, st, fr)


def dict_method(I, recv, c, name, args, kwargs, node, st, fr):
    from .interp import MISS, Cell

    if name in ("items", "keys", "values"):
        return Op("dict" + name, recv)
    if name == "get":
        key = args[0]
        d = args[1] if len(args) > 1 else NONE
        if key in c.f:
            v = c.f[key]
            if v.tag == "phi" and MISS in v.a[0]:
                return Phi([x for x in v.a[0] if x is not MISS] + [d])
            return v
        if is_k(key) and c.star is None:
            return d
        vs = [x for x in c.f.values() if x is not MISS] + ([c.star] if c.star is not None else []) + [d]
        return Phi(vs)
    if name == "setdefault":
        store(I, recv, node, st, "container method .setdefault()", args[1] if len(args) > 1 else None)
        v = args[1] if len(args) > 1 else NONE
        cc = I.cell(recv, st).copy()
        if is_k(args[0]):
            if args[0] not in cc.f:
                cc.f[args[0]] = v
            r = cc.f[args[0]]
        else:
            cc.star = v if cc.star is None else Phi((cc.star, v))
            r = Phi(list(cc.f.values()) + [cc.star])
        st.heap[recv.a[0]] = cc
        return r
    if name == "update":
        store(I, recv, node, st, "container method .update()", args[0] if args else None)
        cc = I.cell(recv, st).copy()
        for a in args:
            ac = I.cell(a, st) if a.tag == "ref" else None
            if ac is not None and ac.kind == "dict":
                cc.f.update(ac.f)
                if ac.star is not None:
                    cc.star = ac.star if cc.star is None else Phi((cc.star, ac.star))
            else:
                x = Op("elem", Op("values", I.val(a, st)))
                cc.star = x if cc.star is None else Phi((cc.star, x))
        for k, v in kwargs.items():
            cc.f[K(k)] = v
        st.heap[recv.a[0]] = cc
        return NONE
    if name in ("pop", "popitem", "clear"):
        store(I, recv, node, st, f"container method .{name}()")
        cc = I.cell(recv, st).copy()
        r = Top(())
        if name == "pop" and args and args[0] in cc.f:
            r = cc.f.pop(args[0])
        elif name == "clear":
            cc.f, cc.star = {}, None
        elif cc.star is not None:
            r = cc.star
        st.heap[recv.a[0]] = cc
        return r
    if name == "copy":
        return I.alloc(node, Cell("dict", f=dict(c.f), star=c.star), st)
    return I_generic_method(I, recv, name, args, kwargs, node, st, fr)


# ---------------------------------------------------------------------------- particular externals
EXT = {}


def ext(*names):
    def deco(fn):
        for n in names:
            EXT[n] = fn
        return fn

    return deco


def _kwt(kwargs):
    return tuple(sorted(kwargs.items()))


@ext("functools.partial")
def _partial(I, p, args, kwargs, node, st, fr):
    return mk("wrap", "partial", args[0], tuple(args[1:]), _kwt(kwargs))


@ext("functools.wraps")
def _wraps(I, p, args, kwargs, node, st, fr):
    return mk("wrap", "wraps", args[0], (), ())


@ext("functools.lru_cache", "functools.cache")
def _cache(I, p, args, kwargs, node, st, fr):
    I.ev("memo", node, st, name=p)
    if args and is_fnval(I, args[0], st):
        return mk("wrap", "cache", args[0], (), ())
    return Ext("functools.cache")


@ext("jax.jit", "jax.vmap", "jax.jacrev", "jax.jacfwd", "jax.grad", "jax.hessian", "jax.value_and_grad", "autograd.jacobian", "autograd.hessian",
     "autograd.grad", "jax.checkpoint", "jax.linearize", "jax.pmap")
def _transform(I, p, args, kwargs, node, st, fr):
    kind = p.split(".")[-1]
    if not args:
        return mk("wrap", "partial", Ext(p), (), _kwt(kwargs))
    if kind in ("checkpoint",):
        return args[0]
    if kind == "pmap":
        kind = "vmap"
    w = mk("wrap", kind, args[0], tuple(args[1:]), _kwt(kwargs))
    I.ev("transform", node, st, kind2=kind, f=args[0], wrap=w, args=args, kwargs=kwargs)
    return w


@ext("numpy.apply_along_axis")
def _along(I, p, args, kwargs, node, st, fr):
    pos = dict(zip(("func1d", "axis", "arr"), args))
    pos.update({k: v for k, v in kwargs.items() if k in ("func1d", "axis", "arr")})
    rest = list(args[3:])
    kw = {k: v for k, v in kwargs.items() if k not in pos}
    if len([k for k in ("func1d", "axis", "arr") if k in pos]) < 3:
        return I.arr(node, Top(frozenset().union(*[leaves_of(I.val(a, st)) for a in args] or [frozenset()])), st)
    x = pos["arr"]
    if not (is_k(pos["axis"]) and kval(pos["axis"]) in (1, -1)):
        x = viewref(x.a[0], x.a[1] + (Op("T"),)) if x.tag == "ref" and x.a[0].kind != "list" else I.arr(node, Op("T", I.val(x, st)), st)
    v = I.call(pos["func1d"], [I.elem(x, node, st, fr), *rest], kw, node, st, fr)
    return I.arr(node, Op("listof", I.val(v, st)), st, extra="along")


@ext("contextlib.contextmanager")
def _ctxm(I, p, args, kwargs, node, st, fr):
    return mk("wrap", "ctx", args[0], (), ())


@ext("jax.eval_shape")
def _evalshape(I, p, args, kwargs, node, st, fr):
    I.ev("extcall", node, st, name=p, args=args, kwargs=kwargs, argvals=argvals(I, args, st), kwvals={}, recv=None, result=None)
    v = I.call(args[0], list(args[1:]), {}, node, st, fr)
    return I.arr(node, Op("eval_shape", I.val(v, st)), st)


def clone(I, v, node, st, memo, depth=0):
    """deep copy of an abstract value"""
    from .interp import Cell

    if depth > 25:
        return v
    tag = v.tag
    if tag == "ref":
        loc, path = v.a
        c = st.heap.get(loc)
        if c is None:
            return v
        if path:
            return I.arr(node, I.val(v, st), st, extra=("dcv", loc.n, v.n))
        if loc in memo:
            return memo[loc]
        if loc.key[0] == id(node) and loc.key[1] == I.ctx and isinstance(loc.key[2], tuple) and loc.key[2][0] == "dc":
            # a clone made by an earlier loop round at this very site: stands for all rounds
            memo[loc] = v
            return v
        if c.kind == "param":
            if loc.origin in ("callable",):
                return v
            r = I.arr(node, c.val, st, extra=("dc", loc.n)) if loc.origin in ("array", "list") else None
            if r is None:
                nl = I.newloc(node, "param", st, label=loc.label, extra=("dc", loc.n), origin=loc.origin)
                nl.root = None
                st.heap[nl] = c.copy()
                r = mk("ref", nl, ())
            memo[loc] = r
            return r
        nl = I.newloc(node, c.kind, st, label=loc.label, extra=("dc", loc.n), cls=loc.cls)
        r = mk("ref", nl, ())
        memo[loc] = r
        st.heap[nl] = c.copy()
        n = c.copy()
        if c.f is not None:
            n.f = {k: clone(I, x, node, st, memo, depth + 1) for k, x in c.f.items()}
        if c.items is not None:
            n.items = tuple(clone(I, x, node, st, memo, depth + 1) for x in c.items)
        if c.star is not None:
            n.star = clone(I, c.star, node, st, memo, depth + 1)
        if I.loopdepth and False:
            n.summary = True
        st.heap[nl] = n
        if c.kind == "inst":
            I.ev("clone", node, st, src=v, dst=r)
        return r
    if tag == "phi":
        return Phi([clone(I, x, node, st, memo, depth + 1) for x in v.a[0]])
    if tag == "tup":
        return Tup([clone(I, x, node, st, memo, depth + 1) for x in v.a])
    if tag == "bound":
        return mk("bound", clone(I, v.a[0], node, st, memo, depth + 1), v.a[1])
    return v


@ext("copy.deepcopy")
def _deepcopy(I, p, args, kwargs, node, st, fr):
    v = args[0]
    if v.tag == "ref":
        c = I.cell(v, st)
        if c is not None and c.kind == "inst":
            m, _ = v.a[0].cls.lookup("__deepcopy__")
            if m is not None:
                return I.call(I.bind(m, v, v.a[0].cls, node, st, fr), list(args[1:]) or [Top(())], {}, node, st, fr)
    return clone(I, v, node, st, {})


@ext("copy.copy")
def _copy(I, p, args, kwargs, node, st, fr):
    v = args[0]
    if v.tag == "phi":
        return Phi([_copy(I, p, [x], {}, node, st, fr) for x in v.a[0]])
    if v.tag == "ref":
        c = I.cell(v, st)
        if c is None:
            return v
        if c.kind in ("arr",) or v.a[1] or c.kind == "param":
            return I.arr(node, I.val(v, st), st)
        m = v.a[0].cls.lookup("__copy__")[0] if c.kind == "inst" else None
        if m is not None:
            return I.call(I.bind(m, v, v.a[0].cls, node, st, fr), [], {}, node, st, fr)
        nl = I.newloc(node, c.kind, st, label=v.a[0].label, extra=("sc", v.a[0].n), cls=v.a[0].cls)
        st.heap[nl] = c.copy()
        r = mk("ref", nl, ())
        if c.kind == "inst":
            I.ev("clone", node, st, src=v, dst=r, shallow=True)
        return r
    return v


def shape_of(I, v):
    """shape of a value, where it is known"""
    if v in I.shapes:
        return I.shapes[v]
    if v.tag == "k" and type(kval(v)) in (int, float, bool):
        return ()
    if v.tag == "op":
        o = v.a[0]
        if o in ("at1", "at2"):
            sh = shape_of(I, v.a[1])
            n = int(o[-1])
            return None if sh is None else (K(1),) * (n - len(sh)) + tuple(sh)
        if o in ("copy", "astype", "array", "asarray"):
            return shape_of(I, v.a[1])
        if o in ("ravel", "flatten"):
            n = size_known(I, v.a[1])
            return None if n is None else (n,)
        if o == "call" and v.a[1].tag == "ext" and v.a[1].a[0].split(".")[-1] == "prod":
            return ()
        if o == "list" or o == "tuple":
            subs = {shape_of(I, x) for x in v.a[1:]}
            sh = next(iter(subs)) if len(subs) == 1 else None
            return None if sh is None else (K(len(v.a) - 1),) + tuple(sh)
    return None


def size_known(I, v):
    """number of entries of a value, where it is known"""
    sh = shape_of(I, v)
    if sh is None or not all(is_k(d) for d in sh):
        return sh[0] if sh is not None and len(sh) == 1 else None
    n = 1
    for d in sh:
        n *= kval(d)
    return K(n)


def known_len(I, v):
    """number of rows of an array value, where its term tells"""
    if v in I.shapes:
        return I.shapes[v][0] if I.shapes[v] else None
    if v.tag == "phi":
        ls = [known_len(I, x) for x in v.a[0]]
        return ls[0] if ls[0] is not None and all(x is ls[0] for x in ls) else None
    if v.tag != "op":
        return None
    o = v.a[0]
    if o == "sub":
        lit = I.literal_seq(v.a[2])
        return K(len(lit)) if lit is not None and v.a[2].tag != "tup" and v.a[2].a[0] != "tuple" else None
    if o in ("list",):
        return K(len(v.a) - 1)
    if o in ("upd", "astype", "copy"):
        return known_len(I, v.a[1])
    if o in ("add", "mul", "neg", "bin"):
        for x in v.a[1:]:
            if isinstance(x, T) and (x not in I.shapes or len(I.shapes[x]) > 1):
                n = known_len(I, x)
                if n is not None:
                    return n
        return None
    if o == "call" and v.a[1].tag == "ext" and v.a[1].a[0].split(".")[-1] in ("zeros", "empty", "ones", "full") and len(v.a) > 2:
        sh = I.literal_seq(v.a[2])
        n = sh[0] if sh else v.a[2] if is_k(v.a[2]) else None
        return n if n is not None and is_k(n) else None
    return None


# builtins -------------------------------------------------------------------
def _b(name):
    return ext("builtins." + name)


@_b("len")
def _len(I, p, args, kwargs, node, st, fr):
    v = args[0]
    if v.tag == "ref":
        c = I.cell(v, st)
        if c is not None and c.kind == "inst":
            m, _ = v.a[0].cls.lookup("__len__")
            if m is not None:
                return I.call(I.bind(m, v, v.a[0].cls, node, st, fr), [], {}, node, st, fr)
    seq = I.exact_seq(v, st)
    if seq is not None:
        return K(len(seq))
    if v.tag == "k" and isinstance(kval(v), str):
        return K(len(kval(v)))
    v = I.val(v, st)
    if I.precise:
        if v is NONE:
            I.raised = True
        n = known_len(I, v)
        if n is not None:
            return n
    if I.shapes:
        sh = shape_of(I, v)
        if sh is not None:
            if sh:
                return sh[0]
            I.ev("unsized_len", node, st, value=v)
            return Top(())
    return Op("len", v)


@_b("range")
def _range(I, p, args, kwargs, node, st, fr):
    av = argvals(I, args, st)
    if all(is_k(x) and isinstance(kval(x), int) for x in av) and av:
        r = range(*[kval(x) for x in av])
        if len(r) <= 12:
            return Op("tuple", *[K(i) for i in r])
    return Op("range", *av)


@_b("enumerate")
def _enum(I, p, args, kwargs, node, st, fr):
    return Op("enumerate", args[0])


@_b("zip")
def _zip(I, p, args, kwargs, node, st, fr):
    if any(a.tag == "op" and a.a[0] == "star" for a in args):
        if len(args) == 1 and I.precise:
            seq = I.exact_seq(args[0].a[1], st)
            if seq is not None:
                return Op("zip", *seq)
        return Op("call", Ext(p), *argvals(I, args, st))
    return Op("zip", *args)


@_b("map")
def _map(I, p, args, kwargs, node, st, fr):
    # applied lazily; analysed where consumed, and at least once here for effects
    v = Op("mapiter", *args)
    return v


@_b("filter")
def _filter(I, p, args, kwargs, node, st, fr):
    I.call(args[0], [I.elem(args[1], node, st, fr)], {}, node, st, fr)
    return Op("filteriter", *args)


@ext("builtins.reversed", "builtins.iter")
def _rev(I, p, args, kwargs, node, st, fr):
    return Op(p.split(".")[-1], args[0])


@_b("next")
def _next(I, p, args, kwargs, node, st, fr):
    return I.elem(args[0], node, st, fr)


@_b("sorted")
def _sorted(I, p, args, kwargs, node, st, fr):
    from .interp import Cell

    ms = I.const_set(args[0], st) if not kwargs else None
    if ms is not None and len({type(kval(x)) for x in ms}) == 1:
        return I.alloc(node, Cell("list", items=tuple(sorted(ms, key=kval))), st)
    el = I.elem(args[0], node, st, fr)
    if "key" in kwargs and is_fnval(I, kwargs["key"], st):
        I.call(kwargs["key"], [el], {}, node, st, fr)
    return I.alloc(node, Cell("list", star=el), st)


@ext("builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset")
def _list(I, p, args, kwargs, node, st, fr):
    from .interp import Cell

    k = p.split(".")[-1].replace("frozenset", "set")
    if not args:
        if k == "set" and I.precise:
            return I.new_set(node, [], st)
        return Tup(()) if k == "tuple" else I.alloc(node, Cell(k, items=() if k == "list" else None, star=None), st)
    seq = I.exact_seq(args[0], st, fr)
    if seq is not None and k != "set":
        return Tup(seq) if k == "tuple" else I.alloc(node, Cell(k, items=tuple(seq)), st)
    if k == "set" and I.precise and seq is not None and all(is_k(x) for x in seq):
        return I.new_set(node, seq, st)
    el = I.elem(args[0], node, st, fr)
    return I.alloc(node, Cell(k, star=el), st)


@_b("dict")
def _dict(I, p, args, kwargs, node, st, fr):
    from .interp import Cell

    f, star = {}, None
    for a in args:
        c = I.cell(a, st) if a.tag == "ref" else None
        if c is not None and c.kind == "dict":
            f.update(c.f)
            star = c.star
        elif a.tag == "op" and a.a[0] == "instdict":
            f.update({K(k): v for k, v in I.cell(a.a[1], st).f.items()})
        else:
            el = I.elem(a, node, st, fr)
            star = el.a[1] if el.tag == "tup" and len(el.a) == 2 else Top(leaves_of(el))
    for k, v in kwargs.items():
        if k == "**":
            star = v
        else:
            f[K(k)] = v
    return I.alloc(node, Cell("dict", f=f, star=star), st)


@_b("vars")
def _vars(I, p, args, kwargs, node, st, fr):
    a = args[0] if args else None
    c = I.cell(a, st) if a is not None and a.tag == "ref" else None
    if c is not None and c.kind == "inst":
        return Op("instdict", a)
    return Top(leaves_of(I.val(a, st)) if a is not None else ())


@ext("collections.defaultdict", "collections.OrderedDict")
def _defaultdict(I, p, args, kwargs, node, st, fr):
    from .interp import Cell

    star = None
    if p.endswith("defaultdict") and args:
        star = I.call(args[0], [], {}, node, st, fr) if args[0].tag != "k" else None
    return I.alloc(node, Cell("dict", f={}, star=star), st)


_TYPEMAP = {"builtins.int": "int", "builtins.float": "float", "builtins.str": "str", "builtins.bool": "bool"}


def _isinst(I, v, t, st):
    if t.tag == "tup":
        rs = [_isinst(I, v, x, st) for x in t.a]
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None
    if v.tag == "phi":
        rs = {_isinst(I, x, t, st) for x in v.a[0]}
        return rs.pop() if len(rs) == 1 else None
    tn = t.a[0] if t.tag == "ext" else None
    if v.tag == "k":
        if tn in _TYPEMAP:
            return isinstance(kval(v), {"int": int, "float": float, "str": str, "bool": bool}[_TYPEMAP[tn]])
        return False
    if v.tag in ("fn", "bound", "wrap"):
        return False
    if v.tag == "tup" and tn in ("builtins.int", "builtins.float", "builtins.str", "builtins.bool", "builtins.dict", "builtins.set", "builtins.complex"):
        return False
    if v.tag == "ref":
        c = I.cell(v, st)
        if c is None:
            return None
        k = c.kind
        if k == "inst":
            if t.tag == "cls":
                if t.a[0] in v.a[0].cls.mro:
                    return True
                return False
            if tn in ("numpy.ndarray",) or tn and tn.startswith("builtins."):
                return False
            return None
        if k == "param":
            o = v.a[0].origin
            if v.a[1]:
                return None
            if t.tag == "cls":
                return False if o in ("array", "list", "dict", "int", "callable") else None
            if o == "array":
                return tn == "numpy.ndarray" if tn in ("numpy.ndarray", "builtins.list", "builtins.dict", "builtins.str", "builtins.float", "builtins.int", "builtins.tuple") else None
            if o == "list":
                return tn == "builtins.list" if tn in ("numpy.ndarray", "builtins.list", "builtins.dict", "builtins.str", "builtins.float", "builtins.int", "builtins.tuple") else None
            if o == "dict":
                return tn == "builtins.dict" if tn in ("numpy.ndarray", "builtins.list", "builtins.dict", "builtins.str") else None
            return None
        if k in ("list", "dict", "set", "tuple"):
            if tn == "builtins." + k:
                return True
            if tn in ("numpy.ndarray", "builtins.str", "builtins.int", "builtins.float", "builtins.dict", "builtins.list", "builtins.tuple") or t.tag == "cls":
                return False
            return None
        if k == "arr":
            if t.tag == "cls":
                return False if not (c.val.tag in ("top",) or c.val.tag == "op" and c.val.a[0] in ("cb", "mcall")) else None
            if tn == "numpy.ndarray":
                vv = c.val
                if vv.tag == "op" and vv.a[0] == "call" and vv.a[1].tag == "ext" and npname(vv.a[1].a[0]) is not None:
                    return True if npname(vv.a[1].a[0]) in ("concatenate", "array", "asarray", "vstack", "c_", "r_", "zeros", "ones", "full", "clip", "stack") else None
            return None
    return None


@_b("isinstance")
def _isinstance(I, p, args, kwargs, node, st, fr):
    r = _isinst(I, args[0], args[1], st)
    if r is not None:
        return K(r)
    return Op("isinstance", I.val(args[0], st), I.val(args[1], st))


@_b("issubclass")
def _issubclass(I, p, args, kwargs, node, st, fr):
    if args[0].tag == "cls" and args[1].tag == "cls":
        return K(args[1].a[0] in args[0].a[0].mro)
    return Op("issubclass", I.val(args[0], st), I.val(args[1], st))


@_b("hasattr")
def _hasattr(I, p, args, kwargs, node, st, fr):
    v, n = args[0], args[1]
    from .interp import MISS

    if v.tag == "ref" and is_k(n):
        c = I.cell(v, st)
        if c is not None and c.kind == "inst":
            if v.a[0].cls.lookup(kval(n))[0] is not None:
                return K(True)
            x = c.f.get(kval(n), MISS)
            if x is MISS:
                if v.a[0].cls.has_ext_base() or "**restored**" in c.f:
                    return Op("hasattr", v, n)
                return K(False)
            if x.tag == "phi" and MISS in x.a[0]:
                return Op("hasattr", v, n)
            return K(True)
        if kval(n) == "__iter__" and c is not None:
            if c.kind in ("list", "tuple", "set", "dict") or c.kind == "param" and v.a[0].origin in ("array", "list", "dict"):
                return K(True)
    if v.tag == "tup" and is_k(n) and kval(n) == "__iter__":
        return K(True)
    if v.tag == "k" and is_k(n):
        return K(hasattr(kval(v), kval(n)))
    if v.tag == "tup" and is_k(n):
        return K(hasattr((), kval(n)))
    return Op("hasattr", I.val(v, st), n)


@_b("getattr")
def _getattr(I, p, args, kwargs, node, st, fr):
    v, n = args[0], args[1]
    if not is_k(n):
        if len(args) > 2:
            I.ev("dyn_getattr", node, st, base=v, attr=I.val(n, st))
        pats = dyn_names(I, v, I.val(n, st), st)
        if pats is not None:
            outs = [I.getattr_(v, x, node, st, fr, quiet=True) for x in pats]
            if len(args) > 2:
                outs.append(args[2])
            return Phi(outs)
        return Op("getattr", I.val(v, st), I.val(n, st), *argvals(I, args[2:], st))
    name = kval(n)
    if len(args) > 2:
        if v.tag == "phi":
            return Phi([_getattr(I, p, [x] + list(args[1:]), kwargs, node, st, fr) for x in v.a[0]])
        if v is NONE:
            return args[2]
        if v.tag == "ref":
            c = I.cell(v, st)
            if c is not None and c.kind == "inst":
                from .interp import MISS

                x = c.f.get(name, MISS)
                clsv = v.a[0].cls.lookup(name)[0]
                if x is MISS and clsv is None:
                    if v.a[0].cls.has_ext_base():
                        return Phi((I.getattr_(v, name, node, st, fr, quiet=True), args[2]))
                    return args[2]
                r = I.getattr_(v, name, node, st, fr, quiet=True)
                if x is not MISS and x.tag == "phi" and MISS in x.a[0] and clsv is None:
                    return Phi((r, args[2]))
                return r
            if c is not None and c.kind == "param":
                if name.startswith("__"):
                    return Phi((I.param_child(v.a[0], name, st), args[2]))
                return Phi((I.getattr_(v, name, node, st, fr, quiet=True), args[2]))
        if v.tag in ("bound",):
            return I.getattr_(v, name, node, st, fr)
        if v.tag in ("fn", "wrap"):
            if name == "__name__":
                return I.fn_name(v)
            return args[2]
        if v.tag == "mod":
            return I.getattr_(v, name, node, st, fr)
        return Op("getattr", I.val(v, st), n, I.val(args[2], st))
    return I.getattr_(v, name, node, st, fr)


def dyn_names(I, v, n, st):
    """attribute names matching a computed f-string such as f"{name}_batch" on a known instance"""
    if v.tag != "ref":
        return None
    c = I.cell(v, st)
    if c is None or c.kind != "inst":
        return None
    if n.tag == "phi":
        names = []
        for x in n.a[0]:
            if is_k(x):
                names.append(kval(x))
            else:
                return None
        return names
    return None


@_b("setattr")
def _setattr(I, p, args, kwargs, node, st, fr):
    if is_k(args[1]):
        I.setattr_(args[0], kval(args[1]), args[2], node, st, fr)
    else:
        I.ev("ext_attr_store", node, st, base=args[0], attr="?", value=I.val(args[2], st))
    return NONE


@_b("delattr")
def _delattr(I, p, args, kwargs, node, st, fr):
    I.ev("delattr", node, st, base=args[0], attr=kval(args[1]) if is_k(args[1]) else "?")
    if is_k(args[1]):
        for r in I.refs(args[0]):
            c = I.cell(r, st)
            if c is not None and c.f is not None:
                c = c.copy()
                c.f.pop(kval(args[1]), None)
                st.heap[r.a[0]] = c
    return NONE


@_b("vars")
def _vars(I, p, args, kwargs, node, st, fr):
    if args and args[0].tag == "ref" and args[0].a[0].cls is not None:
        return Op("instdict", args[0])
    return Top(())


@_b("callable")
def _callable(I, p, args, kwargs, node, st, fr):
    v = args[0]

    def one(x):
        if x.tag in ("fn", "bound", "wrap", "cls"):
            return True
        if x.tag == "k":
            return False
        if x.tag == "ref" and x.a[0].origin == "callable":
            return True
        return None

    if v.tag == "phi":
        rs = {one(x) for x in v.a[0]}
        r = rs.pop() if len(rs) == 1 else None
    else:
        r = one(v)
    return K(r) if r is not None else Op("callable", I.val(v, st))


@_b("type")
def _type(I, p, args, kwargs, node, st, fr):
    v = args[0]
    if v.tag == "ref" and v.a[0].cls is not None:
        return mk("cls", v.a[0].cls)
    if len(args) == 1:
        return Op("type", I.val(v, st))
    return Top(())


@ext("builtins.int", "builtins.float", "builtins.bool", "builtins.str", "builtins.abs", "builtins.round", "builtins.id", "builtins.hash",
     "builtins.repr", "builtins.ord", "builtins.chr", "builtins.divmod", "builtins.pow", "builtins.complex", "builtins.bytes", "builtins.format")
def _scalar(I, p, args, kwargs, node, st, fr):
    av = argvals(I, args, st)
    n = p.split(".")[-1]
    if av and all(is_k(x) for x in av) and n in ("int", "float", "bool", "str", "abs", "round", "ord", "pow"):
        try:
            import builtins

            return K(getattr(builtins, n)(*[kval(x) for x in av]))
        except Exception:
            pass
    if n in ("int", "float") and len(av) == 1:
        return Op(n, av[0])
    if n == "bool" and args:
        t = I.truth(args[0], st)
        if t is not None:
            return K(t)
        return Op("bool", av[0]) if av else K(False)
    if n == "abs" and av:
        return I.arr(node, Op("call", Ext("numpy.abs"), av[0]), st)
    return Op("call", Ext(p), *av)


@ext("builtins.sum", "builtins.min", "builtins.max", "builtins.any", "builtins.all")
def _reduce(I, p, args, kwargs, node, st, fr):
    n = p.split(".")[-1]
    if len(args) == 1:
        I.elem(args[0], node, st, fr)  # runs lazy iterators
        seq = I.exact_seq(args[0], st)
        if seq is not None and n == "sum" and seq and all(not (x.tag == "ref") for x in seq):
            return nadd([I.val(x, st) for x in seq])
    if "key" in kwargs and is_fnval(I, kwargs["key"], st):
        I.call(kwargs["key"], [I.elem(args[0], node, st, fr)], {}, node, st, fr)
    av = argvals(I, args, st)
    if len(av) > 1 and all(is_k(x) for x in av) and n in ("min", "max"):
        try:
            return K({"min": min, "max": max}[n](*[kval(x) for x in av]))
        except Exception:
            pass
    if n in ("min", "max") and len(av) > 1:
        av = sorted(av, key=skey)
    return Op("call", Ext(p), *av, *kwtail(I, kwargs, st))


@_b("print")
def _print(I, p, args, kwargs, node, st, fr):
    I.ev("extcall", node, st, name=p, args=args, kwargs=kwargs, argvals=argvals(I, args, st), kwvals={}, recv=None, result=None)
    return NONE


@_b("super")
def _super(I, p, args, kwargs, node, st, fr):
    return Top(())


@_b("slice")
def _slice(I, p, args, kwargs, node, st, fr):
    av = argvals(I, args, st)
    if len(av) == 1:
        av = [NONE, av[0], NONE]
    while len(av) < 3:
        av.append(NONE)
    if is_k(av[0]) and kval(av[0]) == 0:
        av[0] = NONE
    return mk("sl", *av)


@_b("property")
def _property(I, p, args, kwargs, node, st, fr):
    g = args[0] if args else kwargs.get("fget", NONE)
    s = args[1] if len(args) > 1 else kwargs.get("fset", NONE)
    return Op("property", g, s)


@_b("staticmethod")
def _static(I, p, args, kwargs, node, st, fr):
    return Op("staticmethod", args[0])


@_b("classmethod")
def _classm(I, p, args, kwargs, node, st, fr):
    return Op("classmethod", args[0])


@ext("builtins.open")
def _open(I, p, args, kwargs, node, st, fr):
    I.ev("extcall", node, st, name=p, args=args, kwargs=kwargs, argvals=argvals(I, args, st),
         kwvals={k: I.val(v, st) for k, v in kwargs.items()}, recv=None, result=None)
    return Op("call", Ext(p), *argvals(I, args, st))


@ext("importlib.import_module")
def _impmod(I, p, args, kwargs, node, st, fr):
    I.ev("extcall", node, st, name=p, args=args, kwargs=kwargs, argvals=argvals(I, args, st), kwvals={}, recv=None, result=None)
    return I.arr(node, Op("call", Ext(p), *argvals(I, args, st)), st)


@ext("operator.itemgetter", "operator.attrgetter")
def _og(I, p, args, kwargs, node, st, fr):
    return Op("call", Ext(p), *argvals(I, args, st))
