"""Element-level abstract evaluation of array code for fixed shapes and masks.

Arrays have a fixed shape; their elements are polynomials over named unknowns.  Everything whose outcome would depend on an unknown, and every
construct without a model, raises Undecided.  Nothing of the analysed package is imported or run.
"""

import ast
import itertools
from fractions import Fraction

from .interp import FuncObj


class Undecided(Exception):
    pass


class Failure(Exception):
    """the analysed code itself raises here (shape mismatch, index out of range, ...)"""


class PyExc(Exception):
    """an exception raised on purpose by a stand-in"""


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


NUM = (int, float, Fraction)  # bool is an int


# ------------------------------------------------------------------------------------------- polynomials
class P:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c != 0}

    @staticmethod
    def atom(name):
        return P({(name,): 1})

    @staticmethod
    def of(v):
        if isinstance(v, P):
            return v
        if isinstance(v, NUM):
            return P({(): v * 1})
        raise Undecided(f"element {type(v).__name__}")

    def const(self):
        if not self.t:
            return 0
        if set(self.t) == {()}:
            return self.t[()]
        return None

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def __repr__(self):
        return " + ".join((f"{c}*" if c != 1 or not m else "") + "*".join(m) if m else str(c) for m, c in sorted(self.t.items())) or "0"


def norm(v):
    if isinstance(v, P):
        c = v.const()
        return v if c is None else c
    return v


def add(x, y):
    if not isinstance(x, P) and not isinstance(y, P):
        return x + y
    t = dict(P.of(x).t)
    for m, c in P.of(y).t.items():
        t[m] = t.get(m, 0) + c
    return norm(P(t))


def mul(x, y):
    if not isinstance(x, P) and not isinstance(y, P):
        return x * y
    t = {}
    for m, c in P.of(x).t.items():
        for n, d in P.of(y).t.items():
            k = tuple(sorted(m + n))
            t[k] = t.get(k, 0) + c * d
    return norm(P(t))


def neg(x):
    return mul(-1, x)


def binop(op, x, y):
    if op in ("Add", "Sub"):
        if isinstance(x, bool):
            x = int(x)
        return add(x, y if op == "Add" else neg(y))
    if op == "Mult":
        return mul(x, y)
    if isinstance(x, P) or isinstance(y, P):
        if op == "Div" and not isinstance(y, P) and y:
            return mul(x, Fraction(1) / exact(y))
        if op == "Pow" and not isinstance(y, P):
            return power(x, y)
        raise Undecided(f"{op} of unknowns")
    try:
        return {
            "Div": lambda: plain(exact(x) / exact(y)), "FloorDiv": lambda: x // y, "Mod": lambda: x % y, "Pow": lambda: plain(exact(x) ** y) if isinstance(y, int) and not (y < 0 and x == 0) else x**y,
            "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "LShift": lambda: x << y, "RShift": lambda: x >> y,
        }[op]()
    except KeyError:
        raise Undecided(op)
    except ZeroDivisionError:
        raise Failure("division by zero")


def exact(x):
    return Fraction(str(x)) if isinstance(x, float) else Fraction(x)


def plain(x):
    return int(x) if isinstance(x, Fraction) and x.denominator == 1 else x


ROOTS = {}  # name of a root -> (what it is a root of, exponent)


def power(x, n):
    """x ** n for an unknown x; roots keep what they are a root of"""
    n = plain(exact(n))
    if n == 0:
        return 1
    if n == 1:
        return x
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1 and m[0] in ROOTS:
            base, e = ROOTS[m[0]]
            return power(base, e * n) if isinstance(base, P) else base ** (e * n)
    if isinstance(n, int) and 0 < n <= 8:
        r = x
        for _ in range(n - 1):
            r = mul(r, x)
        return r
    name = f"root[{x!r}^{n}]"
    ROOTS[name] = (x, exact(n))
    return P.atom(name)


ORDER = {}  # the order type under which unknowns are compared: name -> position on the line


def place(x):
    """position of an unknown (or of its negative) in the order type"""
    if isinstance(x, P):
        if not x.t:
            return Fraction(0)
        (m, c), = x.t.items() if len(x.t) == 1 else ((None, 0),)
        if c not in (1, -1) or m is None or len(m) != 1 or m[0] not in ORDER:
            raise Undecided("order of unknowns")
        return c * ORDER[m[0]]
    if ORDER and not isinstance(x, bool):
        raise Undecided("order of an unknown and a number")
    return exact(x)


def places(xs):
    return [place(x) for x in xs] if any(isinstance(x, P) for x in xs) else list(xs)


def compare(op, x, y):
    if isinstance(x, P) or isinstance(y, P):
        if ORDER and not (op in ("Eq", "NotEq") and x == y):
            return compare(op, place(x), place(y))
        if op in ("Eq", "NotEq") and isinstance(x, P) and x == y:
            return op == "Eq"
        if op in ("Eq", "NotEq") and isinstance(x, P) and not isinstance(y, P) and y == 0:
            return op == "NotEq"  # points in general position
        raise Undecided("comparison of unknowns")
    return {"Eq": x == y, "NotEq": x != y, "Lt": x < y if op == "Lt" else 0, "LtE": x <= y if op == "LtE" else 0,
            "Gt": x > y if op == "Gt" else 0, "GtE": x >= y if op == "GtE" else 0}[op]


# ------------------------------------------------------------------------------------------- arrays
class A:
    """array: shape and positions into a shared buffer"""

    def __init__(self, shape, buf, idx=None):
        self.shape, self.buf = tuple(shape), buf
        self.idx = list(range(len(buf))) if idx is None else idx
        n = 1
        for k in self.shape:
            n *= k
        assert n == len(self.idx), (self.shape, len(self.idx))

    @property
    def flat(self):
        return [self.buf[i] for i in self.idx]

    @property
    def ndim(self):
        return len(self.shape)

    def copy(self):
        return A(self.shape, self.flat)

    def __getitem__(self, key):
        return get(self, key)

    def rows(self):
        if not self.shape:
            raise Failure("iteration over a 0-d array")
        return [get(self, i) for i in range(self.shape[0])]

    def tolist(self):
        if not self.shape:
            return self.flat[0]
        return [r.tolist() if isinstance(r, A) else r for r in self.rows()]


def size(shape):
    n = 1
    for k in shape:
        n *= k
    return n


def array(v):
    """array from nested sequences"""
    if isinstance(v, A):
        return v
    if isinstance(v, (P,) + NUM):
        return A((), [v])
    if isinstance(v, (list, tuple)):
        xs = [array(x) for x in v]
        if not xs:
            return A((0,), [])
        sh = xs[0].shape
        if any(x.shape != sh for x in xs):
            raise Failure("ragged array")
        return A((len(xs),) + sh, [y for x in xs for y in x.flat])
    raise Undecided(f"array of {type(v).__name__}")


def scalar(a):
    return a.flat[0] if isinstance(a, A) and a.shape == () else a


def strides(shape):
    out, k = [], 1
    for n in reversed(shape):
        out.append(k)
        k *= n
    return list(reversed(out))


def positions(a, key):
    """(shape, positions into a.idx, is view)"""
    if not isinstance(key, tuple):
        key = (key,)
    key = [array(k) if isinstance(k, (list, tuple)) else k for k in key]
    key = [scalar(k) if isinstance(k, A) and k.shape == () and not isinstance(scalar(k), bool) else k for k in key]
    used = sum(k.ndim if isinstance(k, A) and isbool(k) else 0 if k is None or k is Ellipsis else 1 for k in key)
    if Ellipsis not in [k for k in key if not isinstance(k, (A, P))]:
        key.append(Ellipsis)
    if used > a.ndim:
        raise Failure("too many indices")
    out, ax = [], 0
    for k in key:
        if k is Ellipsis:
            for _ in range(a.ndim - used):
                out.append(("s", range(a.shape[ax]), ax))
                ax += 1
        elif k is None:
            out.append(("n", None, None))
        elif isinstance(k, slice):
            for x in (k.start, k.stop, k.step):
                if isinstance(x, (P, float, Fraction)):
                    raise Undecided("slice bound")
            out.append(("s", range(a.shape[ax])[k], ax))
            ax += 1
        elif isinstance(k, A) and isbool(k):
            if k.shape != a.shape[ax : ax + k.ndim]:
                raise Failure(f"mask of shape {k.shape} for {a.shape[ax:ax + k.ndim]}")
            for x in nonzero(k):
                out.append(("a", x, ax))
                ax += 1
        elif isinstance(k, A):
            if any(isinstance(x, (P, float, Fraction)) for x in k.flat):
                raise Undecided("index array of unknowns")
            out.append(("a", k, ax))
            ax += 1
        elif isinstance(k, bool):
            raise Undecided("scalar mask")
        elif isinstance(k, int):
            if not -a.shape[ax] <= k < a.shape[ax]:
                raise Failure("index out of range")
            out.append(("i", k % a.shape[ax], ax))
            ax += 1
        else:
            raise Undecided(f"index {type(k).__name__}")
    st = strides(a.shape)
    adv = [i for i, o in enumerate(out) if o[0] == "a"]
    if not adv:
        shape, offs = [], [0]
        for kind, v, x in out:
            if kind == "i":
                offs = [o + v * st[x] for o in offs]
            elif kind == "n":
                shape.append(1)
            else:
                shape.append(len(v))
                offs = [o + j * st[x] for o in offs for j in v]
        return tuple(shape), offs, True
    adv = [i for i, o in enumerate(out) if o[0] in "ai"]
    front = adv != list(range(adv[0], adv[-1] + 1))
    bshape = ()
    for i in adv:
        if out[i][0] == "a":
            bshape = bcast(bshape, out[i][1].shape)
    cols = [(expand(out[i][1], bshape).flat if out[i][0] == "a" else [out[i][1]] * size(bshape), out[i][2]) for i in adv]
    offs_adv = []
    for j in range(size(bshape)):
        o = 0
        for vals, x in cols:
            k = vals[j]
            if not -a.shape[x] <= k < a.shape[x]:
                raise Failure("index out of range")
            o += (k % a.shape[x]) * st[x]
        offs_adv.append(o)
    shape, offs, done = [], [0], False
    if front:
        shape, offs, done = list(bshape), list(offs_adv), True
    for i, (kind, v, x) in enumerate(out):
        if i in adv:
            if not done:
                offs = [o + p for o in offs for p in offs_adv]
                shape += list(bshape)
                done = True
        elif kind == "n":
            shape.append(1)
        else:
            shape.append(len(v))
            offs = [o + j * st[x] for o in offs for j in v]
    return tuple(shape), offs, False


def isbool(k):
    return bool(k.idx) and all(isinstance(x, bool) for x in k.flat) or not k.idx and getattr(k, "boolean", False)


def nonzero(k):
    if any(isinstance(x, P) for x in k.flat):
        raise Undecided("nonzero of unknowns")
    hits = [c for c, x in zip(itertools.product(*[range(n) for n in k.shape]), k.flat) if x]
    return [A((len(hits),), [h[d] for h in hits]) for d in range(k.ndim)]


def get(a, key):
    shape, pos, view = positions(a, key)
    if shape == ():
        return a.buf[a.idx[pos[0]]]
    r = A(shape, a.buf, [a.idx[p] for p in pos])
    r = r if view else r.copy()
    if getattr(a, "boolean", False):
        r.boolean = True
    return r


def put(a, key, v):
    shape, pos, _ = positions(a, key)
    v = array(v)
    while v.ndim > len(shape) and v.shape[0] == 1:
        v = get(v, 0)
        v = array(v)
    vals = expand(v, shape).flat
    if len(set(pos)) != len(pos):
        raise Undecided("repeated positions")
    for p, x in zip(pos, vals):
        a.buf[a.idx[p]] = x


def bcast(s, t):
    n = max(len(s), len(t))
    s, t = (1,) * (n - len(s)) + tuple(s), (1,) * (n - len(t)) + tuple(t)
    out = []
    for x, y in zip(s, t):
        if x != y and 1 not in (x, y):
            raise Failure(f"shapes {s} and {t} do not broadcast")
        out.append(y if x == 1 else x)
    return tuple(out)


def expand(a, shape):
    if a.shape == tuple(shape):
        return a
    if bcast(a.shape, shape) != tuple(shape):
        raise Failure(f"shape {a.shape} does not fit {shape}")
    sh = (1,) * (len(shape) - a.ndim) + a.shape
    st = strides(sh)
    idx = []
    for c in itertools.product(*[range(n) for n in shape]):
        idx.append(a.idx[sum((0 if n == 1 else k) * s for k, n, s in zip(c, sh, st))])
    return A(shape, a.buf, idx)


def zipped(f, x, y):
    if not isinstance(x, (A, list)) and not isinstance(y, (A, list)):
        return f(x, y)
    x, y = array(x), array(y)
    sh = bcast(x.shape, y.shape)
    r = A(sh, [f(p, q) for p, q in zip(expand(x, sh).flat, expand(y, sh).flat)])
    return scalar(r)


def mapped(f, x):
    if not isinstance(x, (A, list)):
        return f(x)
    x = array(x)
    return scalar(A(x.shape, [f(v) for v in x.flat]))


def transpose(a, axes=None):
    axes = list(reversed(range(a.ndim))) if axes is None else [k % a.ndim for k in axes]
    sh = tuple(a.shape[k] for k in axes)
    st = strides(a.shape)
    idx = [a.idx[sum(c[j] * st[axes[j]] for j in range(a.ndim))] for c in itertools.product(*[range(n) for n in sh])]
    return A(sh, a.buf, idx)


def reshape(a, shape):
    if isinstance(shape, int):
        shape = (shape,)
    shape = list(shape.flat if isinstance(shape, A) else shape)
    if any(isinstance(k, (P, float, Fraction)) for k in shape):
        raise Undecided("shape")
    if -1 in shape:
        rest = size([k for k in shape if k != -1])
        if rest == 0:
            raise Failure("reshape with an unknown dimension")
        if len(a.idx) % rest:
            raise Failure(f"cannot reshape {a.shape} into {shape}")
        shape[shape.index(-1)] = len(a.idx) // rest
    if size(shape) != len(a.idx):
        raise Failure(f"cannot reshape {a.shape} into {tuple(shape)}")
    return A(shape, a.buf, list(a.idx))


def concat(xs, axis=0):
    xs = [array(x) for x in xs]
    if not xs:
        raise Failure("nothing to concatenate")
    n = xs[0].ndim
    if any(x.ndim != n for x in xs) or n == 0:
        raise Failure("concatenation of arrays of different dimension")
    axis %= n
    for x in xs:
        if any(x.shape[k] != xs[0].shape[k] for k in range(n) if k != axis):
            raise Failure(f"cannot concatenate {[x.shape for x in xs]} along {axis}")
    sh = list(xs[0].shape)
    sh[axis] = sum(x.shape[axis] for x in xs)
    flat = []
    for c in itertools.product(*[range(k) for k in sh[:axis]]):
        for x in xs:
            y = get(x, tuple(c) + (Ellipsis,)) if c else x
            flat += array(y).flat
    r = A(sh, flat)
    if not flat and all(getattr(x, "boolean", False) for x in xs):
        r.boolean = True
    return r


def reduce(f, init, a, axis=None, keepdims=False):
    a = array(a)
    if axis is None:
        r = init
        for v in a.flat:
            r = f(r, v)
        return r
    axes = [k % a.ndim for k in (axis if isinstance(axis, tuple) else (axis,))]
    keep = [k for k in range(a.ndim) if k not in axes]
    b = transpose(a, keep + axes)
    n = size([a.shape[k] for k in axes])
    flat = b.flat
    out = []
    for i in range(size([a.shape[k] for k in keep])):
        r = init
        for v in flat[i * n : (i + 1) * n]:
            r = f(r, v)
        out.append(r)
    sh = [1 if k in axes else a.shape[k] for k in range(a.ndim)] if keepdims else [a.shape[k] for k in keep]
    return scalar(A(sh, out))


def einsum(spec, ops):
    ops = [array(o) for o in ops]
    spec = spec.replace(" ", "")
    lhs, _, rhs = spec.partition("->")
    parts = lhs.split(",")
    if len(parts) != len(ops):
        raise Failure("einsum operands")
    nell, free = 0, []
    for p, o in zip(parts, ops):
        if "..." in p:
            nell = max(nell, o.ndim - len(p.replace("...", "")))
    ell = [f"#{k}" for k in range(nell)]

    def letters(p, n=None):
        if "..." not in p:
            return list(p)
        i = p.index("...")
        m = nell if n is None else n
        return list(p[:i]) + ell[nell - m :] + list(p[i + 3 :])

    ls = []
    for p, o in zip(parts, ops):
        l = letters(p, o.ndim - len(p.replace("...", "")) if "..." in p else None)
        if len(l) != o.ndim:
            raise Failure(f"einsum {spec} with operand of dimension {o.ndim}")
        ls.append(l)
    if "->" in spec:
        out = letters(rhs)
    else:
        count = {}
        for l in ls:
            for x in l:
                count[x] = count.get(x, 0) + 1
        out = ell + sorted(x for x in count if count[x] == 1 and x[0] != "#")
    dim = {}
    for l, o in zip(ls, ops):
        for x, n in zip(l, o.shape):
            if dim.setdefault(x, n) != n:
                if 1 in (dim[x], n) and x[0] == "#":
                    raise Undecided("broadcast in einsum")
                raise Failure(f"einsum {spec}: dimensions differ")
    inner = [x for x in dim if x not in out]
    flats, sts = [o.flat for o in ops], [strides(o.shape) for o in ops]
    res = []
    for c in itertools.product(*[range(dim[x]) for x in out]):
        at = dict(zip(out, c))
        r = 0
        for d in itertools.product(*[range(dim[x]) for x in inner]):
            at.update(zip(inner, d))
            v = 1
            for l, f, s in zip(ls, flats, sts):
                v = mul(v, f[sum(at[x] * k for x, k in zip(l, s))])
            r = add(r, v)
        res.append(r)
    return scalar(A([dim[x] for x in out], res))


def matmul(x, y):
    x, y = array(x), array(y)
    if x.ndim == 1 and y.ndim == 1:
        return einsum("i,i->", [x, y])
    if x.ndim == 1:
        return einsum("i,...ij->...j", [x, y])
    if y.ndim == 1:
        return einsum("...ij,j->...i", [x, y])
    if x.ndim == 2 and y.ndim == 2:
        return einsum("ij,jk->ik", [x, y])
    return einsum("...ij,...jk->...ik", [x, y])


def block_diag(xs):
    ms = []
    for x in xs:
        x = array(x)
        if x.ndim == 0:
            x = reshape(x, (1, 1))
        elif x.ndim == 1:
            x = reshape(x, (1, -1)) if x.shape[0] else A((1, 0), [])
        if x.ndim != 2:
            raise Failure("block_diag of a stack")
        ms.append(x)
    R, C = sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms)
    out = A((R, C), [0] * (R * C))
    r = c = 0
    for m in ms:
        for i in range(m.shape[0]):
            for j in range(m.shape[1]):
                out.buf[(r + i) * C + c + j] = m.flat[i * m.shape[1] + j]
        r, c = r + m.shape[0], c + m.shape[1]
    return out


# ------------------------------------------------------------------------------------------- evaluator
class Obj:
    def __init__(self, cls=None, **f):
        self.cls, self.f = cls, f


class Sink:
    """a value nobody looks at: loggers, warning contexts, timers"""


class Ext:
    def __init__(self, name):
        self.name = name


class Bound:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Fn:
    def __init__(self, node, module, env, selfv=None, qual="", defaults=None):
        self.node, self.module, self.env, self.selfv, self.qual = node, module, env, selfv, qual
        self.defaults = defaults


class At:
    """x.at[i].set(v)"""

    def __init__(self, a, key=None):
        self.a, self.key = a, key


class Env:
    def __init__(self, parent=None):
        self.v, self.parent = {}, parent


SINKS = ("warnings.", "logging.", "time.", "matplotlib.")


def unwrapped(v):
    """The function behind a jit decorator, which does not change what it computes."""
    while v.tag == "wrap" and v.a[0] == "jit":
        v = v.a[1]
    return v


class Ev:
    """one evaluation; ``stubs`` maps dotted external names and 'Class.method' names to Python functions"""

    def __init__(self, w, stubs=None, fuel=200000):
        self.w, self.stubs, self.fuel = w, stubs or {}, fuel

    # -- names
    def glob(self, module, name):
        try:
            v = self.w.get(module, name)
        except Exception:
            v = None
        if v is None:
            if name in BUILTINS:
                return Ext("builtins." + name)
            raise Undecided(f"name {name}")
        if v.tag == "ext":
            return Ext(v.a[0])
        v = unwrapped(v)
        if v.tag == "fn" or isinstance(v.a[0], FuncObj):
            fo = v.a[0]
            return self.stubs.get(fo.qual) or Fn(fo.node, fo.module, None, None, fo.qual)
        if v.tag == "k":
            return v.a[1]
        raise Undecided(f"global {name}")

    def name(self, n, env, module):
        e = env
        while e is not None:
            if n in e.v:
                return e.v[n]
            e = e.parent
        return self.glob(module, n)

    # -- calls
    def call(self, f, args, kw):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided("too long")
        if callable(f) and not isinstance(f, (Fn, Ext, Bound)):
            return f(*args, **kw)
        if isinstance(f, Sink):
            return f
        if isinstance(f, Fn):
            return self.invoke(f, args, kw)
        if isinstance(f, Ext):
            return self.ext(f.name, args, kw)
        if isinstance(f, Bound):
            return self.bound(f.obj, f.name, args, kw)
        raise Undecided("call")

    def invoke(self, f, args, kw):
        env = Env(f.env)
        node = f.node
        a = node.args
        args = ([f.selfv] if f.selfv is not None else []) + list(args)
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        if len(args) > len(pos):
            if not a.vararg:
                raise Failure(f"too many arguments to {f.qual}")
            env.v[a.vararg.arg] = tuple(args[len(pos) :])
            args = args[: len(pos)]
        elif a.vararg:
            env.v[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            env.v[n] = v
        dflt = dict(zip(pos[len(pos) - len(a.defaults) :], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in pos[len(args) :] + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                env.v[n] = kw.pop(n)
            elif n in dflt:
                env.v[n] = self.expr(dflt[n], f.env or Env(), f.module)
            else:
                raise Failure(f"missing argument {n} of {f.qual}")
        if kw:
            if not a.kwarg:
                raise Failure(f"unexpected argument {sorted(kw)} of {f.qual}")
            env.v[a.kwarg.arg] = kw
        if isinstance(node, ast.Lambda):
            return self.expr(node.body, env, f.module)
        try:
            self.block(node.body, env, f.module)
        except _Ret as r:
            return r.v
        return None

    def method(self, obj, name, *args, **kw):
        try:
            return self.call(self.attr(obj, name), args, kw)
        except (TypeError, AttributeError, LookupError, ValueError, ArithmeticError, RecursionError) as e:
            raise Undecided(f"{type(e).__name__}: {e}")

    # -- attributes
    def attr(self, o, n):
        if isinstance(o, Obj):
            if n in o.f:
                return o.f[n]
            if o.cls is not None:
                v, c = o.cls.lookup(n)
                if v is not None:
                    if getattr(v, "tag", None) == "op" and v.a[0] == "property":
                        fo = unwrapped(v.a[1]).a[0]
                        return self.invoke(Fn(fo.node, fo.module, None, o, fo.qual), [], {})
                    fo = unwrapped(v).a[0]
                    if isinstance(fo, FuncObj):
                        if fo.kind == "property":
                            return self.invoke(Fn(fo.node, fo.module, None, o, fo.qual), [], {})
                        if fo.qual in self.stubs:
                            return self.stubs[fo.qual]
                        return Fn(fo.node, fo.module, None, None if fo.kind == "staticmethod" else o, fo.qual)
            raise Undecided(f"attribute {n}")
        if isinstance(o, Sink):
            return o
        if isinstance(o, Ext):
            return Ext(o.name + "." + n)
        if isinstance(o, A):
            if n == "T":
                return transpose(o)
            if n == "shape":
                return o.shape
            if n == "size":
                return len(o.idx)
            if n == "ndim":
                return o.ndim
            if n == "flat":
                return o.flat
            if n == "at":
                return At(o)
        if isinstance(o, (A, list, tuple, dict, str, At)):
            return Bound(o, n)
        raise Undecided(f"attribute {n} of {type(o).__name__}")

    def bound(self, o, n, args, kw):
        if isinstance(o, At) and n in ("set", "add", "multiply") and o.key is not None and len(args) == 1:
            r, v = o.a.copy(), args[0]
            if n != "set":
                v = self.bin("Add" if n == "add" else "Mult", get(r, o.key), v)
            put(r, o.key, v)
            return r
        if isinstance(o, A):
            if n in ("reshape",):
                return reshape(o, args[0] if len(args) == 1 and not isinstance(args[0], int) else list(args))
            if n in ("ravel", "flatten"):
                r = reshape(o, (len(o.idx),))
                return r if n == "ravel" else r.copy()
            if n in ("copy", "astype", "toarray", "todense", "tocsc", "tocsr"):
                if n == "astype" and args and isinstance(args[0], Ext) and args[0].name.endswith("bool"):
                    return self.ext("numpy.array", [o], {"dtype": args[0]})
                if n == "astype" and args and isinstance(args[0], Ext) and "int" in args[0].name:
                    return mapped(lambda v: int(v) if isinstance(v, bool) else v, o)
                return o.copy()
            if n == "tolist":
                return o.tolist()
            if n == "transpose":
                return transpose(o, args[0] if args and not isinstance(args[0], int) else args or None)
            if n == "squeeze":
                return reshape(o, [k for k in o.shape if k != 1]) if not args and not kw else self.no(n)
            if n == "item" and len(o.idx) == 1:
                return o.flat[0]
            if n == "fill":
                for i in o.idx:
                    o.buf[i] = args[0]
                return None
            if n in ("sum", "cumsum", "any", "all", "nonzero", "dot", "take", "min", "max", "repeat", "mean", "argmin", "argmax"):
                return self.ext("numpy." + n, [o] + list(args), kw)
        if isinstance(o, list):
            if n == "append":
                o.append(args[0])
                return None
            if n == "extend":
                o.extend(self.seq(args[0]))
                return None
            if n == "insert":
                o.insert(args[0], args[1])
                return None
            if n == "copy":
                return list(o)
            if n == "pop":
                return o.pop(*args)
        if isinstance(o, dict) and n in ("get", "items", "keys", "values"):
            return getattr(o, n)(*args)
        return self.no(n)

    def no(self, what):
        raise Undecided(f"no model for {what}")

    def seq(self, v):
        if isinstance(v, A):
            return v.rows()
        if isinstance(v, (list, tuple, range, str)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, set):
            return sorted(v)
        if hasattr(v, "__next__") or type(v).__name__ in ("dict_items", "dict_keys", "dict_values", "zip", "enumerate", "map"):
            return list(v)
        raise Undecided(f"iteration over {type(v).__name__}")

    def truth(self, v):
        if isinstance(v, P):
            raise Undecided("condition on an unknown")
        if isinstance(v, A):
            if len(v.idx) != 1:
                raise Failure("truth value of an array")
            return self.truth(v.flat[0])
        if isinstance(v, (Sink, Obj, Fn, Ext)):
            raise Undecided("condition")
        return bool(v)

    def ext(self, name, args, kw):
        if name in self.stubs:
            return self.stubs[name](*args, **kw)
        if name.startswith(SINKS):
            return Sink()
        short = name.split(".", 1)
        if short[0] == "builtins":
            f = BUILTINS.get(short[1])
            if f is None:
                return self.no(name)
            return f(self, *args, **kw)
        if short[0] == "jax":
            name = name.replace("jax.numpy.", "numpy.")
        if name.startswith("numpy."):
            f = NUMPY.get(name[6:])
            if f is None:
                return self.no(name)
            try:
                return f(self, *args, **kw)
            except TypeError as e:
                raise Undecided(f"{name}: {e}")
        if name in ("scipy.linalg.block_diag",):
            return block_diag(args)
        if name in ("scipy.sparse.csc_matrix", "scipy.sparse.csr_matrix", "scipy.sparse.coo_matrix", "scipy.sparse.csc_array"):
            return array(args[0])
        return self.no(name)

    # -- statements
    def block(self, body, env, module):
        for s in body:
            self.fuel -= 1
            if self.fuel < 0:
                raise Undecided("too long")
            self.stmt(s, env, module)

    def stmt(self, s, env, module):
        k = type(s).__name__
        if k == "Expr":
            self.expr(s.value, env, module)
        elif k == "Assign":
            v = self.expr(s.value, env, module)
            for t in s.targets:
                self.assign(t, v, env, module)
        elif k == "AnnAssign":
            if s.value is not None:
                self.assign(s.target, self.expr(s.value, env, module), env, module)
        elif k == "AugAssign":
            old = self.expr(load(s.target), env, module)
            v = self.expr(s.value, env, module)
            op = type(s.op).__name__
            if isinstance(old, A):
                new = zipped(lambda x, y: binop(op, x, y), old, v)
                put(old, Ellipsis, new)
                if isinstance(s.target, ast.Subscript):
                    self.assign(s.target, new, env, module)
            elif isinstance(old, list) and op == "Add":
                old.extend(self.seq(v))
            else:
                self.assign(s.target, self.bin(op, old, v), env, module)
        elif k == "If":
            self.block(s.body if self.truth(self.expr(s.test, env, module)) else s.orelse, env, module)
        elif k in ("For", "While"):
            it = iter(self.seq(self.expr(s.iter, env, module))) if k == "For" else None
            n = 0
            while True:
                n += 1
                if n > 2000:
                    raise Undecided("loop")
                if k == "For":
                    try:
                        v = next(it)
                    except StopIteration:
                        break
                    self.assign(s.target, v, env, module)
                elif not self.truth(self.expr(s.test, env, module)):
                    break
                try:
                    self.block(s.body, env, module)
                except _Brk:
                    return
                except _Cont:
                    continue
            self.block(s.orelse, env, module)
        elif k == "Return":
            raise _Ret(self.expr(s.value, env, module) if s.value is not None else None)
        elif k == "Try":
            try:
                try:
                    self.block(s.body, env, module)
                except (PyExc, Failure):
                    if not s.handlers:
                        raise
                    self.block(s.handlers[0].body, env, module)
                else:
                    self.block(s.orelse, env, module)
            finally:
                self.block(s.finalbody, env, module)
        elif k == "With":
            for i in s.items:
                v = self.expr(i.context_expr, env, module)
                if not isinstance(v, Sink) and not (isinstance(v, Ext) and v.name.startswith("numpy.")):
                    raise Undecided("with")
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, Sink(), env, module)
            self.block(s.body, env, module)
        elif k == "FunctionDef":
            env.v[s.name] = Fn(s, module, env, None, s.name)
        elif k == "Raise":
            raise PyExc("raise")
        elif k == "Break":
            raise _Brk()
        elif k == "Continue":
            raise _Cont()
        elif k in ("Pass", "Assert", "Global", "Nonlocal"):
            pass
        elif k == "Delete":
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.v.pop(t.id, None)
        else:
            raise Undecided(k)

    def assign(self, t, v, env, module):
        if isinstance(t, ast.Name):
            env.v[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.seq(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                k = len(xs) - len(t.elts) + 1
                xs = xs[:i] + [xs[i : i + k]] + xs[i + k :]
            if len(xs) != len(t.elts):
                raise Failure("unpacking")
            for e, x in zip(t.elts, xs):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env, module)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, env, module)
            k = self.index(t.slice, env, module)
            if isinstance(o, A):
                put(o, k, v)
            elif isinstance(o, (list, dict)) and not isinstance(k, (A, P)):
                try:
                    o[k] = v
                except (IndexError, TypeError):
                    raise Failure("list index")
            else:
                raise Undecided("store")
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, env, module)
            if not isinstance(o, Obj):
                raise Undecided("attribute store")
            p = o.cls.lookup(t.attr)[0] if o.cls is not None else None
            if getattr(p, "tag", None) == "op" and p.a[0] == "property":
                if p.a[2] is None:
                    raise Failure("property without setter")
                fo = unwrapped(p.a[2]).a[0]
                self.invoke(Fn(fo.node, fo.module, None, o, fo.qual), [v], {})
            else:
                o.f[t.attr] = v
        else:
            raise Undecided("assignment")

    # -- expressions
    def index(self, n, env, module):
        if isinstance(n, ast.Slice):
            f = lambda x: None if x is None else scalar(self.expr(x, env, module))
            return slice(f(n.lower), f(n.upper), f(n.step))
        if isinstance(n, ast.Tuple):
            return tuple(self.index(x, env, module) for x in n.elts)
        v = self.expr(n, env, module)
        return None if isinstance(v, Ext) and v.name in ("numpy.newaxis", "jax.numpy.newaxis") else v

    def bin(self, op, x, y):
        if op == "MatMult":
            return matmul(x, y)
        if isinstance(x, (set, frozenset)) and isinstance(y, (set, frozenset)):
            f = {"Sub": set.difference, "BitOr": set.union, "BitAnd": set.intersection}.get(op)
            if f is None:
                raise Undecided("set")
            return f(set(x), set(y))
        if isinstance(x, (list, tuple, str)) and not isinstance(y, A):
            if op == "Add" and type(x) is type(y):
                return x + y
            if op == "Mult" and isinstance(y, int):
                return x * y
            if isinstance(x, str):
                raise Undecided("string")
        if isinstance(y, (list, tuple)) and isinstance(x, int) and op == "Mult":
            return x * y
        return zipped(lambda p, q: binop(op, p, q), x, y)

    def expr(self, n, env, module):
        k = type(n).__name__
        if k == "Constant":
            return plain(Fraction(str(n.value))) if isinstance(n.value, float) and n.value == n.value and abs(n.value) < 1e30 else n.value
        if k == "Name":
            return self.name(n.id, env, module)
        if k == "Attribute":
            return self.attr(self.expr(n.value, env, module), n.attr)
        if k == "Subscript":
            o = self.expr(n.value, env, module)
            key = self.index(n.slice, env, module)
            if isinstance(o, Ext) and o.name in ("numpy.r_", "numpy.c_"):
                return join(o.name[-2:], key if isinstance(key, tuple) else (key,))
            if isinstance(o, At):
                return At(o.a, key)
            if isinstance(o, A):
                return get(o, key)
            if isinstance(o, (list, tuple, str, dict)):
                key = scalar(key)
                if isinstance(key, (A, P, tuple)) and not isinstance(o, dict):
                    raise Undecided("list index") if isinstance(key, P) else Failure("list index")
                try:
                    return o[key]
                except (IndexError, KeyError, TypeError):
                    raise Failure("index out of range")
            raise Undecided("subscript")
        if k == "BinOp":
            return self.bin(type(n.op).__name__, self.expr(n.left, env, module), self.expr(n.right, env, module))
        if k == "UnaryOp":
            v = self.expr(n.operand, env, module)
            op = type(n.op).__name__
            if op == "Not":
                return not self.truth(v)
            if op == "USub":
                return mapped(neg, v)
            if op == "Invert":
                return mapped(lambda x: (not x) if isinstance(x, bool) else ~x if isinstance(x, int) else self.no("~"), v)
            return v
        if k == "BoolOp":
            for x in n.values:
                v = self.expr(x, env, module)
                if self.truth(v) != isinstance(n.op, ast.And):
                    return v
            return v
        if k == "Compare":
            l = self.expr(n.left, env, module)
            out = True
            for op, c in zip(n.ops, n.comparators):
                r = self.expr(c, env, module)
                o = type(op).__name__
                if o in ("Is", "IsNot"):
                    v = (l is r) == (o == "Is")
                elif o in ("In", "NotIn"):
                    if isinstance(l, (A, P)) or not isinstance(r, (list, tuple, dict, str, set)):
                        raise Undecided("in")
                    v = (l in r) == (o == "In")
                elif isinstance(l, (A,)) or isinstance(r, A):
                    v = zipped(lambda p, q: compare(o, p, q), l, r)
                elif isinstance(l, (P,) + NUM) and isinstance(r, (P,) + NUM):
                    v = compare(o, l, r)
                elif o in ("Eq", "NotEq"):
                    v = (l == r) == (o == "Eq")
                else:
                    raise Undecided("comparison")
                if len(n.ops) == 1:
                    return v
                if not self.truth(v):
                    return False
                l = r
            return out
        if k == "Call":
            f = self.expr(n.func, env, module)
            args, kw = [], {}
            for a in n.args:
                if isinstance(a, ast.Starred):
                    args += self.seq(self.expr(a.value, env, module))
                else:
                    args.append(self.expr(a, env, module))
            for q in n.keywords:
                if q.arg is None:
                    d = self.expr(q.value, env, module)
                    if not isinstance(d, dict):
                        raise Undecided("**")
                    kw.update(d)
                else:
                    kw[q.arg] = self.expr(q.value, env, module)
            return self.call(f, args, kw)
        if k == "IfExp":
            return self.expr(n.body if self.truth(self.expr(n.test, env, module)) else n.orelse, env, module)
        if k in ("List", "Tuple"):
            out = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    out += self.seq(self.expr(e.value, env, module))
                else:
                    out.append(self.expr(e, env, module))
            return out if k == "List" else tuple(out)
        if k == "Dict":
            return {self.expr(a, env, module): self.expr(b, env, module) for a, b in zip(n.keys, n.values) if a is not None}
        if k == "Lambda":
            return Fn(n, module, env, None, "lambda")
        if k in ("ListComp", "GeneratorExp"):
            out = []
            e2 = Env(env)

            def go(i):
                if i == len(n.generators):
                    out.append(self.expr(n.elt, e2, module))
                    return
                g = n.generators[i]
                for v in self.seq(self.expr(g.iter, e2, module)):
                    self.assign(g.target, v, e2, module)
                    if all(self.truth(self.expr(c, e2, module)) for c in g.ifs):
                        go(i + 1)

            go(0)
            # every element has its own scope only through closures; lambdas in comprehensions are not modelled
            return out
        if k == "NamedExpr":
            v = self.expr(n.value, env, module)
            env.v[n.target.id] = v
            return v
        if k == "JoinedStr":
            return ""
        if k == "Slice":
            return self.index(n, env, module)
        raise Undecided(k)


def load(t):
    t = ast.parse(ast.unparse(t), mode="eval").body
    return t


def join(kind, parts):
    xs = []
    for p in parts:
        if isinstance(p, slice):
            if any(isinstance(x, (P, A)) for x in (p.start, p.stop, p.step)) or not isinstance(p.stop, int):
                raise Undecided("slice in r_")
            p = list(range(p.start or 0, p.stop, p.step or 1))
        xs.append(array(p))
    if kind == "r_":
        n = max(x.ndim for x in xs)
        if n == 0:
            return A((len(xs),), [x.flat[0] for x in xs])
        xs = [reshape(x, (1,) * (max(n, 1) - x.ndim) + x.shape) if x.ndim < n else x for x in xs]
        return concat(xs, 0)
    xs = [reshape(x, x.shape + (1,)) if x.ndim == 1 else reshape(x, (1, 1)) if x.ndim == 0 else x for x in xs]
    n = max(x.ndim for x in xs)
    return concat(xs, -1)


def _np_zeros(ev, shape, dtype=None, order=None, fill=0):
    shape = scalar(shape)
    shape = (shape,) if isinstance(shape, int) else tuple(shape.flat if isinstance(shape, A) else shape)
    if any(not isinstance(k, int) for k in shape):
        raise Undecided("shape")
    b = isinstance(dtype, Ext) and dtype.name.split(".")[-1] in ("bool", "bool_")
    r = A(shape, [bool(fill) if b else fill] * size(shape))
    if b:
        r.boolean = True
    return r


def _np_array(ev, v, dtype=None, copy=True, **kw):
    if isinstance(v, (range, map, zip)):
        v = list(v)
    r = array(v)
    if isinstance(dtype, Ext) and dtype.name.split(".")[-1] in ("bool", "bool_"):
        if any(isinstance(x, P) for x in r.flat):
            raise Undecided("bool of unknowns")
        r = A(r.shape, [bool(x) for x in r.flat])
        r.boolean = True
        return r
    return r.copy() if isinstance(v, A) else r


def _cumsum(ev, v, axis=None):
    v = array(v)
    if v.ndim != 1 and axis is not None:
        raise Undecided("cumsum axis")
    out, s = [], 0
    for x in v.flat:
        s = add(int(x) if isinstance(x, bool) else x, s)
        out.append(s)
    return A((len(out),), out)


def _num(x):
    return int(x) if isinstance(x, bool) else x


def _split(ev, v, where, axis=0):
    v = array(v)
    if axis != 0:
        raise Undecided("split axis")
    n = v.shape[0]
    w = scalar(where)
    if isinstance(w, int):
        if n % w:
            raise Failure("uneven split")
        cuts = [n // w * i for i in range(1, w)]
    else:
        cuts = [scalar(x) for x in ev.seq(where)]
    cuts = [0] + cuts + [n]
    return [get(v, slice(a, b)) for a, b in zip(cuts, cuts[1:])]


def _stack(ev, xs, axis=0):
    xs = [array(x) for x in ev.seq(xs)]
    r = array(xs)
    if axis not in (0, -r.ndim):
        order = list(range(1, r.ndim))
        order.insert(axis % r.ndim, 0)
        r = transpose(r, order)
    return r


def _at2(x):
    x = array(x)
    return reshape(x, (1,) * (2 - x.ndim) + x.shape) if x.ndim < 2 else x


def _block(ev, rows):
    rows = ev.seq(rows)
    if rows and not isinstance(rows[0], (list, tuple)):
        return concat([_at2(x) for x in rows], 1)
    return concat([concat([_at2(x) for x in r], 1) for r in rows], 0)


def _where(ev, c, *xy):
    if not xy:
        return tuple(nonzero(array(c)))
    c = array(c)
    if any(isinstance(x, P) for x in c.flat):
        raise Undecided("where")
    x, y = array(xy[0]), array(xy[1])
    sh = bcast(bcast(c.shape, x.shape), y.shape)
    return A(sh, [p if k else q for k, p, q in zip(expand(c, sh).flat, expand(x, sh).flat, expand(y, sh).flat)])


def _repeat(ev, v, n, axis=None):
    v = array(v)
    n = scalar(n)
    if axis is None:
        v, axis = reshape(v, (len(v.idx),)), 0
    k = v.shape[axis]
    ns = [n] * k if isinstance(n, int) else [x for x in array(n).flat]
    i = A((sum(ns),), [j for j, m in enumerate(ns) for _ in range(m)])
    return get(v, (slice(None),) * (axis % v.ndim) + (i,))


def _tile(ev, v, reps):
    v = array(v)
    reps = (reps,) if isinstance(reps, int) else tuple(reps)
    n = max(len(reps), v.ndim)
    reps = (1,) * (n - len(reps)) + reps
    v = reshape(v, (1,) * (n - v.ndim) + v.shape)
    for ax, k in enumerate(reps):
        v = concat([v] * k, ax) if k else get(v, (slice(None),) * ax + (slice(0, 0),))
    return v


def _bool2(f):
    def g(ev, x, axis=None, **kw):
        x = array(x)
        if any(isinstance(v, P) for v in x.flat):
            raise Undecided("truth of unknowns")
        return reduce(lambda p, q: f(p, bool(q)), f is _and, x, axis)

    return g


def _and(p, q):
    return bool(p and q)


def _or(p, q):
    return bool(p or q)


def _ext2(pick):
    def g(ev, x, axis=None, **kw):
        x = array(x)
        if any(isinstance(v, P) for v in x.flat) or axis is not None or not x.idx:
            raise Undecided("extremum")
        return pick(x.flat)

    return g


NUMPY = {
    "zeros": _np_zeros, "empty": _np_zeros, "array": _np_array, "asarray": lambda ev, v, dtype=None: _np_array(ev, v, dtype) if dtype is not None else array(list(v) if isinstance(v, range) else v),
    "ones": lambda ev, s, dtype=None: _np_zeros(ev, s, dtype, fill=1), "full": lambda ev, s, v, dtype=None: _np_zeros(ev, s, dtype, fill=v),
    "zeros_like": lambda ev, v, dtype=None: A(array(v).shape, [0] * len(array(v).idx)), "empty_like": lambda ev, v, dtype=None: A(array(v).shape, [0] * len(array(v).idx)),
    "ones_like": lambda ev, v, dtype=None: _np_zeros(ev, array(v).shape, dtype, fill=1),
    "eye": lambda ev, n, m=None: A((n, m or n), [int(i == j) for i in range(n) for j in range(m or n)]),
    "einsum": lambda ev, spec, *ops: einsum(spec, ops) if isinstance(spec, str) else ev.no("einsum"),
    "cumsum": _cumsum, "sum": lambda ev, v, axis=None, keepdims=False: reduce(lambda p, q: add(p, _num(q)), 0, v, axis, keepdims),
    "count_nonzero": lambda ev, v, axis=None: reduce(lambda p, q: p + (1 if ev.truth(q) else 0), 0, v, axis),
    "concatenate": lambda ev, v, axis=0: concat([reshape(array(x), (-1,)) for x in ev.seq(v)] if axis is None else ev.seq(v), axis or 0),
    "vstack": lambda ev, v: concat([_at2(x) for x in ev.seq(v)], 0),
    "hstack": lambda ev, v: (lambda xs: concat(xs, 0 if xs[0].ndim == 1 else 1))([array(x) if array(x).ndim else reshape(array(x), (1,)) for x in ev.seq(v)]),
    "column_stack": lambda ev, v: join("c_", ev.seq(v)), "block": _block, "stack": _stack, "split": _split, "array_split": _split,
    "append": lambda ev, a, b, axis=None: concat([reshape(array(a), (-1,)) if array(a).idx else A((0,), []), reshape(array(b), (-1,)) if array(b).idx else A((0,), [])]) if axis is None else concat([a, b], axis),
    "nonzero": lambda ev, v: tuple(nonzero(array(v))), "flatnonzero": lambda ev, v: nonzero(reshape(array(v), (len(array(v).idx),)))[0], "where": _where,
    "arange": lambda ev, *a: (lambda r: A((len(r),), list(r)))(range(*[scalar(x) for x in a])) if all(isinstance(scalar(x), int) for x in a) else ev.no("arange"),
    "ravel": lambda ev, v: reshape(array(v), (len(array(v).idx),)), "reshape": lambda ev, v, s: reshape(array(v), s), "transpose": lambda ev, v, axes=None: transpose(array(v), axes),
    "dot": lambda ev, x, y: matmul(x, y), "matmul": lambda ev, x, y: matmul(x, y), "outer": lambda ev, x, y: einsum("i,j->ij", [x, y]),
    "atleast_2d": lambda ev, v: _at2(v), "atleast_1d": lambda ev, v: array(v) if array(v).ndim else reshape(array(v), (1,)),
    "repeat": _repeat, "tile": _tile, "copy": lambda ev, v: array(v).copy(), "negative": lambda ev, v: mapped(neg, v),
    "any": _bool2(_or), "all": _bool2(_and), "min": _ext2(min), "max": _ext2(max), "squeeze": lambda ev, v: reshape(array(v), [k for k in array(v).shape if k != 1]),
    "add": lambda ev, x, y: ev.bin("Add", x, y), "multiply": lambda ev, x, y: ev.bin("Mult", x, y), "subtract": lambda ev, x, y: ev.bin("Sub", x, y),
    "size": lambda ev, v: len(array(v).idx), "shape": lambda ev, v: array(v).shape, "ndim": lambda ev, v: array(v).ndim,
    "logical_not": lambda ev, v: mapped(lambda x: not ev.truth(x), v), "expand_dims": lambda ev, v, axis: get(array(v), (slice(None),) * (axis % (array(v).ndim + 1)) + (None,)),
    "take": lambda ev, v, i, axis=None: get(array(v) if axis is not None else reshape(array(v), (-1,)), (slice(None),) * ((axis or 0) % max(array(v).ndim, 1)) + (array(i),)),
    "errstate": lambda ev, **k: Sink(), "broadcast_to": lambda ev, v, s: expand(array(v), tuple(s) if not isinstance(s, int) else (s,)),
    "int64": lambda ev, v: v, "float64": lambda ev, v: v,
}
def _mean(ev, v, axis=None, keepdims=False):
    v = array(v)
    n = len(v.idx) if axis is None else size([v.shape[k] for k in (axis if isinstance(axis, tuple) else (axis,))])
    if n == 0:
        raise Undecided("mean of nothing")
    return mapped(lambda x: binop("Div", x, n), NUMPY["sum"](ev, v, axis, keepdims))


def _unique(ev, v, return_index=False, return_inverse=False, return_counts=False):
    v = reshape(array(v), (len(array(v).idx),))
    at = places(v.flat)
    u = sorted(set(at))
    r = [A((len(u),), [v.flat[at.index(x)] for x in u])]
    if return_index:
        r.append(A((len(u),), [at.index(x) for x in u]))
    if return_inverse:
        r.append(A((len(at),), [u.index(x) for x in at]))
    if return_counts:
        r.append(A((len(u),), [at.count(x) for x in u]))
    return tuple(r) if len(r) > 1 else r[0]


def _argsort(ev, v, axis=-1, kind=None):
    v = array(v)
    if v.ndim != 1:
        raise Undecided("argsort")
    at = places(v.flat)
    # short arrays are sorted by insertion, which is stable, whatever the kind
    return A(v.shape, sorted(range(len(at)), key=lambda i: at[i]))


def _lexsort(ev, keys, axis=-1):
    ks = [places(array(k).flat) for k in ev.seq(keys)]
    return A((len(ks[0]),), sorted(range(len(ks[0])), key=lambda i: [k[i] for k in reversed(ks)]))


def _arg(pick):
    def g(ev, v, axis=None):
        v = array(v)
        if v.ndim != 1 and axis is not None or not v.idx:
            raise Undecided("argmin")
        at = places(v.flat)
        return at.index(pick(at))

    return g


def _delete(ev, v, obj, axis=None):
    v = array(v)
    if axis is None:
        v = reshape(v, (len(v.idx),))
        axis = 0
    n = v.shape[axis % v.ndim]
    drop = {int(scalar(i)) % n for i in (array(obj).flat if isinstance(obj, (A, list, tuple)) else [obj])}
    keep = [i for i in range(n) if i not in drop]
    return get(v, (slice(None),) * (axis % v.ndim) + (A((len(keep),), keep),))


def _insert(ev, v, obj, values, axis=None):
    v = array(v)
    if axis is None:
        v = reshape(v, (len(v.idx),))
        axis = 0
    k, axis = scalar(obj), axis % v.ndim
    if not isinstance(k, int) or isinstance(values, (A, list, tuple)) and array(values).ndim:
        raise Undecided("insert")
    cut = lambda a, b: get(v, (slice(None),) * axis + (slice(a, b),))
    mid = A(tuple(1 if i == axis else d for i, d in enumerate(v.shape)), [scalar(values)] * (len(v.idx) // max(1, v.shape[axis]) if v.shape[axis] else 1))
    return concat([cut(None, k), mid, cut(k, None)], axis)


def _pick(least):
    def g(x, y):
        if isinstance(x, P) or isinstance(y, P):
            if x == y:
                return x
            return x if (place(x) < place(y)) == least else y
        return min(x, y) if least else max(x, y)

    return g


def _clip(ev, v, lo=None, hi=None, a_min=None, a_max=None):
    lo, hi = (a_min if lo is None else lo), (a_max if hi is None else hi)
    if lo is not None:
        v = zipped(_pick(False), v, lo)
    if hi is not None:
        v = zipped(_pick(True), v, hi)
    return v


NUMPY["argsort"], NUMPY["lexsort"], NUMPY["argmin"], NUMPY["argmax"] = _argsort, _lexsort, _arg(min), _arg(max)
NUMPY["sort"] = lambda ev, v, axis=-1: (lambda x: x[A(x.shape, sorted(range(len(x.idx)), key=places(x.flat).__getitem__))] if x.ndim == 1 else ev.no("sort"))(array(v))
NUMPY["delete"], NUMPY["insert"], NUMPY["clip"] = _delete, _insert, _clip
NUMPY["minimum"], NUMPY["maximum"] = (lambda ev, x, y: zipped(_pick(True), x, y)), (lambda ev, x, y: zipped(_pick(False), x, y))
NUMPY["setdiff1d"] = lambda ev, x, y: (lambda u: A((len(u),), u))(sorted(set(array(x).flat) - set(array(y).flat)))
NUMPY["isin"] = NUMPY["in1d"] = lambda ev, x, y: mapped(lambda v: v in array(y).flat, x)
NUMPY["mean"] = _mean
NUMPY["unique"] = _unique
NUMPY["bincount"] = lambda ev, v, minlength=0: (lambda f: (lambda n: A((n,), [f.count(i) for i in range(n)]))(max([minlength] + [x + 1 for x in f])))(array(v).flat)
def _norm(ev, v, ord=None, axis=None, keepdims=False):
    v = array(v)
    if ord not in (None, 2) or ord == 2 and axis is None and v.ndim != 1:
        raise Undecided("norm")
    sq = reduce(lambda p, q: add(p, mul(q, q)), 0, v, axis, keepdims)
    return NUMPY["sqrt"](ev, sq)


NUMPY["linalg.norm"] = _norm
NUMPY["sqrt"] = lambda ev, v: mapped(lambda x: power(x, Fraction(1, 2)) if isinstance(x, P) else ev.no("sqrt") if x not in (0, 1) else x, v)
NUMPY["square"] = lambda ev, v: ev.bin("Pow", v, 2)
NUMPY["power"] = lambda ev, v, n: ev.bin("Pow", v, n)
NUMPY["diag"] = lambda ev, v: (lambda a: A((a.shape[0],) * 2, [a.flat[i] if i == j else 0 for i in range(a.shape[0]) for j in range(a.shape[0])]) if a.ndim == 1 else A((min(a.shape),), [a[i, i] for i in range(min(a.shape))]))(array(v))
NUMPY["moveaxis"] = lambda ev, v, a, b: (lambda x, o: (o.insert(b % x.ndim, a % x.ndim), transpose(x, o))[1])(array(v), [k for k in range(array(v).ndim) if k != a % array(v).ndim])
NUMPY["swapaxes"] = lambda ev, v, a, b: (lambda x, o: (o.__setitem__(a, b % x.ndim), o.__setitem__(b, a % x.ndim), transpose(x, o))[2])(array(v), list(range(array(v).ndim)))
NUMPY["row_stack"] = NUMPY["vstack"]
NUMPY["logical_and"] = NUMPY["bitwise_and"] = lambda ev, x, y: ev.bin("BitAnd", x, y)
NUMPY["logical_or"] = NUMPY["bitwise_or"] = lambda ev, x, y: ev.bin("BitOr", x, y)


def _len(ev, v):
    if isinstance(v, A):
        if not v.shape:
            raise Failure("len of a scalar")
        return v.shape[0]
    if isinstance(v, (list, tuple, dict, str, range)):
        return len(v)
    raise Undecided("len")


def _sum(ev, v, start=0):
    r = start
    for x in ev.seq(v):
        r = ev.bin("Add", r, _num(x))
    return r


def _isinstance(ev, v, t):
    ts = t if isinstance(t, tuple) else (t,)
    names = {x.name.split(".")[-1] for x in ts if isinstance(x, Ext)}
    if len(names) != len(ts):
        raise Undecided("isinstance")
    if isinstance(v, Obj):
        if names <= {"ndarray", "list", "tuple", "dict", "int", "float", "str"}:
            return False
        raise Undecided("isinstance")
    own = {Fraction: {"float"}, A: {"ndarray", "Iterable"}, list: {"list", "Iterable"}, tuple: {"tuple", "Iterable"}, dict: {"dict"}, int: {"int"}, bool: {"bool", "int"}, float: {"float"}, str: {"str"}}.get(type(v))
    if own is None:
        raise Undecided("isinstance")
    return bool(own & names)


BUILTINS = {
    "len": _len, "range": lambda ev, *a: range(*[scalar(x) if isinstance(scalar(x), int) else ev.no("range") for x in a]), "enumerate": lambda ev, v, start=0: list(enumerate(ev.seq(v), start)),
    "zip": lambda ev, *v: list(zip(*[ev.seq(x) for x in v])), "sum": _sum, "list": lambda ev, v=(): ev.seq(v), "tuple": lambda ev, v=(): tuple(ev.seq(v)),
    "int": lambda ev, v: int(scalar(v)) if not isinstance(scalar(v), (P, A)) else ev.no("int"), "float": lambda ev, v: scalar(v), "bool": lambda ev, v: ev.truth(v),
    "map": lambda ev, f, *v: [ev.call(f, list(x), {}) for x in zip(*[ev.seq(x) for x in v])], "reversed": lambda ev, v: list(reversed(ev.seq(v))), "print": lambda ev, *a, **k: None,
    "isinstance": _isinstance, "any": lambda ev, v: any(ev.truth(x) for x in ev.seq(v)), "all": lambda ev, v: all(ev.truth(x) for x in ev.seq(v)),
    "hasattr": lambda ev, o, n: n in o.f or (o.cls is not None and o.cls.lookup(n)[0] is not None) if isinstance(o, Obj) else ev.no("hasattr"),
    "min": lambda ev, *a: min(_plain(ev, a)), "max": lambda ev, *a: max(_plain(ev, a)), "slice": lambda ev, *a: slice(*a), "Exception": None, "dict": lambda ev, **k: dict(k),
    "getattr": lambda ev, o, n: ev.attr(o, n), "iter": lambda ev, v: iter(ev.seq(v)), "next": lambda ev, v: next(v), "bool_": None, "str": lambda ev, v="": "", "set": lambda ev, v=(): {scalar(x) for x in ev.seq(v)}, "sorted": lambda ev, v: sorted(ev.seq(v), key=lambda x: place(x) if isinstance(x, P) else x), "object": None, "ndarray": None,
}


def _plain(ev, a):
    xs = ev.seq(a[0]) if len(a) == 1 else list(a)
    if any(isinstance(x, (P, A)) for x in xs) or not xs:
        raise Undecided("extremum")
    return xs
