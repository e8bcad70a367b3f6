"""Code handed to a JAX transformation stays within what JAX can trace."""

import ast

from ..entries import catalogue
from ..terms import K, NONE, Op, STATIC_ATTRS, T, TRACED, Tup, is_k, kval, show, static_of_tracer
from ..world import Session
from .. import scen

EXPLANATION = (
    "Every function passed to jit, vmap or a JAX derivative is interpreted with its array arguments marked as tracers; marks follow the data through "
    "arithmetic, jax.numpy calls, indexing, containers and calls, and are dropped by shape, ndim, dtype and len, which are concrete under tracing. Wherever the "
    "code runs under the transformation, the operations that need the value of a tracer are reported: Python branches and comparisons of values, conversion to a "
    "Python number, numpy functions that materialise their argument, sizes and ranges taken from values, functions whose result size depends on values, "
    "assignment into arrays, and results kept on an object."
)
ASSUMPTIONS = [
    "jax.numpy functions other than those whose result size depends on values are traceable",
    "numpy functions that only delegate to the method of their argument (sum, mean, reshape, ...) are accepted",
    "third-party problem code (pymoo) is outside the analysis",
]

# numpy functions that end in a method of their argument or only look at its shape
NP_OK = {
    "sum", "prod", "product", "max", "min", "amax", "amin", "mean", "any", "all", "clip", "reshape", "transpose", "ravel", "squeeze", "argmin", "argmax", "cumsum",
    "cumprod", "take", "repeat", "swapaxes", "diagonal", "trace", "std", "var", "ndim", "shape", "size", "round", "around", "ptp", "iscomplexobj", "isrealobj",
    "can_cast", "result_type", "seterr", "errstate",
}
SIZED = {"zeros", "ones", "empty", "full", "arange", "eye", "identity", "linspace", "tri", "logspace", "geomspace"}
VALUE_SIZED = {"nonzero", "unique", "argwhere", "flatnonzero", "union1d", "intersect1d", "setdiff1d", "setxor1d", "extract", "compress", "delete", "trim_zeros",
               "unique_values", "unique_counts"}
PYTHON = {"float", "int", "bool", "complex", "min", "max", "sorted", "any", "all", "range", "bytes", "bin", "hex", "chr", "divmod", "filter", "hash", "set", "frozenset"}
METHODS = {"item", "tolist", "tobytes", "nonzero", "__float__", "__int__", "__bool__", "__index__", "numpy", "sort", "fill", "put", "itemset", "partition", "resize"}
TRANSFORMS = {"jit", "vmap", "jacrev", "jacfwd", "grad", "hessian", "jacobian", "value_and_grad"}

FIXTURE = '''
import math
import numpy as np
import jax.numpy as jnp
from functools import partial
from jax import jit, vmap, jacrev

@jit
def good(x, n=3):
    y = jnp.sum(x**2) if x.ndim == 1 else jnp.sum(x)
    for i in range(len(x)):
        y = y + x[i]
    if x.shape[0] > 2:
        y = y / x.shape[0]
    return jnp.where(y > 0, y, -y) + np.pi * np.sum(x)

@partial(jit, static_argnums=1)
def good_static(x, n):
    return jnp.sum(x) + sum(x[i] for i in range(n)) if n > 2 else jnp.zeros(n)

@jit
def branch(x):
    if jnp.sum(x) > 0:
        return x
    return -x

@jit
def ternary(x):
    return x if x[0] > 0.5 else 2 * x

@jit
def numeric(x):
    return math.sqrt(x[0]) + x

@jit
def cast(x):
    return jnp.sum(x) * float(x[0])

@jit
def ufunc(x):
    return np.sin(x)

@jit
def sized(n):
    return jnp.zeros(n)

@jit
def masked(x):
    return x[x > 0]

@jit
def assigned(x):
    y = jnp.zeros(3)
    y[0] = x[0]
    return y

@jit
def smallest(x):
    return min(x[0], x[1])

@jit
def located(x):
    return jnp.where(x > 0)[0]

class Keeper:
    def __init__(self):
        self.f = jit(self._f)
        self.last = None
    def _f(self, x):
        self.last = x * 2
        return x

def rows(X):
    return vmap(lambda x: x if x[0] > 0 else -x)(X)

def slopes(x):
    return jacrev(lambda z: np.sqrt(z))(x)
'''


MARK = Op("sym", K(TRACED))


def traced(t, memo):
    """does the term carry the value of a tracer"""
    if isinstance(t, (tuple, frozenset)):
        return any(traced(x, memo) for x in t)
    if not isinstance(t, T):
        return False
    r = memo.get(t)
    if r is not None:
        return r
    memo[t] = False
    if t.tag == "op":
        if t.a[0] == "traced":
            r = True
        elif static_of_tracer(t):
            r = False
        else:
            r = any(traced(x, memo) for x in t.a[1:])
    elif t.tag == "top":
        r = MARK in t.a[0]
    elif t.tag == "extm":
        r = t.a[1] not in STATIC_ATTRS and (not is_k(t.a[1]) if isinstance(t.a[1], T) else True) and traced(t.a[0], memo)
    elif t.tag in ("phi", "tup", "sl", "upd"):
        r = any(traced(x, memo) for x in t.a)
    else:
        r = False
    memo[t] = r
    return r


class Tracer:
    """marks the arguments of transformed functions and records what needs their values"""

    def __init__(self):
        self.memo = {}
        self.calls = 0
        self.static = set()

    def has(self, t):
        return traced(t, self.memo)

    # -- entering a transformation
    def mark(self, I, v, st):
        if is_k(v):
            x = kval(v)
            return v if x is None or isinstance(x, (str, bytes)) else Op("traced", v)
        if v.tag == "tup":
            return mk_tup([self.mark(I, x, st) for x in v.a])
        if v.tag in ("fn", "cls", "bound", "wrap", "mod", "ext", "super"):
            return v
        if v.tag == "phi":
            return v if any(x.tag in ("fn", "bound", "wrap") for x in v.a[0]) else Op("traced", I.val(v, st))
        if v.tag == "ref":
            c = I.cell(v, st)
            if c is not None and c.kind in ("inst", "dict"):
                return v
            seq = I.exact_seq(v, st) if c is not None and c.kind in ("list", "tuple") else None
            if seq is not None:
                return mk_tup([self.mark(I, x, st) for x in seq])
        t = I.val(v, st)
        return t if self.has(t) and t.tag == "op" and t.a[0] == "traced" else Op("traced", t)

    def enter(self, I, w, args, kwargs, node, st):
        kind, kw = w.a[0], dict(w.a[3])
        self.calls += 1
        nums, names = ints(I, kw.get("static_argnums"), st), strs(I, kw.get("static_argnames"), st)
        if kind == "jit":
            for i, v in enumerate(args):
                if i not in nums:
                    self.unfit(I, v, f"argument {i + 1}", node, st)
            for k, v in kwargs.items():
                if k not in names:
                    self.unfit(I, v, f"argument `{k}`", node, st)
        args = [v if i in nums or (nums and i - len(args) in nums) else self.mark(I, v, st) for i, v in enumerate(args)]
        kwargs = {k: v if k in names or (nums and not names) else self.mark(I, v, st) for k, v in kwargs.items()}
        return args, kwargs

    def unfit(self, I, v, what, node, st):
        bad = None
        if is_k(v) and isinstance(kval(v), str):
            bad = "a string"
        elif v.tag in ("fn", "bound", "wrap", "cls"):
            bad = "a function"
        elif v.tag == "ref":
            c = I.cell(v, st)
            if c is not None and c.kind == "inst" and not v.a[1]:
                bad = "an object"
        if bad:
            I.ev("needs_value", node, st, rule="non-array-argument", what=f"{what} of a jit-compiled function is {bad}, which is not an array")

    # -- inside
    def need(self, I, node, st, rule, what):
        I.ev("needs_value", node, st, rule=rule, what=what)

    def branch(self, I, v, st):
        t = I.val(v, st)
        if self.has(t):
            self.need(I, self.node(I), st, "value-branch", "a Python condition depends on the value of a traced array: " + show(strip(t), 90))

    def node(self, I):
        return getattr(I, "curnode", None)

    def ext(self, I, path, args, kwargs, node, st):
        vals = [I.val(a, st) for a in args]
        kv = {k: I.val(v, st) for k, v in kwargs.items()}
        hot = [v for v in [*vals, *kv.values()] if self.has(v)]
        n = path.split(".")[-1]
        if path.startswith("builtins."):
            if n in PYTHON and hot and not (n in ("any", "all", "min", "max", "sorted", "set", "frozenset") and not self.valued(I, args, st)):
                self.need(I, node, st, "python-number", f"`{n}` needs the value of a traced array")
            return
        if path.startswith(("math.", "cmath.", "statistics.", "scipy.")):
            if hot and not path.startswith("scipy.special"):
                self.need(I, node, st, "host-function", f"`{path}` needs the value of a traced array")
            return
        jaxy = path.startswith(("jax.numpy.", "jax."))
        npy = path.startswith("numpy.")
        if not (jaxy or npy) or not hot:
            return
        if npy and not path.startswith("numpy.random."):
            if n not in NP_OK:
                self.need(I, node, st, "host-function", f"`{path}` materialises a traced array")
            return
        if n in SIZED and vals:
            k = {"full": 1, "linspace": 0, "logspace": 0, "geomspace": 0}.get(n, len(vals))
            sizes = vals[:k] + [v for q, v in kv.items() if q in ("shape", "num", "N", "M", "stop", "start", "step")]
            if n in ("linspace", "logspace", "geomspace"):
                sizes = vals[2:3] + [v for q, v in kv.items() if q == "num"]
            if any(self.has(v) for v in sizes):
                self.need(I, node, st, "size-from-value", f"the size of `{path}` is taken from the value of a traced array")
            return
        if n in VALUE_SIZED and "size" not in kv:
            if n == "delete" and len(vals) > 1 and not self.has(vals[1]):
                return
            if n == "compress" and vals and not self.has(vals[0]):
                return
            self.need(I, node, st, "size-from-value", f"the result size of `{path}` depends on the values of a traced array")
        if n == "where" and len(vals) == 1 and "size" not in kv:
            self.need(I, node, st, "size-from-value", f"the result size of `{path}` with one argument depends on the values of a traced array")
        if n in ("tile", "reshape", "broadcast_to") and len(vals) > 1 and any(self.has(v) for v in vals[1:]):
            self.need(I, node, st, "size-from-value", f"the shape given to `{path}` is taken from the value of a traced array")

    def valued(self, I, args, st):
        """are values compared: two or more, or the members of a sequence that are traced"""
        if len(args) > 1:
            return True
        if not args:
            return False
        seq = I.exact_seq(args[0], st)
        return seq is None or len(seq) > 1

    def method(self, I, recv, name, args, kwargs, node, st):
        if name not in METHODS and name not in ("reshape", "at"):
            return
        if recv.tag in ("fn", "cls", "bound", "wrap", "mod", "ext", "super", "k", "tup"):
            return
        if recv.tag == "ref":
            c = I.cell(recv, st)
            if c is not None and c.kind in ("inst", "dict", "list", "set", "tuple") and not recv.a[1]:
                return
        if name in METHODS and self.has(I.val(recv, st)):
            self.need(I, node, st, "python-number", f"`.{name}()` needs the value of a traced array")
        if name == "reshape" and any(self.has(I.val(a, st)) for a in args):
            self.need(I, node, st, "size-from-value", "the shape given to `.reshape` is taken from the value of a traced array")


def mk_tup(xs):
    return Tup(*xs)


def ints(I, v, st):
    if v is None:
        return set()
    if is_k(v) and isinstance(kval(v), int):
        return {kval(v)}
    seq = I.exact_seq(v, st) or []
    return {kval(x) for x in seq if is_k(x)}


def strs(I, v, st):
    if v is None:
        return set()
    if is_k(v) and isinstance(kval(v), str):
        return {kval(v)}
    seq = I.exact_seq(v, st) or []
    return {kval(x) for x in seq if is_k(x)}


def strip(t):
    if isinstance(t, T):
        if t.tag == "op" and t.a[0] == "traced":
            return strip(t.a[1])
        if t.tag == "op":
            return Op(t.a[0], *[strip(x) for x in t.a[1:]])
        if t.tag == "tup":
            return Tup(*[strip(x) for x in t.a])
    return t


def masked(t, tr, seen, out):
    """boolean selections by traced masks inside a term"""
    if isinstance(t, (tuple, frozenset)):
        for x in t:
            masked(x, tr, seen, out)
        return
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    if t.tag == "op" and t.a[0] == "sub" and isinstance(t.a[2], T):
        idx = t.a[2].a if t.a[2].tag == "tup" else [t.a[2]]
        for i in idx:
            if isinstance(i, T) and i.tag == "op" and i.a[0] in ("cmp", "and", "or", "not", "invert", "band", "bor") and tr.has(i):
                out.append(i)
    for x in t.a:
        masked(x, tr, seen, out)


def judge(ctx, tr, events, name):
    for e in events:
        if e.kind == "transform":
            ctx.ob("functions handed to a JAX transformation", e.where)
        if not getattr(e, "traced", 0):
            if e.kind == "needs_value":
                report(ctx, e)
            continue
        if e.kind == "needs_value":
            report(ctx, e)
        elif e.kind == "extcall":
            ctx.ob("library calls inside traced code", f"{e.where} {e.name}")
        elif e.kind == "enter":
            ctx.ob("calls inside traced code", f"{e.where}")
        elif e.kind == "store" and not isinstance(e.node, (ast.AugAssign, ast.Call)):
            tgt = e.node.targets[0] if isinstance(e.node, ast.Assign) else e.node
            if isinstance(tgt, ast.Subscript):
                loc = e.loc
                ctx.ob("item assignments inside traced code", e.where)
                if getattr(loc, "kind", None) in ("arr", "param") and (e.valnum is not None and tr.has(e.valnum) or e.idx is not None and tr.has(e.idx) or jnp_array(loc)):
                    ctx.fail("array-assignment", f"{e.where}", "an element of an array is assigned inside traced code; traced arrays are immutable and host arrays cannot hold tracers", e)
        elif e.kind == "attrset":
            v = getattr(e, "value", None)
            if v is not None and not isinstance(v, T):
                v = None
            val = getattr(e, "valnum", None) or v
            if val is not None and tr.has(val):
                ctx.fail("leaked-tracer", f"{e.func}", f"a traced value is kept on an object (`.{getattr(e, 'attr', '?')}`): it is unusable after the transformation", e)


def jnp_array(loc):
    return getattr(loc, "extra", None) in ("jcall", "jarr", "at")


def report(ctx, e):
    if same_function_handler(e):
        return
    ctx.fail(e.rule, f"{e.func}", e.what, e)


def same_function_handler(e):
    return False


def selftest(ctx):
    w = ctx.scratch_world({"hvd/jaxed.py": FIXTURE})
    I = w.interp
    tr = I.tracer = Tracer()
    s = Session(w)
    want = {
        "good": None, "good_static": None, "branch": "value-branch", "ternary": "value-branch", "numeric": "host-function", "cast": "python-number", "ufunc": "host-function",
        "sized": "size-from-value", "masked": "mask", "assigned": "array-assignment", "smallest": "python-number", "located": "size-from-value", "rows": "value-branch",
        "slopes": "host-function", "Keeper": "leaked-tracer",
    }
    for n, rule in want.items():
        s.take()
        if n == "Keeper":
            o = s.new(w.find_class("Keeper"))
            r = s.call(s.get(o, "f"), [s.param("x")])
        else:
            a = [s.param("x")]
            if n == "good_static":
                a.append(K(4))
            if n == "sized":
                a = [K(3)]
            r = s.call(w.get("hvd.jaxed", n), a)
        probe = Probe()
        evs = s.take()
        judge(probe, tr, evs, n)
        out = []
        masked(s.val(r), tr, set(), out)
        got = set(probe.rules) | ({"mask"} if out else set())
        ctx.need((got == {rule}) if rule else not got, f"self-test {n}: expected {rule}, got {sorted(got)}")


class Probe:
    def __init__(self):
        self.rules = []

    def ob(self, *a, **k):
        pass

    def fail(self, rule, *a, **k):
        self.rules.append(rule)


def run(ctx):
    ctx.rule("inside code run under jit, vmap or a JAX derivative, no operation needs the value of a traced array")
    ctx.rule("no traced value is stored on an object, and no array element is assigned")
    ctx.rule("every argument of a jit-compiled function that is not declared static is an array")
    I = ctx.w.interp
    tr = I.tracer = Tracer()

    def visit(c, sc, s, events):
        judge(c, tr, events, sc.name)
        seen = set()
        for e in events:
            if e.kind == "extcall" and e.traced:
                out = []
                for v in e.argvals:
                    masked(v, tr, seen, out)
                for i in out:
                    c.fail("size-from-value", f"{e.func}", f"a traced array is selected by a traced mask: {show(strip(i), 80)}", e)

    catalogue(ctx, visit)
    ctx.at_least("functions handed to a JAX transformation", 1)
