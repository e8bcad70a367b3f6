"""All numerical results are computed in double precision."""

import ast

from .. import entries
from ..terms import T, is_k, kval
from ..world import Session

EXPLANATION = (
    "Two rules. Importing the package, in whichever order relative to JAX, must run an unconditional update of JAX's configuration to 64-bit "
    "mode before any module creates a JAX array (JAX reads the environment variable only when it is first imported), and nothing may set a "
    "narrower mode. And over all entry points no external call may receive a narrow floating-point or complex type, or a name of one, as a "
    "conversion or a dtype: such a call returns single-precision numbers whatever the mode is."
)
ASSUMPTIONS = ["the user does not switch JAX back to 32-bit mode", "NumPy's default floating-point type is double precision"]

NARROW = {"float16", "float32", "half", "single", "bfloat16", "complex64", "csingle", "singlecomplex", "FloatTensor", "float8_e4m3fn", "float8_e5m2"}
NARROW_STR = {"float16", "float32", "half", "single", "bfloat16", "complex64", "f4", "f2", "<f4", "<f2", ">f4", ">f2", "=f4", "=f2", "f", "e", "F", "c8"}
CAST_ARGS = {"dtype", "astype", "view", "asarray", "array", "preferred_element_type"}
HARMLESS = {"numpy.finfo", "jax.numpy.finfo", "numpy.issubdtype", "jax.numpy.issubdtype", "builtins.isinstance", "builtins.issubclass", "numpy.iinfo", "numpy.can_cast"}
SWITCH = "jax_enable_x64"

FIXTURE = '''
import numpy as np
import jax
import jax.numpy as jnp
DT = np.float32
def good(x):
    return np.asarray(x, dtype=np.float64) + np.finfo(np.float32).eps
def cast(x):
    return np.asarray(x).astype("float32")
def named(x):
    return jnp.zeros(3, dtype=DT)
def called(x):
    return np.float32(x)
def off(x):
    jax.config.update("jax_enable_x64", False)
    return x
'''


def ext_name(t):
    if isinstance(t, T) and t.tag == "ext":
        return t.a[0]
    if isinstance(t, T) and t.tag == "extm" and isinstance(t.a[0], T):
        b = ext_name(t.a[0])
        return f"{b}.{t.a[1]}" if b else None
    return None


def narrow_value(v, strings):
    n = ext_name(v)
    if n and n.split(".")[-1] in NARROW and n.split(".")[0] in ("numpy", "jax", "jaxlib", "ml_dtypes"):
        return n
    if strings and is_k(v) and isinstance(kval(v), str) and kval(v) in NARROW_STR:
        return repr(kval(v))
    if isinstance(v, T) and v.tag == "op" and v.a[0] == "call" and len(v.a) > 2 and isinstance(v.a[1], T) and v.a[1].tag == "ext" and v.a[1].a[0] in ("numpy.dtype", "jax.numpy.dtype"):
        return narrow_value(v.a[2], True)
    return None


def narrowing(e):
    """the narrow type an external call converts to"""
    if e.kind != "extcall" or e.name in HARMLESS:
        return None
    last = e.name.split(".")[-1]
    if last in NARROW and e.name.split(".")[0] in ("numpy", "jax"):
        return e.name
    cast = last in CAST_ARGS or e.name.split(".")[0] in ("numpy", "jax")
    for i, v in enumerate(e.argvals):
        r = narrow_value(v, last in ("astype", "view", "dtype") or cast and i > 0 and last not in ("einsum",))
        if r:
            return r
    for k, v in (e.kwvals or {}).items():
        r = narrow_value(v, k in ("dtype", "preferred_element_type", "type", "d_type"))
        if r:
            return r
    return None


def switch(e):
    """True / False / None: the event turns 64-bit mode on, (possibly) off, or has nothing to do with it"""
    if e.kind == "extcall":
        if e.name.endswith("config.update") and e.argvals and is_k(e.argvals[0]):
            v = e.argvals[1] if len(e.argvals) > 1 else (e.kwvals or {}).get("val")
            if kval(e.argvals[0]) == SWITCH:
                return bool(v is not None and is_k(v) and kval(v) in (True, 1))
            if kval(e.argvals[0]) == "jax_default_dtype_bits":
                return False if not (v is not None and is_k(v) and str(kval(v)) == "64") else None
        if e.name.endswith("disable_x64"):
            return False
        if e.name.endswith("experimental.enable_x64") and e.argvals and is_k(e.argvals[0]) and not kval(e.argvals[0]):
            return False
    if e.kind == "ext_attr_store" and str(getattr(e, "attr", "")) == SWITCH:
        v = getattr(e, "value", None)
        return bool(v is not None and is_k(v) and kval(v) is True)
    return None


def closure(w, root):
    """modules run by importing the package itself, through its unconditional imports"""
    seen, todo = set(), [root]
    while todo:
        m = todo.pop()
        if m in seen or m not in w.modules:
            continue
        seen.add(m)
        for n in w.modules[m].body:
            if isinstance(n, ast.ImportFrom):
                b = w.resolve_from(m, n)
                todo += [b, *[f"{b}.{a.name}" for a in n.names]]
            elif isinstance(n, ast.Import):
                todo += [a.name for a in n.names]
    return seen


def load_part(ctx, w):
    first = closure(w, w.package)
    on = None
    for i, e in enumerate(w.load_events):
        mod = e.where.split(":")[0]
        ctx.ob("module-level event ordered against the configuration")
        s = switch(e)
        if s is True and on is None and mod in first and not e.guards and not e.tries:
            on = i
        if on is None and e.kind == "extcall" and (e.name.startswith("jax.numpy.") or e.name.startswith("jax.random.") or e.name.startswith("jax.lax.")) and e.name.split(".")[-1] not in ("finfo", "iinfo", "dtype"):
            ctx.fail("array-before-configuration", f"{mod}:{e.name}", f"{e.name} runs at import before JAX is put into 64-bit mode", e)
    if on is None:
        ctx.fail("not-configured", w.package, "importing the package does not unconditionally switch JAX to 64-bit mode: if JAX was imported before, everything is computed in single precision", where=f"{w.sources[w.package][0]}")
    else:
        ctx.ob("unconditional switch to 64-bit mode", w.load_events[on].where)
    for e in w.load_events:
        event(ctx, e)


def event(ctx, e):
    if e.kind == "extcall":
        ctx.ob("external call examined for narrow types")
        r = narrowing(e)
        if r:
            ctx.fail("narrow-type", f"{e.func}:{r}", f"{e.name} converts to {r}", e)
    if switch(e) is False:
        ctx.fail("narrow-mode", f"{e.func}", "JAX's 64-bit mode is or may be switched off", e)


def visit(ctx, sc, s, events):
    for e in events:
        event(ctx, e)


class _Collect:
    def __init__(self):
        self.found = set()

    def ob(self, *a, **k):
        pass

    def fail(self, rule, construct, *a, **k):
        self.found.add(f"{rule} {construct.split(':')[0].split('.')[-1]}")


def selftest(ctx):
    w = ctx.scratch_world({"hvd/__init__.py": "import os\nos.environ['JAX_ENABLE_X64'] = 'True'\n", "hvd/m.py": FIXTURE})
    got = _Collect()
    load_part(got, w)
    for f in ("good", "cast", "named", "called", "off"):
        s = Session(w)
        s.call(w.get("hvd.m", f), [s.param("x", "array")])
        visit(got, None, s, s.take())
    want = {"not-configured hvd", "narrow-type cast", "narrow-type named", "narrow-type called", "narrow-mode off"}
    ctx.need(got.found == want, f"self-test: {sorted(got.found ^ want)}")
    w = ctx.scratch_world({"hvd/__init__.py": "import jax\njax.config.update('jax_enable_x64', True)\n", "hvd/m.py": FIXTURE})
    got = _Collect()
    load_part(got, w)
    ctx.need(not got.found, f"self-test: {got.found}")
    ctx.selftests.append("casts and dtypes of narrow types, by name, alias, string and call, and a mode switched off are found; a configured package is accepted")


def run(ctx):
    ctx.rule("importing the package switches JAX to 64-bit mode, unconditionally and before any array is created")
    ctx.rule("no external call converts to a narrower floating-point type")
    load_part(ctx, ctx.w)
    entries.catalogue(ctx, visit, opaque=frozenset())
    ctx.at_least("external call examined for narrow types", 2000)
