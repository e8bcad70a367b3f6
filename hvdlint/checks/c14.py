"""Process-wide settings and shared objects are left as they were by every call."""

import ast

from .. import entries
from ..prov import phis
from ..terms import T, show
from ..world import Session

EXPLANATION = (
    "Effect analysis for state that outlives a call and belongs to nobody in particular. Over every public entry point: (1) an external "
    "call that changes an interpreter-wide setting (warning filters, NumPy error or print state, JAX configuration, working directory, "
    "environment, import path, root logger, plot style) must run inside the context manager that restores it, or be undone in a `finally` "
    "on every path; (2) no call writes an object that exists since import: module globals, class attributes, module-level containers, "
    "default argument values, attributes or items of third-party modules. So two objects of the library share no mutable state."
)
ASSUMPTIONS = ["settings made while the package is being imported are part of importing it", "the named loggers of get_logger are the library's own"]

SETTERS = {
    "warnings.filterwarnings": ("warnings.catch_warnings",), "warnings.simplefilter": ("warnings.catch_warnings",),
    "warnings.resetwarnings": ("warnings.catch_warnings",), "numpy.seterr": ("numpy.errstate",), "numpy.seterrcall": ("numpy.errstate",),
    "numpy.set_printoptions": ("numpy.printoptions",), "numpy.setbufsize": (), "jax.config.update": (), "jax.experimental.enable_x64": (),
    "os.chdir": ("contextlib.chdir",), "os.putenv": (), "os.unsetenv": (), "os.umask": (), "os.environ.update": (), "os.environ.setdefault": (),
    "os.environ.pop": (), "os.environ.clear": (), "sys.setrecursionlimit": (), "sys.path.append": (), "sys.path.insert": (), "sys.path.extend": (),
    "logging.disable": (), "logging.basicConfig": (), "logging.captureWarnings": (), "logging.setLoggerClass": (), "locale.setlocale": (),
    "matplotlib.use": (), "matplotlib.rc": ("matplotlib.rc_context", "matplotlib.pyplot.rc_context"), "matplotlib.pyplot.rc": ("matplotlib.pyplot.rc_context",),
    "matplotlib.style.use": ("matplotlib.style.context",), "matplotlib.pyplot.style.use": ("matplotlib.pyplot.style.context",),
    "matplotlib.rcParams.update": ("matplotlib.rc_context",), "matplotlib.pyplot.rcParams.update": ("matplotlib.pyplot.rc_context",),
    "pandas.set_option": ("pandas.option_context",), "gc.disable": (), "gc.enable": (), "signal.signal": (), "random.seed": (), "numpy.random.seed": (),
    "threading.setprofile": (), "sys.settrace": (), "sys.setprofile": (), "atexit.register": (),
}
INPLACE_STRUCTURES = ("MultiList", "Node")

FIXTURE = '''
import warnings
import numpy as np
CACHE = {}
class A:
    seen = []
    def __init__(self, x, tags=[]):
        self.x = x
        self.tags = tags
    def good(self):
        with warnings.catch_warnings():
            warnings.filterwarnings("error")
            self.x = 1
        old = np.seterr(all="raise")
        try:
            return np.sqrt(self.x)
        finally:
            np.seterr(**old)
    def leak_filter(self):
        warnings.filterwarnings("error")
    def leak_class(self):
        self.seen.append(self.x)
    def leak_default(self):
        self.tags.append(1)
    def leak_module(self):
        CACHE[1] = self.x
'''


def ctx_names(e):
    out = []
    for w in e.withs or ():
        t = w[1] if isinstance(w, tuple) and len(w) > 1 else w
        out.append(show(t, 200) if isinstance(t, T) else str(t))
    return out


def undone(e):
    """the same setting is put back in a `finally` of the function"""
    if e.fn is None:
        return False
    short = e.name.rsplit(".", 1)[-1]
    for n in ast.walk(e.fn.node):
        if isinstance(n, ast.Try) and n.finalbody:
            inside = any(x is e.node for b in n.finalbody for x in ast.walk(b))
            restores = any(isinstance(x, ast.Call) and (getattr(x.func, "attr", None) or getattr(x.func, "id", None)) == short for b in n.finalbody for x in ast.walk(b))
            if inside or restores:
                return True
    return False


def shared(w, loc):
    return loc in w.base.heap and (loc.root is None or loc.root.startswith("default argument"))


def shared_target(w, e):
    """the import-time object an effect writes, if any"""
    for b in phis(e.base) if isinstance(getattr(e, "base", None), T) else ():
        if b.tag == "ref" and shared(w, b.a[0]):
            return b.a[0]
    loc = getattr(e, "loc", None)
    return loc if loc is not None and shared(w, loc) else None


def judge(ctx, w, events):
    for e in events:
        if e.kind == "extcall":
            name = e.name
            if name not in SETTERS:
                continue
            if name == "warnings.warn":
                continue
            ctx.ob("change of a process-wide setting", f"{e.where} {name}")
            if any(m in c for c in ctx_names(e) for m in SETTERS[name]) or undone(e):
                continue
            ctx.fail("leaked-setting", f"{e.func}:{name}", f"`{name}` changes a process-wide setting that is not restored when the call ends", e)
        elif e.kind in ("ext_attr_store", "ext_item_store"):
            base = getattr(e, "base", None)
            t = base if isinstance(base, T) else None
            if t is not None and t.tag == "ext":
                ctx.fail("external-state", f"{e.func}:{show(t, 60)}", f"assigns into `{show(t, 80)}`", e)
            else:
                ctx.ob("attribute or item of an external object", f"{e.where}")
        elif e.kind == "global_store":
            ctx.fail("module-global", f"{e.func}:{getattr(e, 'name', '')}", f"rebinds the module global `{getattr(e, 'name', '?')}`", e)
        elif e.kind == "classattr_store":
            ctx.fail("class-attribute", f"{e.func}:{getattr(e, 'attr', '')}", f"assigns the class attribute `{getattr(e, 'attr', '?')}`", e)
        elif e.kind in ("store", "attrset"):
            ctx.ob("write", f"{e.where}")
            loc = shared_target(w, e)
            if loc is not None and loc.kind != "frame":
                what = getattr(e, "how", None) or f"attribute {getattr(e, 'attr', '')}"
                ctx.fail("shared-object", f"{e.func}:{loc.label or loc.kind}", f"{what} writes an object shared by every instance since import", e)


def visit(ctx, sc, s, ev):
    ctx.ob("entry point", sc.name)
    if any(sc.name.startswith(f"class {n}") for n in INPLACE_STRUCTURES):
        return
    judge(ctx, s.w, ev)


def selftest(ctx):
    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    sub = type(ctx)("C14", "quick", 1)
    got = {}
    for m in ("good", "leak_filter", "leak_class", "leak_default", "leak_module"):
        s = Session(w)
        o = s.new("A", [s.param("x")])
        s.take()
        s.method(o, m)
        sub.findings = {}
        judge(sub, w, s.take())
        got[m] = len(sub.findings)
    ctx.need(got == {"good": 0, "leak_filter": 1, "leak_class": 1, "leak_default": 1, "leak_module": 1}, f"self-test: {got}")
    ctx.selftests.append("leaked filter, class list, default argument and module cache are reported; restored settings are not")


def run(ctx):
    ctx.rule("settings changed during a call are restored on every exit; no write to objects that exist since import")
    entries.catalogue(ctx, visit)
    ctx.at_least("entry point", 100)
    ctx.at_least("change of a process-wide setting", 3)
    ctx.at_least("write", 300)
