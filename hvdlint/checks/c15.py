"""Files are written and processes started only when the caller asked for it."""

from .. import entries
from ..terms import T, is_k, kval, leaves_of, show, subterms
from ..world import Session

EXPLANATION = (
    "Effect analysis with guards. Every external call that can create, change or delete a file, open a connection or start a process is "
    "a sink. Over every public entry point each sink must be reached only under a condition on an argument the caller set for that "
    "purpose (a save/plot flag or an optional file name), or write to a path that contains a name the caller passed for the output, or sit in a function "
    "whose only purpose is drawing a figure. Nothing else in the library touches the file system."
)
ASSUMPTIONS = ["the bridge to the external hypervolume program (hvd/exact.py) exchanges files with that program by design"]

SINK_SUFFIX = (".to_csv", ".to_pickle", ".to_json", ".to_excel", ".to_hdf", ".to_parquet", ".savefig", ".write_text", ".write_bytes", ".mkdir", ".unlink", ".rmdir", ".touch", ".tofile", ".rename", ".hardlink_to", ".symlink_to")
SINKS = {
    "numpy.save", "numpy.savetxt", "numpy.savez", "numpy.savez_compressed", "numpy.memmap", "jax.numpy.save", "jax.numpy.savez", "os.remove", "os.unlink", "os.rmdir",
    "os.removedirs", "os.rename", "os.replace", "os.makedirs", "os.mkdir", "os.truncate", "os.symlink", "os.link", "os.system", "os.popen", "os.kill", "os.open", "os.chmod",
    "shutil.rmtree", "shutil.move", "shutil.copy", "shutil.copyfile", "shutil.copytree", "subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output",
    "subprocess.Popen", "subprocess.getoutput", "logging.FileHandler", "logging.handlers.RotatingFileHandler", "matplotlib.pyplot.savefig", "joblib.dump", "scipy.io.savemat",
    "tempfile.mkdtemp", "tempfile.mkstemp", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "urllib.request.urlopen", "urllib.request.urlretrieve", "requests.get", "requests.post", "socket.socket",
    "sqlite3.connect", "shelve.open", "pickle.dump#path",
}
FLAG_WORDS = ("save", "plot", "file", "write", "dump", "path", "log", "name", "out")
EXEMPT_MODULES = ("hvd.exact",)

FIXTURE = '''
import numpy as np
import pandas as pd
def asked(Y, save_population=False):
    if save_population:
        pd.DataFrame(Y).to_csv("Y.csv")
def named(Y, filename):
    with open(filename + ".txt", "w") as f:
        f.write(str(Y))
def unasked(Y, with_rsg=True):
    if with_rsg:
        np.savetxt("Y.csv", Y)
def inverted(Y, save_population=False):
    if not save_population:
        pd.DataFrame(Y).to_csv("Y.csv")
'''


def open_mode(e):
    kw = e.kwargs if isinstance(e.kwargs, dict) else dict(e.kwargs or ())
    m = kw.get("mode")
    if m is None and len(e.args) > 1:
        m = e.args[1]
    if m is None:
        return "r"
    return kval(m) if is_k(m) else "?"


def is_sink(e):
    if e.kind != "extcall":
        return False
    n = e.name
    if n in ("builtins.open", "io.open", "gzip.open", "bz2.open"):
        m = open_mode(e)
        return not isinstance(m, str) or any(c in m for c in "wax+?")
    return n in SINKS or n.endswith(SINK_SUFFIX)


def syms(t):
    return {kval(x.a[1]) for x in leaves_of(t) if x.tag == "op" and x.a[0] == "sym" and is_k(x.a[1]) and isinstance(kval(x.a[1]), str)}


def word(name):
    base = name.rsplit(".", 1)[-1].lower()
    return any(w in base for w in FLAG_WORDS)


def asked(e):
    """a condition on a purpose-made argument, with the polarity that means yes"""
    for g in e.guards:
        if isinstance(g[0], T):
            why = yes(g[0], g[1])
            if why:
                return why
    return None


def yes(c, pol):
    for f, p in conjuncts(c, pol):
        if f.tag == "phi" or f.tag == "op" and f.a[0] == ("or" if p else "and"):
            ws = [yes(x, p) for x in (f.a[0] if f.tag == "phi" else f.a[1:]) if isinstance(x, T)]
            if ws and all(ws):
                return ws[0]
            continue
        names = {s for s in syms(f) if word(s)}
        if not names:
            continue
        if f.tag == "op" and f.a[0] == "sym":
            if p:
                return sorted(names)[0]
        elif none_test(f, p):
            return sorted(names)[0]
    return None


def conjuncts(c, pol):
    if c.tag == "op" and c.a[0] in ("not", "invert"):
        yield from conjuncts(c.a[1], not pol)
        return
    if c.tag == "op" and c.a[0] == ("and" if pol else "or"):
        for x in c.a[1:]:
            if isinstance(x, T):
                yield from conjuncts(x, pol)
        return
    if c.tag == "op" and c.a[0] in ("bool", "truth") and len(c.a) == 2:
        yield from conjuncts(c.a[1], pol)
        return
    if c.tag == "op" and c.a[0] == "bin" and is_k(c.a[1]) and kval(c.a[1]) == ("BitAnd" if pol else "BitOr"):
        yield from conjuncts(c.a[2], pol)
        yield from conjuncts(c.a[3], pol)
        return
    yield c, pol


def none_test(f, p):
    """`x is not None` / `x is None` taken the other way / an iteration over a caller's file list"""
    if f.tag == "op" and f.a[0] == "iter":
        return True
    if f.tag == "op" and f.a[0] in ("cmp", "is", "isnot"):
        txt = [kval(a) for a in f.a[1:] if isinstance(a, T) and is_k(a)]
        has_none = any(x is None for x in txt)
        op = str(txt[0]) if txt and isinstance(txt[0], str) else f.a[0]
        if has_none:
            return p if op in ("IsNot", "isnot", "NotEq") else not p
        if True in txt or False in txt:
            v = True in txt
            return (p == v) if op in ("Is", "is", "Eq") else (p != v)
    return False


def named(e):
    """the path is built from a name the caller passed for it"""
    paths = list(e.argvals[:1]) if e.argvals else []
    for k, v in (e.kwvals or {}).items():
        if k in ("file", "fname", "path", "path_or_buf", "filename"):
            paths.append(v)
    for p in paths:
        ns = [s for s in syms(p) if word(s)]
        if ns:
            return ns[0]
    return None


def drawing(e):
    fns = list(e.stack) + ([e.fn] if e.fn else [])
    fns = [f for f in fns if f.name not in ("<entry>", "<module>")]
    return bool(fns) and fns[0].cls is None and fns[0].name.startswith("plot")


def judge(ctx, events):
    for e in events:
        if not is_sink(e):
            continue
        if e.fn is not None and e.fn.module in EXEMPT_MODULES:
            ctx.ob("exempt", f"{e.where} {e.name}")
            continue
        ctx.ob("write to the file system or a process start", f"{e.where} {e.name}")
        why = asked(e) or named(e)
        if why or drawing(e):
            ctx.ob("asked for by the caller", f"{e.where} {e.name}: {why or 'a drawing function'}")
            continue
        ctx.fail("unasked-write", f"{e.func}:{e.name}", f"`{e.name}` runs although no argument of the caller asks for it", e)


def visit(ctx, sc, s, ev):
    ctx.ob("entry point", sc.name)
    judge(ctx, ev)


def selftest(ctx):
    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    got = {}
    for f in ("asked", "named", "unasked", "inverted"):
        s = Session(w)
        fn = w.find_func(f)
        args = {"asked": ["Y", "save_population"], "named": ["Y", "filename"], "unasked": ["Y", "with_rsg"], "inverted": ["Y", "save_population"]}[f]
        s.call(fn, [s.param(a, "bool" if a.startswith(("save", "with")) else "str" if a == "filename" else "array") for a in args])
        sub = type(ctx)("C15", "quick", 1)
        judge(sub, s.take())
        got[f] = len(sub.findings)
    ctx.need(got == {"asked": 0, "named": 0, "unasked": 1, "inverted": 1}, f"self-test: {got}")
    ctx.selftests.append("an unconditional and an inverted write are reported; flagged and named writes are not")


def run(ctx):
    ctx.rule("every file-system/process effect is control-dependent on a purpose-made argument or writes to a caller-named path")
    entries.catalogue(ctx, visit)
    judge(ctx, [e for e in ctx.w.load_events if e.fn is not None and e.fn.name == "<module>"])
    ctx.at_least("entry point", 100)
    ctx.at_least("write to the file system or a process start", 5)
