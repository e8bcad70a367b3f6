"""Reproducibility: where randomness, clocks and process identity may enter, and that they never reach a result."""

import ast

from .. import entries, scen
from ..heap import reach
from ..terms import CLOCK, RANDOM, K, T, is_k, kval, leaves_of, show, source_of
from ..world import Session

EXPLANATION = (
    "Source/sink (taint) analysis. Every external call that draws randomness or reads a clock, the process or the environment is a "
    "source. Decided over every public entry point: (1) only NumPy's global generator is ever drawn from, it is never reseeded or "
    "replaced, and randomised estimators get a fixed seed; (2) optimizer iterations, indicators, population records, target matching, "
    "problem evaluations and utilities contain no draw; (3) with a starting population supplied, nothing drawn at construction reaches "
    "the optimizer's data; (4) no clock, process or environment value reaches a returned value or the data of an optimizer."
)
ASSUMPTIONS = [
    "the functions NumPy, SciPy and JAX offer outside their random modules are deterministic",
    "the number of values a constraint callback returns does not depend on the point it is probed at",
]

RESEED = {"numpy.random.seed", "numpy.random.set_state", "numpy.random.set_bit_generator", "random.seed", "random.setstate"}
PRIVATE = ("random.", "secrets.", "uuid.", "os.urandom", "os.getrandom", "numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "numpy.random.PCG", "numpy.random.MT19937", "numpy.random.SeedSequence", "scipy.stats.qmc.")
RANDOMISED = {"KMedoids", "KMeans", "MiniBatchKMeans", "CLARA", "SpectralClustering", "GaussianMixture", "train_test_split", "TSNE", "RandomForestRegressor", "differential_evolution", "dual_annealing", "kmeans2", "shuffle", "resample"}
SEED_ARGS = ("random_state", "seed", "rng")
SAMPLERS = ("get_pareto_front", "get_pareto_set")
RANDOM_MODULES = ("hvd.moea.",)

FIXTURE = '''
import time
import numpy as np
class Opt:
    def __init__(self, n, x0=None):
        self.X = np.random.rand(n) if x0 is None else x0
        self.t = 0
    def good(self, Y):
        t0 = time.time()
        out = Y * 2
        self.t += time.time() - t0
        return out
    def bad(self, Y):
        return Y + 1e-9 * np.random.rand(len(Y))
    def ugly(self, Y):
        return Y * (time.time() > 0)
'''


def is_draw(e):
    return e.kind == "extcall" and source_of(e.name) == RANDOM


def fixed_seed(v):
    """a seed that is the same in every run: a constant other than None, or the caller's value"""
    if v is None:
        return False
    if is_k(v):
        return kval(v) is not None
    lv = {kval(x.a[1]) for x in leaves_of(v) if x.tag == "op" and x.a[0] == "sym" and is_k(x.a[1])}
    return not (lv & {RANDOM, CLOCK})


def seed_of(e):
    kw = e.kwargs if isinstance(e.kwargs, dict) else dict(e.kwargs or ())
    for a in SEED_ARGS:
        if a in kw:
            return kw[a]
    return None


def generators(ctx, events):
    """who may draw: only the global NumPy generator, never reseeded"""
    for e in events:
        if e.kind != "extcall":
            continue
        short = e.name.rsplit(".", 1)[-1]
        if e.name in RESEED:
            ctx.fail("reseed", f"{e.func}:{e.name}", f"`{e.name}` resets a global generator the caller may have seeded", e)
        elif e.name.startswith(PRIVATE):
            seeded = e.name.startswith(("numpy.random.", "random.Random")) and e.args and fixed_seed(e.args[0])
            ctx.ob("private generator", f"{e.where} {e.name}")
            if not seeded and not (e.name.startswith("numpy.random.") and fixed_seed(seed_of(e))):
                ctx.fail("private-generator", f"{e.func}:{e.name}", f"`{e.name}` draws from a source other than NumPy's global generator", e)
        elif short in RANDOMISED and e.name.split(".")[0] in ("sklearn", "sklearn_extra", "scipy"):
            ctx.ob("randomised estimator", f"{e.where} {short}")
            kw = e.kwargs if isinstance(e.kwargs, dict) else dict(e.kwargs or ())
            init = kw.get("init")
            if init is not None and is_k(init) and kval(init) in ("heuristic", "build"):
                continue
            if not fixed_seed(seed_of(e)):
                ctx.fail("unseeded-estimator", f"{e.func}:{short}", f"`{short}` is used without a fixed random state", e)
        elif is_draw(e):
            ctx.ob("draw from the global generator", f"{e.where} {e.name} in {e.func}")


EFFECTS = ("store", "attrset", "callback", "enter", "raise", "global_store")


def clock_branches(ctx, events):
    """no effect of the library hangs on a test of a clock, the process or the environment"""
    for e in events:
        if e.kind not in EFFECTS:
            continue
        for g in e.guards:
            c = g[0]
            if isinstance(c, T) and any(kval(x.a[1]) == CLOCK for x in depends(c)):
                ctx.fail("clock-branch", f"{e.func}", f"what happens here depends on a clock, the process or the environment: {show(c, 100)}", e)
                break


def may_draw(ctx, sc, e):
    """a draw belongs to sampling a Pareto set/front or to the stochastic evolutionary operators"""
    fns = list(e.stack) + ([e.fn] if e.fn else [])
    if any(f.name in SAMPLERS for f in fns):
        return True
    return any(f.module.startswith(RANDOM_MODULES) for f in fns)


def taint(s, roots, skip=()):
    """(access path, source) of every reachable value that depends on a source"""
    out = []
    seen = reach(s, roots, skip)

    def check(path, v):
        if not isinstance(v, T) or v.tag in ("ref", "fn", "cls", "bound"):
            return
        for x in depends(v):
            if kval(x.a[1]) in (RANDOM, CLOCK):
                out.append((path, kval(x.a[1]), v))

    for p, v in roots:
        check(p, v)
    for loc, p in seen.items():
        c = s.st.heap.get(loc)
        if c is None:
            continue
        if c.val is not None:
            check(p, c.val)
        for k, v in (c.f or {}).items():
            check(f"{p}.{k}", v)
        for v in c.items or ():
            check(p + "[..]", v)
        if c.star is not None:
            check(p + "[..]", c.star)
    return out


def depends(t):
    """source symbols a value depends on other than through lengths and shapes"""
    found = set()
    seen = set()

    def go(x):
        if isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)
            return
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        if not any(y.tag == "op" and y.a[0] == "sym" and kval(y.a[1]) in (RANDOM, CLOCK) for y in leaves_of(x)):
            return
        if x.tag == "op" and x.a[0] in ("len", "isinstance", "type"):
            return
        if x.tag == "op" and x.a[0] == "attr" and len(x.a) > 2 and is_k(x.a[2]) and kval(x.a[2]) in ("shape", "ndim", "size", "dtype"):
            return
        if x.tag == "op" and x.a[0] == "call" and x.a[1].tag == "ext" and (x.a[1].a[0] in ("builtins.len", "builtins.isinstance", "numpy.shape", "numpy.ndim", "numpy.size")):
            return
        if x.tag == "op" and x.a[0] == "call" and x.a[1].tag == "ext" and source_of(x.a[1].a[0]):
            found.add(mk_sym(source_of(x.a[1].a[0])))
        if x.tag == "op" and x.a[0] == "rng":
            found.add(mk_sym(RANDOM))
        if x.tag == "top":
            found.update(y for y in x.a[0] if y.tag == "op" and y.a[0] == "sym" and kval(y.a[1]) in (RANDOM, CLOCK))
        if x.tag == "ref":
            return
        for y in x.a:
            go(y)

    go(t)
    return found


def mk_sym(n):
    from ..terms import Op

    return Op("sym", K(n))


def timing_only(ctx):
    """attributes that only ever accumulate: stored or augmented, never read as a value of anything else"""
    if "timing" in ctx.extra:
        return set(ctx.extra["timing"])
    reads, writes = set(), set()
    for m, tree in ctx.w.modules.items():
        aug = {id(n.target) for n in ast.walk(tree) if isinstance(n, ast.AugAssign)}
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute):
                (reads if isinstance(n.ctx, ast.Load) else writes).add(n.attr)
    return writes - reads


def visit(ctx, sc, s, ev):
    ctx.ob("entry point", sc.name)
    generators(ctx, ev)
    clock_branches(ctx, ev)
    opt = sc.name.split("[")[0] in scen.OPTIMIZERS
    if opt or sc.name == "bootstrap":
        return  # judged phase by phase in `optimizers`
    for e in ev:
        if is_draw(e) and not may_draw(ctx, sc, e):
            ctx.fail("unexpected-draw", f"{e.func}:{e.name}", f"`{e.name}` makes the result of a deterministic operation random", e)
    skip_rand = sc.name.startswith("problem") or "moea" in sc.name or "MonteCarlo" in sc.name
    for f, r in s.results:
        name = show(f, 80)
        ctx.ob("returned value", f"{sc.name}: {name}")
        for path, src, v in taint(s, [("result", r)]):
            leaf = path.rsplit(".", 1)[-1]
            if src == RANDOM and (skip_rand or any(x in name for x in SAMPLERS)):
                continue
            if leaf in timing_only(ctx):
                continue
            ctx.fail("tainted-result", f"{name}:{path}:{src}", f"{path} of {name} depends on {'a random draw' if src == RANDOM else 'a clock, the process or the environment'}: {show(v, 100)}", where=sc.name)


def optimizer(ctx, kind, variant):
    w = ctx.w
    s = ctx.session(f"{kind}[{variant}]", entries.indicator_methods(w))
    o = scen.optimizer(s, kind, variant)
    ev = s.take()
    generators(ctx, ev)
    # construction
    roots = [("self", o)]
    for path, src, v in taint(s, roots):
        leaf = path.rsplit(".", 1)[-1]
        if leaf in timing_only(ctx) or "logger" in path:
            continue
        if src == CLOCK:
            ctx.fail("tainted-result", f"{kind}:{path}:{src}", f"{path} of {kind} depends on a clock, the process or the environment: {show(v, 100)}", where=f"{kind}.__init__")
        elif variant != "bare":
            ctx.fail("random-start", f"{kind}:{path}", f"with a starting population supplied, {path} still depends on a random draw: {show(v, 100)}", where=f"{kind}.__init__")
    ctx.ob("data of a constructed optimizer", f"{kind}[{variant}]")
    x = s.val(s.get(s.get(o, "state"), "X"))
    rnd = {kval(y.a[1]) for y in leaves_of(x) if y.tag == "op" and y.a[0] == "sym"}
    if variant == "bare":
        ctx.ob("sampled start", f"{kind}: {show(x, 80)}")
    # iterations
    s.method(s.get(o, "state"), "update", [s.param("Xcur", "array")])
    s.take()
    for _ in range(2):
        s.method(o, scen.step_method(w, w.find_class(kind)))
        s.method(o, "log")
        s.method(o, "terminate")
    ev = s.take()
    generators(ctx, ev)
    for e in ev:
        if e.kind == "enter":
            ctx.ob("function of an iteration", f"{e.callee.qual}")
        if is_draw(e):
            ctx.fail("unexpected-draw", f"{e.func}:{e.name}", f"an iteration of {kind} draws from `{e.name}`", e)
    for path, src, v in taint(s, [("self.state", s.get(o, "state")), ("self.step", s.get(o, "step"))]):
        if src == CLOCK and path.rsplit(".", 1)[-1] not in timing_only(ctx):
            ctx.fail("tainted-result", f"{kind}:{path}:{src}", f"{path} of {kind} depends on a clock, the process or the environment after an iteration", where=f"{kind}")


def selftest(ctx):
    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    s = Session(w)
    o = s.new("Opt", [s.param("n", "int")])
    got = {}
    for m in ("good", "bad", "ugly"):
        r = s.method(o, m, [s.param("Y")])
        got[m] = {x for _, x, _ in taint(s, [("r", r)])}
    ctx.need(got == {"good": set(), "bad": {RANDOM}, "ugly": {CLOCK}}, f"self-test: {got}")
    ctx.selftests.append("random jitter and clock dependence are found in results; timing that is only accumulated is not")


def run(ctx):
    ctx.rule("only NumPy's global generator is drawn from, never reseeded; no draw outside sampling; no clock/process/environment value in results")
    # functions handed to external constructors at import are analysed as if called: only module-level code counts here
    load = [e for e in ctx.w.load_events if e.fn is not None and e.fn.name == "<module>"]
    generators(ctx, load)
    for e in load:
        if is_draw(e):
            ctx.fail("import-draw", f"{e.func}:{e.name}", f"`{e.name}` at import", e)
    entries.catalogue(ctx, visit)
    ctx.parallel([(k, v) for k in scen.OPTIMIZERS for v in ("full", "bare")], lambda c, j: optimizer(c, *j))
    ctx.at_least("entry point", 100)
    ctx.at_least("returned value", 300)
    ctx.at_least("draw from the global generator", 8)
    ctx.at_least("function of an iteration", 40)
    ctx.at_least("data of a constructed optimizer", 8)
