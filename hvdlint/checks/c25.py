"""Observation options do not steer the run."""

import ast

from .. import scen
from ..canon import Canon
from ..terms import K, T
from ..world import Session

EXPLANATION = (
    "Each optimizer is interpreted twice over the same symbolic inputs, once with every observation option off and once with one of them "
    "on (verbosity, performance metrics); the reference set and the bootstrap driver likewise with plotting and saving. The complete resulting object graph (population, states, multipliers, counters, histories, "
    "indicator, stop records) is brought into a canonical form independent of the run, and the calls made to the caller's functions are "
    "listed; the two runs must agree everywhere except in the option itself and the metric records. The interpreter follows all paths of "
    "both runs, so the comparison covers every path, not one execution."
)
ASSUMPTIONS = [
    "the logger object and metric objects of the caller do not modify the optimizer",
    "two values with the same term are the same value; values beyond the interpreter's precision compare equal when their inputs do",
]

# public names of what an option is allowed to change
RECORDS = {"verbose", "logger", "metrics", "history_metrics", "plot"}

FIXTURE = '''
class A:
    def __init__(self, X, func, verbose=False, metrics=None):
        self.X = X.copy()
        self.func = func
        self.verbose = verbose
        self.metrics = metrics or dict()
        self.history = []
    def good(self):
        Y = self.func(self.X)
        if self.verbose:
            print(Y)
        self.X = self.X + Y
        self.history.append(Y)
    def steered(self):
        step = self.func(self.X)
        if self.verbose:
            step = 0.5 * step
        self.X = self.X + step
    def gated(self):
        Y = self.func(self.X)
        if self.verbose:
            self.history.append(Y)
    def spent(self):
        if self.verbose:
            print(self.func(self.X))
'''


def summary(s, o, ev):
    c = Canon(s, [o], RECORDS)
    f = s.fields(o)
    return {k: c.c(v) for k, v in f.items() if k not in RECORDS}, f


def callbacks(ev):
    out = {}
    for e in ev:
        if e.kind == "callback" and "\u22a4" not in str(e.label):
            k = (str(e.label), e.where)
            out.setdefault(k, e)
    return out


def compare(ctx, what, a, b, ea, eb):
    ka, _ = a
    kb, _ = b
    ctx.ob("pair of runs compared", what)
    for k in sorted(set(ka) | set(kb)):
        ctx.ob("attribute of the run compared", f"{what}: {k}")
        if ka.get(k) != kb.get(k):
            if (k in ka) != (k in kb):
                msg = f"attribute `{k}` exists only with the option {'off' if k in ka else 'on'}"
            else:
                msg = f"the contents of `{k}` depend on the option"
            ctx.fail("option-steers-run", f"{what.split(' ')[0]}.{k}:{what.split(' ')[-1]}", f"{what}: {msg}", where=what.split(" ")[0])
    ca, cb = callbacks(ea), callbacks(eb)
    for k in sorted(set(ca) ^ set(cb), key=str):
        e = ca.get(k) or cb.get(k)
        ctx.ob("call of a caller's function compared", f"{what}: {k[0]} at {k[1]}")
        ctx.fail("option-steers-calls", f"{e.func}:{k[0]}:{what.split(' ')[-1]}", f"{what}: `{k[0]}` is called here only with the option {'off' if k in ca else 'on'}", e)
    ctx.ob("call of a caller's function compared", what, n=len(set(ca) & set(cb)) or 1)


def one(ctx, kind, tag, over, variant, rounds):
    s = ctx.session(f"{kind} {variant} {tag}")
    ov = {}
    if "verbose" in over:
        ov["verbose"] = K(over["verbose"])
    leave = ()
    if over.get("metrics"):
        ov["metrics"] = s.param("metrics", "dict")
    elif "metrics" in over:
        leave = ("metrics",)  # its default: none
    o = scen.optimizer(s, kind, variant, ov, leave)
    scen.drive(s, o, kind, rounds)
    ev = s.take()
    return summary(s, o, ev), ev


def job(ctx, j):
    kind, variant, rounds = j
    names = {p.arg for p in scen.params_of(scen.ctor_of(ctx.w.find_class(kind)))}
    off = {}
    if "verbose" in names:
        off["verbose"] = False
    if "metrics" in names:
        off["metrics"] = False
    a, ea = one(ctx, kind, "off", off, variant, rounds)
    for opt in sorted(off):
        b, eb = one(ctx, kind, opt, dict(off, **{opt: True}), variant, rounds)
        if opt == "metrics":  # the metrics' own evaluation is the option's purpose
            eb = [e for e in eb if not (e.kind == "callback" and "metric" in str(e.label))]
        compare(ctx, f"{kind} [{variant}] {opt}", a, b, ea, eb)


def whole(s, values, ev):
    c = Canon(s, values, RECORDS)
    return {f"value {i}" if i else "object": c.c(v) for i, v in enumerate(values)}, None


def ref_job(ctx, variant):
    cls = ctx.w.find_class("ReferenceSet")
    fo = scen.ctor_of(cls)
    ctx.need("plot" in {p.arg for p in scen.params_of(fo)}, "the plotting option of ReferenceSet has vanished")
    r = []
    for v in (False, True):
        s = ctx.session(f"ReferenceSet {variant} plot={v}")
        ref = s.param("refset", "array" if variant == "array" else "dict")
        o = s.new(cls, [], scen.args_for(s, fo, over={"ref": ref, "eta": s.param("eta", "dict"), "plot": K(v)}))
        for m, a in (("match", [s.param("Y", "array")]), ("shift", [s.param("c", "float"), s.param("indices", "array")]), ("match", [s.param("Y2", "array")])):
            if s.has(o, m):
                s.method(o, m, a)
        ev = s.take()
        r.append((summary(s, o, ev), ev))
    compare(ctx, f"ReferenceSet [{variant}] plot", r[0][0], r[1][0], r[0][1], r[1][1])


def boot_job(ctx, _):
    f = ctx.w.find_func("bootstrap_reference_set")
    fo = f.a[0]
    names = [p.arg for p in scen.params_of(fo, skip_self=False)]
    flags = [n for n in ("plot", "save_reference_set", "save_population") if n in names]
    ctx.need(len(flags) == 3, f"observation options of the bootstrap driver: {flags}")

    cls = ctx.w.find_class("MMDNewton")
    rounds = {cls.lookup(m)[0].a[0].qual for m in (scen.step_method(ctx.w, cls), "log")}  # compared on their own above

    def go(on):
        s = ctx.session(f"bootstrap {on}", rounds)
        opt = scen.optimizer(s, "MMDNewton", "full")
        over = {"optimizer": opt, "problem": s.param("problem", "object")}
        for n in flags:
            over[n] = K(n == on)
        out = s.call(f, [], scen.args_for(s, fo, over=over))
        ev = s.take()
        return whole(s, [opt, out], ev), ev

    a, ea = go(None)
    for n in flags:
        b, eb = go(n)
        compare(ctx, f"bootstrap_reference_set [full] {n}", a, b, ea, eb)


def dispatch(ctx, j):
    return {"opt": job, "ref": ref_job, "boot": boot_job}[j[0]](ctx, j[1])


def selftest(ctx):
    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    got = {}
    for m in ("good", "steered", "gated", "spent"):
        r = []
        for v in (False, True):
            s = Session(w)
            o = s.new("A", [s.param("X", "array"), s.param("func", "callable")], {"verbose": K(v)})
            s.method(o, m)
            ev = s.take()
            r.append((summary(s, o, ev), ev))
        sub = type(ctx)("C25", "quick", 1)
        compare(sub, "A verbose", r[0][0], r[1][0], r[0][1], r[1][1])
        got[m] = len(sub.findings)
    ctx.need(got == {"good": 0, "steered": 1, "gated": 1, "spent": 1}, f"self-test: {got}")
    ctx.selftests.append("a step, a history and an evaluation that depend on verbosity are reported; printing is not")


def run(ctx):
    ctx.rule("runs that differ in an observation option only leave the same object graph and make the same calls")
    jobs = []
    for kind in scen.OPTIMIZERS:
        ctx.w.find_class(kind)
        for variant in ("full", "bare", "eq", "ieq") if ctx.thorough else ("full", "bare"):
            jobs.append(("opt", (kind, variant, 2 if ctx.thorough else 1)))
    jobs += [("ref", "array"), ("ref", "dict"), ("boot", None)]
    ctx.parallel(jobs, dispatch)
    ctx.at_least("pair of runs compared", 20)
    ctx.at_least("attribute of the run compared", 150)
