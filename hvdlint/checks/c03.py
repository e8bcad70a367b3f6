"""Trial isolation: a line search evaluates candidates on copies; an iteration moves the population exactly once."""

from .. import entries, scen
from ..heap import reach, refs_in
from ..prov import peel, phis, row_base
from ..terms import K, Op, T, is_k, kval, leaves_of, show
from ..world import Session
from . import c21

EXPLANATION = (
    "One iteration of every optimizer is interpreted from a population that is a fresh symbol. The population record owned by "
    "the optimizer may be given new points exactly once, outside any loop, and by nothing but the current points plus the "
    "product of the recorded step and the recorded step size; no array reachable from it may be written in place meanwhile. "
    "Every other population record moved during the iteration (a trial) must hold one row-selection of the current points plus a "
    "single displacement whose direction is the same value in every trial, so no trial starts from an earlier trial and no trial "
    "changes the direction the next one uses."
)
ASSUMPTIONS = ["a value the abstract domain cannot express is counted as undetermined and raises no alarm"]


def aux_names(w, kind):
    """direction/step-size routines of an optimizer: methods whose result is used by the iteration (summarised as uninterpreted values)"""
    out = set()
    cls = w.find_class(kind)
    for m in sorted({n for c in cls.mro for n in c.ns}):
        n = m.lower()
        if any(k in n for k in ("line_search", "_step", "box", "check_p", "uniq", "shift")) and m.startswith("_"):
            out.add(f"{kind}.{m}")
    return out


def moves(s, events, live):
    """writes of the points of population records: (event, is live record, value)"""
    for e in events:
        if e.kind == "attrset" and e.attr == "X":
            for r in refs_in(e.base):
                c = s.st.heap.get(r.a[0])
                if r.a[0].cls is not None or c is not None:
                    yield e, r.a[0] in live, e.valnum


def addends(t):
    return list(t.a[1:]) if t.tag == "op" and t.a[0] == "add" else [t]


def is_base(t, X0):
    t = peel(t)
    if t is X0:
        return True
    if t.tag == "op" and t.a[0] == "mark":
        return is_base(t.a[2], X0)
    return t.tag == "op" and t.a[0] == "sub" and is_base(t.a[1], X0)


def strip_shape(t):
    while True:
        t = peel(t)
        if t.tag == "op" and t.a[0] in ("reshape", "transpose", "copy"):
            t = t.a[1]
            continue
        if t.tag == "op" and t.a[0] == "sub" and len(t.a) == 3 and t.a[2].tag in ("tup", "op", "sl") and "None" in show(t.a[2], 80):
            t = t.a[1]
            continue
        return t


def factors(t):
    """(sign, constants, factor values) of a product"""
    sign, consts, fs = 1, [], []

    def go(x):
        nonlocal sign
        x = strip_shape(x)
        if x.tag == "op" and x.a[0] == "neg":
            sign = -sign
            go(x.a[1])
        elif x.tag == "op" and x.a[0] == "mul":
            for y in x.a[1:]:
                go(y)
        elif is_k(x):
            consts.append(kval(x))
        else:
            fs.append(x)

    go(t)
    return sign, consts, fs


def final_move(ctx, kind, variant):
    w = ctx.w
    s = ctx.session(f"{kind}[{variant}] final move", entries.indicator_methods(w) | aux_names(w, kind) | {"backtracking_line_search", "non_domin_sort"})
    o = scen.optimizer(s, kind, variant)
    s.method(s.get(o, "state"), "update", [s.param("Xcur", "array")])
    X0 = s.val(s.get(s.get(o, "state"), "X"))
    s.take()
    s.method(o, scen.step_method(w, w.find_class(kind)))
    X1 = s.val(s.get(s.get(o, "state"), "X"))
    step, ss = s.val(s.get(o, "step")), s.val(s.get(o, "step_size"))
    where = f"{kind}.{scen.step_method(w, w.find_class(kind))}"
    ctx.ob("final move", f"{kind}[{variant}]: {show(X1, 160)}")
    if X1 is X0:
        ctx.fail("no-move", f"{kind}", "an iteration leaves the population where it was", where=where)
        return
    if X1.tag != "op":
        ctx.ob("undetermined final move", f"{kind}")
        return
    ad = addends(X1)
    base = [a for a in ad if is_base(a, X0)]
    rest = [a for a in ad if not is_base(a, X0)]
    if len(base) != 1:
        if any(strip_shape(a).tag == "top" for a in ad):
            ctx.ob("undetermined final move", f"{kind}")
            return
        ctx.fail("wrong-move", f"{kind}:base", f"the new points are not the current points plus a displacement: {show(X1, 200)}", where=where)
        return
    if len(rest) != 1:
        ctx.fail("wrong-move", f"{kind}:displacement", f"the displacement is not one product of the step and the step size: {[show(r, 80) for r in rest]}", where=where)
        return
    sign, consts, fs = factors(rest[0])
    if any(f.tag == "top" for f in fs):
        ctx.ob("undetermined final move", f"{kind}")
        return
    if sign < 0 or any(c != 1 for c in consts):
        ctx.fail("wrong-move", f"{kind}:scale", f"the displacement has an extra factor ({'-' if sign < 0 else ''}{consts}): {show(rest[0], 160)}", where=where)
    for name, v in (("step", step), ("step_size", ss)):
        if v.tag == "top":
            continue
        want = strip_shape(v)
        if is_k(want) and kval(want) == 1:
            continue
        if not any(f is want or want in phis(f) or f in phis(want) for f in fs):
            ctx.fail("wrong-move", f"{kind}:{name}", f"the displacement does not contain the recorded `{name}`: {show(rest[0], 160)}", where=where)
        else:
            ctx.ob("recorded factor used by the move", f"{kind}: {name}")


def unmark(t):
    while t.tag == "op" and t.a[0] == "mark":
        t = peel(t.a[2])
    return t


def trials(ctx, kind, variant, method=None):
    ctx.w.interp.mark_attr = ("State", "X")
    try:
        _trials(ctx, kind, variant, method)
    finally:
        ctx.w.interp.mark_attr = None


def _trials(ctx, kind, variant, method=None):
    """effects of a whole iteration (nothing but the indicators summarised), then the values of trial points"""
    w = ctx.w
    for mode in ("effects", "values"):
        op = entries.indicator_methods(w) | {"non_domin_sort"}
        if mode == "values":
            op |= {n for n in aux_names(w, kind) if "line_search" not in n}
        if method and mode == "values":
            continue
        s = ctx.session(f"{kind}[{variant}] {method or 'iteration'}: {mode}", op)
        o = scen.optimizer(s, kind, variant)
        s.method(s.get(o, "state"), "update", [s.param("Xcur", "array")])
        X0 = unmark(s.val(s.get(s.get(o, "state"), "X")))
        start = {r.a[0] for r in refs_in(s.get(o, "state"))}
        before = reach(s, [("state", s.get(o, "state"))])
        own = arrays_of(s, start)
        s.take()
        if method:
            s.method(o, method, [s.param("step", "array"), s.param("R", "array")])
        else:
            s.method(o, scen.step_method(w, w.find_class(kind)))
        ev = s.take()
        live = {r.a[0] for r in refs_in(s.get(o, "state"))}
        n_live = 0
        first_dir = {}
        fresh = {r.a[0] for e in ev if e.kind == "clone" for r in refs_in(e.dst)}
        slices = set()
        for e in ev:
            if e.kind == "store":
                if e.loc in own and e.loc is not None:
                    if any(f.name in ("update",) and f.cls is not None for f in e.stack[-1:]):
                        continue
                    ctx.fail("live-array-written", f"{kind}:{own[e.loc]}", f"`{own[e.loc]}` of the optimizer's population is written in place during the iteration ({e.how})", e)
                else:
                    ctx.ob("store during an iteration checked")
            if e.kind == "attrset" and e.attr == "X":
                locs = {r.a[0] for r in refs_in(e.base)}
                getitem = e.stack and e.stack[-1].name == "__getitem__" or e.func.endswith("__getitem__")
                if getitem:
                    slices |= locs
                    ctx.ob("row selection", f"{kind}")
                    continue
                if locs & (live | start):
                    if method:
                        ctx.fail("live-moved-by-search", f"{kind}", f"the line search moves the optimizer's own population", e)
                        continue
                    n_live += 1
                    in_loop = e.loop if isinstance(e.loop, int) else len(e.loop or ())
                    ctx.ob("move of the optimizer's population", f"{kind} at {e.where}")
                    if in_loop or n_live > 1:
                        ctx.fail("live-moved-twice", f"{kind}", "the optimizer's population is moved more than once in an iteration" + (" (inside a loop)" if in_loop else ""), e)
                    continue
                ctx.ob("trial move", f"{kind} at {e.where}")
                trial_value(ctx, kind, e, e.valnum, X0, first_dir)
            if e.kind == "store" and e.loc not in own:
                # row move of a trial
                pass
        if mode == "effects" and not method and n_live == 0:
            ctx.fail("no-move", f"{kind}", "no iteration path gives the population new points", where=kind)
        for e in ev:
            if e.kind == "enter" and e.callee.name == "update_one":
                x = e.bound.get("x")
                if x is None:
                    continue
                ctx.ob("trial row move", f"{kind}")
                trial_value(ctx, kind, e, s.val(x), X0, first_dir)
                me = e.bound.get("self")
                if me is not None and {r.a[0] for r in refs_in(me)} & (live | start):
                    ctx.fail("live-moved-by-search", f"{kind}", "a trial replaces a point of the optimizer's own population", e)


def arrays_of(s, locs):
    out = {}
    for l in locs:
        c = s.st.heap.get(l)
        for k, v in (c.f or {}).items() if c is not None else ():
            for r in refs_in(v):
                cc = s.st.heap.get(r.a[0])
                if cc is not None and cc.kind not in ("fn", "cls"):
                    out[r.a[0]] = str(k)
    return out


def trial_value(ctx, kind, e, val, X0, first_dir):
    for t in phis(val):
        ad = addends(t)
        if any(a.tag == "top" for a in ad) and not any(is_base(a, X0) for a in ad):
            ctx.ob("undetermined trial", f"{kind}")
            continue
        base = [a for a in ad if is_base(a, X0)]
        rest = [a for a in ad if not is_base(a, X0)]
        if t.tag == "top":
            ctx.ob("undetermined trial", f"{kind}")
            continue
        ctx.ob("trial value", f"{kind}: {show(t, 140)}")
        if len(base) != 1:
            if base or not any(has_sub(a) for a in ad):
                ctx.fail("trial-base", f"{kind}", f"a trial point is not the current point plus a displacement: {show(t, 160)}", e)
            continue
        if len(rest) > 1:
            ctx.fail("trial-accumulates", f"{kind}", f"a trial point accumulates several displacements: {[show(r, 60) for r in rest]}", e)


class Matching(c21.Run):
    """an iteration whose trials evaluate the real indicator: what they leave behind in the reference set"""

    def __init__(self, ctx, kind, n):
        self.before, self.after, self.root, self.real = None, None, None, 0
        super().__init__(ctx, kind, n, "half", 2)

    def extra_stubs(self, names):
        self.names = names
        return {m: self.indicator(m) for m in names if m.endswith(".compute_derivatives")}

    def prepare(self, o):
        s = self.s
        self.root = s.get(o, "ref")
        cls = self.root.a[0].cls if self.root.tag == "ref" else None
        if cls is None or cls.lookup("match")[0] is None:
            self.root = None
            return
        s.method(self.root, "match", [s.get(self.live, "Y")])

    def indicator(self, qual):
        def stub(a, k, n, st):
            I = self.I
            got = self.residual(a, k, n, st)
            fo = a[0].a[0].cls.lookup("compute_derivatives")[0] if a and a[0].tag == "ref" and a[0].a[0].cls is not None else None
            if fo is None or not self.trials or self.root is None:
                return got
            saved = I.stubs, I.oracle, I.opaque
            I.stubs, I.oracle, I.opaque = {q: f for q, f in I.stubs.items() if q != qual}, None, I.opaque - self.names
            try:
                I.call(fo, list(a), dict(k), n, st, self.s.fr)
                self.real += 1
            finally:
                I.stubs, I.oracle, I.opaque = saved
            return got

        return stub

    def on_update(self, st, final):
        if self.root is None:
            return
        if self.before is None:
            self.before = self.shot(st)
        if final:
            self.after = self.shot(st)

    def shot(self, st):
        """every cell reachable from the reference set -> its content"""
        out, work, I = {}, [(self.root, "ref")], self.I
        while work:
            r, path = work.pop()
            loc = r.a[0]
            c = st.heap.get(loc)
            if loc in out or c is None:
                continue
            out[loc] = (path, dict(c.f) if c.f else {}, c.items, c.star, I.val(r, st))
            for q, x in (c.f or {}).items():
                work += [(y, f"{path}.{q if isinstance(q, str) else '[..]'}") for y in refs_in(x)]
            for x in tuple(c.items or ()) + ((c.star,) if c.star is not None else ()):
                work += [(y, f"{path}[..]") for y in refs_in(x)]
        return out


def matching(ctx, kind):
    for n in (0, 1):
        r = Matching(ctx, kind, n)
        if r.root is None or r.before is None or r.after is None or not r.real:
            ctx.ob("matching not applicable", kind)
            return
        ctx.ob("trial residuals evaluated with the real indicator", f"{kind}: {r.real} evaluations, {len(r.before)} cells of the reference set compared")
        bad = set()
        for loc, (path, f, items, star, val) in r.before.items():
            now = r.after.get(loc)
            if now is None:
                continue
            for q in set(f) | set(now[1]):
                ctx.ob("field of the reference set compared across the trials")
                if f.get(q) is not now[1].get(q) and f.get(q) != now[1].get(q):
                    bad.add(f"{path}.{q}" if isinstance(q, str) else path)
            if val is not now[4] or items != now[2] or star is not now[3]:
                bad.add(path)
        top = sorted({".".join(b.split(".")[:2]) for b in bad})
        for b in top:
            ctx.fail("trial-changes-matching", f"{kind}:{b}", f"evaluating trial points of the line search changes `{b}` of the live reference set", where=kind)


def has_sub(t):
    return t.tag == "op" and t.a[0] in ("sub", "upd")


FIXTURE = '''
import numpy as np
from copy import copy, deepcopy
class State:
    def __init__(self, n_var):
        self.n_var = n_var
    def update(self, X):
        self.X = np.asarray(X).copy()
    def update_one(self, x, k):
        self.X[k] = x
class A:
    def __init__(self, X0):
        self.state = State(2)
        self.state.update(X0)
    def search(self, step, R):
        st = copy(self.state)
        st.update_one(st.X[0] + step, 0)
        t = deepcopy(self.state)
        for a in (1.0, 0.5):
            t.update(t.X + a * step)
'''


def selftest(ctx):
    from ..framework import Ctx

    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    c = Ctx(ctx.prop)
    s = Session(w)
    w.interp.mark_attr = ("State", "X")
    o = s.new("A", [s.param("Xcur", "array")])
    s.take()
    X0 = unmark(s.val(s.get(s.get(o, "state"), "X")))
    own = arrays_of(s, {r.a[0] for r in refs_in(s.get(o, "state"))})
    s.method(o, "search", [s.param("step", "array"), s.param("R", "array")])
    bad = set()
    for e in s.take():
        if e.kind == "store" and e.loc in own:
            bad.add("live-array-written")
        if e.kind == "attrset" and e.attr == "X":
            trial_value(c, "A", e, e.valnum, X0, {})
    bad |= {f.rule for f in c.findings.values()}
    ctx.need(bad == {"live-array-written", "trial-base"}, f"self-test: {bad}")
    ctx.selftests.append("a shallow-copied trial and an accumulating trial are reported")


def run(ctx):
    ctx.rule("the trials of a line search leave the matching of the reference set as it was")
    ctx.rule("the optimizer's population is moved once per iteration, outside loops, to current + step * step_size; trials move fresh copies to rows of current + one displacement")
    jobs = []
    for k in scen.OPTIMIZERS:
        for v in ("full", "bare") + (("eq", "ieq") if ctx.thorough else ()):
            jobs += [("final", k, v), ("trial", k, v)]
    for k in scen.OPTIMIZERS:
        cls = ctx.w.find_class(k)
        for m in sorted({n for c in cls.mro for n in c.ns}):
            if "line_search" in m:
                jobs.append(("method", k, m))
    jobs += [("matching", k, "bare") for k in c21.NEWTON]

    def job(c, j):
        if j[0] == "matching":
            matching(c, j[1])
            return
        if j[0] == "final":
            final_move(c, j[1], j[2])
        elif j[0] == "trial":
            trials(c, j[1], j[2])
        else:
            trials(c, j[1], "full", j[2])

    ctx.parallel(jobs, job, weight=lambda j: (5 if j[1] == "DpN" else 3) if j[0] == "trial" else 1)
    ctx.at_least("final move", 8)
    ctx.at_least("move of the optimizer's population", 8)
    ctx.at_least("trial move", 10)
    ctx.at_least("trial row move", 5)
