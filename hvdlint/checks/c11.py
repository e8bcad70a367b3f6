"""Iteration budget: run() stops after exactly max_iters iterations, counts them and records one entry per iteration."""

from .. import entries, scen
from ..heap import refs_in
from ..models import nbin
from ..terms import leaves_of, K, T, is_k, kval, show
from ..world import Session

EXPLANATION = (
    "Each optimizer is constructed abstractly with a concrete iteration budget K and driven symbolically: the termination test must "
    "constant-fold to false for the first K rounds and to true afterwards, the iteration counter must grow by exactly one per round and "
    "every recorded history that grows unconditionally must grow by exactly one entry per round. The public run loop is interpreted with "
    "its three phases summarised: per round it must test termination, then iterate, then log, each exactly once, and return the current "
    "points, objective values and the stop record."
)
ASSUMPTIONS = ["the phases of one round are the iteration method, log() and terminate()"]


def size(s, v):
    """length of a list; None: not a list the analysis knows; "?": differs between paths or is not bounded"""
    out = set()
    for r in refs_in(v):
        c = s.st.heap.get(r.a[0])
        if c is not None and c.kind == "list":
            out.add(len(c.items or ()) if c.star is None else "?")
    return None if not out else out.pop() if len(out) == 1 else "?"


def truth(s, v):
    t = s.val(v)
    if is_k(t):
        return bool(kval(t))
    return None


def counter_names(fields):
    return [a for a in fields if a in ("iter_count", "iteration", "n_iter", "iter")]


def budget(ctx, kind, variant, budget):
    w = ctx.w
    op = entries.indicator_methods(w)
    cls = w.find_class(kind)
    step = scen.step_method(w, cls)
    # summarise everything numerical inside a step: only control flow, counters and records matter
    s = ctx.session(f"{kind}[{variant}] max_iters={budget}", op | numeric_helpers(w, kind))
    fo = scen.ctor_of(cls)
    names = {p.arg for p in scen.params_of(fo)}
    ctx.need("max_iters" in names, f"{kind} has no max_iters parameter")
    o = scen.optimizer(s, kind, variant, {"max_iters": K(budget)})
    n = 0
    where = f"{kind}.terminate"
    hist = {a: v for a, v in s.fields(o).items() if a.startswith("history")}
    grew = {}
    cn = counter_names(s.fields(o))
    ctx.need(len(cn) == 1, f"{kind}: no unique iteration counter ({cn})")
    cn = cn[0]
    for rnd in range(budget + 1):
        t = truth(s, s.method(o, "terminate"))
        ctx.ob("termination test", f"{kind}[{variant}]: budget {budget}, after {rnd} iterations -> {t}")
        want = rnd >= budget
        if t is None:
            ctx.fail("undecided-termination", f"{kind}", f"with max_iters={budget}, whether the run stops after {rnd} iterations is not determined by the budget alone", where=where)
            return
        if t != want:
            ctx.fail("wrong-budget", f"{kind}", f"with max_iters={budget}, the run {'stops' if t else 'does not stop'} after {rnd} iterations", where=where)
            return
        if want:
            break
        before = {a: size(s, s.get(o, a)) for a in hist}
        s.method(o, step)
        s.method(o, "log")
        c = s.val(s.get(o, cn))
        ctx.ob("iteration counter", f"{kind}: {show(c, 40)} after round {rnd + 1}")
        if not is_k(c) or kval(c) != rnd + 1:
            ctx.fail("wrong-count", f"{kind}.{cn}", f"the iteration counter is {show(c, 60)} after {rnd + 1} iterations", where=f"{kind}.{step}")
            return
        for a in hist:
            b, now = before[a], size(s, s.get(o, a))
            if b is None or now is None:
                continue
            ctx.ob("history length", f"{kind}.{a}")
            if now == "?":
                if b != "?":
                    ctx.fail("history-length", f"{kind}.{a}", f"whether `{a}` gains exactly one entry in iteration {rnd + 1} depends on something other than the iteration", where=f"{kind}.log")
                continue
            if b == "?":
                continue
            grew.setdefault(a, []).append(now - b)
    for a, d in grew.items():
        if any(x > 1 for x in d) or (any(x == 1 for x in d) and any(x != 1 for x in d)):
            ctx.fail("history-length", f"{kind}.{a}", f"`{a}` grows by {d} entries in successive iterations", where=f"{kind}.log")
    full = [a for a, d in grew.items() if d and all(x == 1 for x in d)]
    for a in ("history_X", "history_Y"):
        if budget and grew.get(a) and a not in full:
            ctx.fail("history-length", f"{kind}.{a}", f"`{a}` does not receive one entry per iteration: {grew[a]}", where=f"{kind}.log")
    sd = s.get(o, "stop_dict")
    vals = stop_values(s, sd)
    ctx.ob("stop record", f"{kind}: {sorted(vals)}")
    if budget not in [kval(v) for v in vals.values() if is_k(v)]:
        ctx.fail("stop-record", f"{kind}", f"the stop record after {budget} iterations is { {k: show(v, 40) for k, v in vals.items()} }", where=where)


def stop_values(s, sd):
    out = {}
    for r in refs_in(sd):
        c = s.st.heap.get(r.a[0])
        if c is None:
            continue
        for k, v in (c.f or {}).items():
            out[str(k)] = s.val(v)
    return out


def numeric_helpers(w, kind):
    out = {"backtracking_line_search", "non_domin_sort"}
    cls = w.find_class(kind)
    for m in {n for c in cls.mro for n in c.ns}:
        n = m.lower()
        if m.startswith("_") and any(k in n for k in ("line_search", "netwon_step", "newton_step", "compute_step", "box", "check_p", "uniq", "shift", "compute_ind", "compute_r")):
            out.add(f"{kind}.{m}")
    return out


def default_budget(ctx, kind):
    w = ctx.w
    s = ctx.session(f"{kind} max_iters=None", entries.indicator_methods(w))
    o = scen.optimizer(s, kind, "full", {"max_iters": K(None)})
    v = s.val(s.get(o, "max_iters"))
    n = s.val(s.get(o, "N"))
    ctx.ob("default budget", f"{kind}: {show(v, 80)}")
    if is_k(v) and kval(v) is None:
        ctx.fail("no-budget", f"{kind}", "max_iters=None leaves the run without a budget", where=f"{kind}.__init__")
    elif v.tag != "top" and n.tag != "top" and v is not nbin("Mult", n, K(10)):
        ctx.fail("default-budget", f"{kind}", f"max_iters=None gives a budget of {show(v, 80)} instead of ten iterations per point", where=f"{kind}.__init__")


def run_loop(ctx, kind, variant, budget):
    """run() itself with a concrete budget: the loop unrolls, one iteration and one record per round"""
    w = ctx.w
    cls = w.find_class(kind)
    step = scen.step_method(w, cls)
    s = ctx.session(f"{kind}[{variant}].run max_iters={budget}", entries.indicator_methods(w) | numeric_helpers(w, kind))
    w.interp.unroll_while = 12
    try:
        o = scen.optimizer(s, kind, variant, {"max_iters": K(budget)})
        s.take()
        res = s.method(o, "run")
    finally:
        w.interp.unroll_while = 0
    where = f"{kind}.run"
    steps = [e for e in s.take() if e.kind == "enter" and e.callee.name in (step, "log") and e.callee.cls is not None and e.callee.cls in cls.mro]
    seq = [e.callee.name for e in steps]
    looped = [e for e in steps if e.loop]
    ctx.ob("phases of the run loop", f"{kind}[{variant}] budget {budget}: {seq}")
    if looped:
        ctx.fail("run-loop", f"{kind}", f"with max_iters={budget} the number of iterations of run() is not determined by the budget", looped[0])
        return
    if seq.count(step) != budget:
        ctx.fail("run-loop", f"{kind}:{step}", f"run() with max_iters={budget} makes {seq.count(step)} iterations", where=where)
    if seq.count("log") != budget:
        ctx.fail("run-loop", f"{kind}:log", f"run() with max_iters={budget} records {seq.count('log')} iterations", where=where)
    elif seq.count(step) == budget and seq != [step, "log"] * budget:
        ctx.fail("run-loop", f"{kind}:order", f"iterations and records do not alternate: {seq}", where=where)
    st = s.get(o, "state")
    items = list(res.a) if isinstance(res, T) and res.tag == "tup" else []
    if not items:
        for r in refs_in(res):
            c = s.st.heap.get(r.a[0])
            if c is not None and c.kind in ("tuple", "list"):
                items = list(c.items or ())
    want = [s.val(s.get(st, "primal")), s.val(s.get(st, "Y"))]
    ctx.ob("result of run", f"{kind}: {len(items)} parts")
    for i, (g, wv) in enumerate(zip(items, want)):
        gv = s.val(g)
        if budget == 0 and gv.tag == "top" and not gv.a[0] and wv.tag != "top" and leaves_of(wv):
            ctx.fail("run-result", f"{kind}:{i}:none", f"without an iteration, part {i} of what run() returns has nothing to do with the population (for instance the last entry of an empty history)", where=where)
        if gv is not wv and gv.tag != "top" and wv.tag != "top":
            ctx.fail("run-result", f"{kind}:{i}", f"run() returns {show(gv, 80)} as part {i}, not the final population", where=where)


def run(ctx):
    ctx.rule("terminate() folds to (iterations >= budget); counter == iterations; unconditional histories grow by one per round; loop phases terminate -> iterate -> log")
    jobs = []
    for k in scen.OPTIMIZERS:
        jobs += [("budget", k, v, b) for v in ("full", "bare") for b in ((0, 1, 2, 3) if ctx.thorough else (0, 2))]
        jobs += [("loop", k, v, b) for v in ("full", "bare") for b in ((0, 1, 2, 3) if ctx.thorough else (0, 2))]
        jobs += [("default", k)]

    # 'bare' leaves max_iters to its default: give it explicitly
    def job(c, j):
        if j[0] == "budget":
            budget(c, *j[1:])
        elif j[0] == "default":
            default_budget(c, j[1])
        else:
            run_loop(c, *j[1:])

    ctx.parallel(jobs, job)
    ctx.at_least("termination test", 16)
    ctx.at_least("iteration counter", 8)
    ctx.at_least("history length", 24)
    ctx.at_least("phases of the run loop", 16)
    ctx.at_least("result of run", 16)
