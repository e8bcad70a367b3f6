"""Points stay paired with their objective values through every selection."""

from .. import models, scen
from ..terms import K, Op, T, Tup, is_k, kval, show
from ..world import Session
from . import c12, c19
from .c21 import leaves_of

EXPLANATION = (
    "Row-pairing analysis. The bootstrap driver is interpreted for a fixed number of iterations, replacement interval and number of trailing populations; "
    "the population after each iteration is a pair of symbols (points, objective values). The two returned arrays are reduced to the row "
    "selections that lead from the recorded populations to them (slices, index arrays, masks, concatenations, medoid choices) and compared selection by "
    "selection. The iterations, log entries and reference replacements are counted, and the reference-set object held by the optimizer, by its "
    "indicator and by the caller is compared. SMS-EMOA's removal loop and the hypervolume bookkeeping, MOEA/D's replacement and the pair returned by "
    "run() are compared index term by index term in the same way."
)
ASSUMPTIONS = [
    "equal index terms select equal rows (NumPy and scikit-learn calls with equal arguments and fixed random state return equal results)",
]

WRAP = {"numpy.nonzero", "numpy.flatnonzero", "numpy.where", "numpy.argwhere", "numpy.asarray", "numpy.array"}
JOIN = {"numpy.concatenate", "numpy.vstack", "numpy.r_", "numpy.row_stack"}


def core(i):
    """an index without the wrappers that denote the same rows"""
    while isinstance(i, T):
        i = c12.peel(i)
        if c12.is_call(i, WRAP) and len([x for x in i.a[2:] if x.tag != "op" or x.a[0] != "kw"]) == 1:
            i = i.a[2]
        elif i.tag == "op" and i.a[0] == "sub" and is_k(i.a[2]) and kval(i.a[2]) == 0 and c12.is_call(i.a[1], {"numpy.nonzero", "numpy.where"}):
            i = i.a[1]
        else:
            return i
    return i


def selection(t):
    """(base, row index or None) of the outermost row selection; columns are ignored"""
    t = c12.peel(t)
    if c12.is_call(t, {"numpy.take"}) and len(t.a) > 3:
        return t.a[2], t.a[3]
    if t.tag == "op" and t.a[0] == "sub":
        i = c19.axis0(t.a[2])
        if c19.whole(i) or c19.whole(t.a[2]):
            return selection(t.a[1])
        return t.a[1], i
    return t, None


def pair(a, b, prefix=("X", "Y")):
    """True: same rows; (index, index): different rows; None: undetermined"""
    (a, i), (b, j) = selection(a), selection(b)
    if (i is None) != (j is None):
        return (i, j)
    if i is not None:
        if core(i) is not core(j):
            return (i, j)
        return pair(a, b, prefix)
    if a is b:
        return True
    if a.tag == "op" and a.a[0] == "sym" and b.tag == "op" and b.a[0] == "sym":
        m, n = str(kval(a.a[1])), str(kval(b.a[1]))
        if m[:1] == prefix[0] and n[:1] == prefix[1] and m[1:].isdigit() and n[1:].isdigit():
            return True if m[1:] == n[1:] else (a, b)
        return None
    if c12.is_call(a, JOIN) and c12.is_call(b, JOIN):
        x, y = c12.items(a.a[2]), c12.items(b.a[2])
        if x is None or y is None:
            return pair(a.a[2], b.a[2], prefix)
        if len(x) != len(y):
            return (a, b)
        rs = [pair(p, q, prefix) for p, q in zip(x, y)]
        bad = [r for r in rs if isinstance(r, tuple)]
        return bad[0] if bad else None if None in rs else True
    x, y = c12.items(a), c12.items(b)
    if x is not None and y is not None and len(x) == len(y) and x:
        rs = [pair(p, q, prefix) for p, q in zip(x, y)]
        bad = [r for r in rs if isinstance(r, tuple)]
        return bad[0] if bad else None if None in rs else True
    return None


def populations(t):
    """names of the population symbols a value was selected from (ignoring indices)"""
    t, _ = selection(t)
    out = []
    while True:
        u, i = selection(t)
        if u is t:
            break
        t = u
    if t.tag == "op" and t.a[0] == "sym":
        return [str(kval(t.a[1]))]
    if c12.is_call(t, JOIN):
        for x in c12.items(t.a[2]) or (t.a[2],):
            p = populations(x)
            if p is None:
                return None
            out += p
        return out
    x = c12.items(t)
    if x is not None:
        for y in x:
            p = populations(y)
            if p is None:
                return None
            out += p
        return out
    return None


# ------------------------------------------------------------------------------------- bootstrap
def stepping(s, o, cls, w, log):
    """iterations that only produce the next population"""
    I = s.I
    st = s.get(o, "state")
    names = {n: n if n in s.fields(st) else "_" + n for n in ("X", "Y")}
    count = [0]

    def population(node, st_):
        for n, f in names.items():
            v = I.arr(node, Op("sym", K(f"{n}{count[0]}")), st_, extra=(n, count[0]))
            I.setattr_(st, f, v, node, st_, s.fr)

    population(s.node, s.st)

    def step(a, k, n, st_):
        log.append("iteration" if I.loopdepth == 0 else "any")
        count[0] += 1
        population(n, st_)
        return K(None)

    def entry(a, k, n, st_):
        log.append("log" if I.loopdepth == 0 else "any")
        return K(None)

    I.stubs[cls.lookup(scen.step_method(w, cls))[0].a[0].qual] = step
    m, _ = cls.lookup("log")
    if m is not None:
        I.stubs[m.a[0].qual] = entry
    return count


def bootstrap(ctx, iters, interval, last_n, rsg, matching=True):
    w = ctx.w
    f = w.find_func("bootstrap_reference_set")
    fo = f.a[0]
    names = [p.arg for p in scen.params_of(fo, skip_self=False)]
    ctx.need({"optimizer", "problem", "interval", "last_n"} <= set(names), f"parameters of the bootstrap driver: {names}")
    who = f"bootstrap iterations={iters} interval={interval} last_n={last_n} rsg={rsg} matching={matching}"
    s = ctx.session(who, c12.opaque_names(w))
    I = s.I
    models.BIG[0] = 6
    I.precise = True
    cls = w.find_class("MMDNewton")
    o = scen.optimizer(s, "MMDNewton", "full", {"verbose": K(False), "max_iters": K(iters), "matching": K(matching)})
    log = []
    stepping(s, o, cls, w, log)
    ref0 = s.get(o, "ref")
    over = {"optimizer": o, "problem": s.param("problem", "object"), "interval": K(interval), "last_n": K(last_n)}
    for n in names:
        if n.startswith(("plot", "save")):
            over[n] = K(False)
    if "with_rsg" in names:
        over["with_rsg"] = K(rsg)
    s.take()
    I.unroll_while = iters + 2
    try:
        r = s.call(f, [], scen.args_for(s, fo, over=over))
    finally:
        I.unroll_while = 0
    ev = s.take()
    if "any" in log:
        ctx.ob("bootstrap result not decided", who)
        return
    where = f"{fo.module} {fo.qual}"
    out = I.exact_seq(r, s.st) if isinstance(r, T) else None
    if out is None or len(out) != 4:
        ctx.ob("bootstrap result not decided", who)
        return
    # iterations
    ctx.ob("iterations of the bootstrap driver", f"{who}: {log.count('iteration')}")
    if log != ["iteration", "log"] * iters:
        ctx.fail("iterations", "bootstrap:iterations", f"with max_iters={iters} the driver makes {log.count('iteration')} iterations and {log.count('log')} log entries, in the order {''.join(x[0] for x in log)}; expected one log entry after each of {iters} iterations", where=where)
    # replacements of the reference set
    want = max(0, (iters - 1) // interval)
    refs = I.exact_seq(out[3], s.st)
    if refs is not None:
        ctx.ob("replacements of the reference set", f"{who}: {len(refs)}")
        if len(refs) != want:
            ctx.fail("replacements", "bootstrap:list", f"with max_iters={iters} and interval={interval} the list of reference sets has {len(refs)} entries, expected {want}", where=where)
    held = {"optimizer": s.get(o, "ref"), "indicator": s.get(s.get(o, "indicator"), "ref"), "caller": out[2]}
    if all(v.tag == "ref" for v in held.values()):
        ctx.ob("reference set held by optimizer, indicator and caller", who)
        locs = {v.a[0] for v in held.values()}
        if len(locs) != 1:
            ctx.fail("reference-split", "bootstrap:ref", f"after the driver returns, optimizer, indicator and caller hold different reference sets (max_iters={iters}, interval={interval})", where=where)
        elif ref0.tag == "ref" and (held["optimizer"].a[0] is ref0.a[0]) != (want == 0):
            ctx.fail("replacements", "bootstrap:ref", f"with max_iters={iters} and interval={interval} the reference set in use is {'still the initial one' if want else 'replaced before the first interval is over'}", where=where)
    # the returned points
    X, Y = (s.val(x) for x in out[:2])
    p = pair(X, Y)
    if p is None:
        ctx.ob("pairing not decided", f"{who}: {show(X, 100)}")
    else:
        ctx.ob("returned points paired with their objective values", who)
        if p is not True:
            ctx.fail("unpaired", "bootstrap:result", f"the returned points and objective values are not the same individuals: points are selected by {show(p[0], 110) if p[0] is not None else 'nothing'}, values by {show(p[1], 110) if p[1] is not None else 'nothing'}", where=where)
    ps = populations(X)
    if ps is not None and all(x[:1] == "X" and x[1:].isdigit() for x in ps):
        n = min(last_n, iters)
        expect = [f"X{i}" for i in range(iters)][-n:]
        ctx.ob("populations the result is taken from", f"{who}: {ps}")
        if sorted(ps) != sorted(expect):
            ctx.fail("populations", "bootstrap:window", f"with max_iters={iters} and last_n={last_n} the result is taken from the populations {ps}, expected {expect}", where=where)
    for e in ev:
        if e.kind == "missing_attr":
            ctx.fail("missing", "bootstrap:attribute", f"the driver reads an attribute that is not there: {getattr(e, 'attr', '')}", e)


# ------------------------------------------------------------------------------------- results of run()
def run_result(ctx, kind, iters):
    w = ctx.w
    cls = w.find_class(kind)
    who = f"{kind}.run with {iters} iterations"
    s = ctx.session(who, c12.opaque_names(w))
    I = s.I
    I.precise = True
    o = scen.optimizer(s, kind, "bare" if kind == "Lara" else "full", {"verbose": K(False), "max_iters": K(iters)})
    log = []
    count = stepping(s, o, cls, w, log)
    t, _ = cls.lookup("terminate")
    if t is not None:
        I.stubs[t.a[0].qual] = lambda a, k, n, st_: K(count[0] >= iters)
    I.unroll_while = iters + 2
    try:
        r = s.method(o, "run")
    finally:
        I.unroll_while = 0
    out = I.exact_seq(r, s.st) if isinstance(r, T) else None
    if out is None or len(out) < 2:
        ctx.ob("result of run not decided", who)
        return
    X, Y = (s.val(x) for x in out[:2])
    p = pair(X, Y)
    ps, qs = populations(X), populations(Y)
    if p is None or not ps or not qs:
        ctx.ob("result of run not decided", f"{who}: {show(X, 60)} {show(Y, 60)}")
        return
    ctx.ob("points and objective values returned by run", f"{who}: {ps} {qs}")
    if p is not True or ps != [f"X{iters}"] or qs != [f"Y{iters}"]:
        ctx.fail("unpaired", f"{kind}:run", f"after {iters} iterations run returns points of {ps} and objective values of {qs}, not both of the final population", where=f"{kind}.run")


# ------------------------------------------------------------------------------------- SMS-EMOA
def survival(ctx):
    w = ctx.w
    c = w.find_class("LeastHypervolumeContributionSurvival")
    s = ctx.session("SMS-EMOA survival", {x.name + ".calc" for x in w.all_classes() if x.lookup("calc")[0] is not None})
    I = s.I
    I.unroll_while = 3

    def oracle(v):
        # two objectives: the library's exact hypervolume, every operation visible as a call
        if isinstance(v, T) and v.tag == "op" and v.a[0] == "cmp" and any(is_k(x) and kval(x) in (2, 3) for x in v.a[1:] if isinstance(x, T)) and any("shape" in show(x, 200) or "dim" in show(x, 200) or "n_obj" in show(x, 200) for x in v.a[1:] if isinstance(x, T)):
            k = [kval(x) for x in v.a[1:] if isinstance(x, T) and is_k(x) and isinstance(kval(x), int)]
            op = v.a[1] if isinstance(v.a[1], str) else kval(v.a[1]) if is_k(v.a[1]) else None
            if k and op in ("Eq", "GtE", "NotEq", "Lt", "LtE", "Gt"):
                return {"Eq": 2 == k[0], "NotEq": 2 != k[0], "GtE": 2 >= k[0], "Gt": 2 > k[0], "Lt": 2 < k[0], "LtE": 2 <= k[0]}[op]
        return None

    I.oracle = oracle
    try:
        o = s.new(c, [])
        s.take()
        s.method(o, "_do", [s.param("problem", "object"), s.param("pop", "object")], {"n_survive": s.param("n_survive", "int")})
        ev = s.take()
    finally:
        I.oracle, I.unroll_while = None, 0
    gone = [e for e in ev if e.kind == "extcall" and e.name in (".delete",)]
    rows = [e for e in ev if e.kind == "extcall" and e.name == "numpy.delete" and e.func.startswith("LeastHyp")]
    if not gone or len(gone) != len(rows):
        ctx.ob("removal loop not decided", f"{len(gone)} {len(rows)}")
        return
    for h, r in zip(gone, rows):
        if not h.argvals or len(r.argvals) < 2:
            ctx.ob("removal loop not decided")
            continue
        k, j = (one(x) for x in (h.argvals[0], r.argvals[1]))
        ctx.ob("individual removed from the front and from the record", f"{show(k, 60)}")
        if k is not j and not (alternatives(k) & alternatives(j)):
            ctx.fail("unpaired", "SMS-EMOA:removed", f"the record drops {show(k, 80)}, the front drops {show(j, 80)}", r)
        for x in alternatives(k):
            if x.tag == "op" and x.a[0] == "sub" and "argsort" in show(x.a[1], 40) and is_k(x.a[2]) and isinstance(kval(x.a[2]), int):
                ctx.ob("least contribution is removed", show(x, 60))
                neg = "neg(" in show(x.a[1], 60) or "::-1" in show(x.a[1], 200)
                if (kval(x.a[2]) != 0) != neg:
                    ctx.fail("wrong-removal", "SMS-EMOA:choice", f"the individual removed is not the one with the least contribution: {show(x, 80)}", h)
                continue
            n = c12.is_call(x) or (kval(x.a[1]) if x.tag == "op" and x.a[0] == "mcall" and is_k(x.a[1]) else None)
            n = str(n).split(".")[-1] if n else None
            if n in ("argmax", "argmin", "nanargmin", "nanargmax"):
                arg = next((y for y in x.a[2:] if isinstance(y, T)), None)
                neg = isinstance(arg, T) and arg.tag == "op" and arg.a[0] == "neg"
                ctx.ob("least contribution is removed", show(x, 60))
                if n.endswith("max") != neg:
                    ctx.fail("wrong-removal", "SMS-EMOA:choice", f"the individual with the largest contribution is removed: {show(x, 80)}", h)
    adds = [e for e in ev if e.kind == "extcall" and e.name == ".add" and e.func.startswith("LeastHyp")]
    first = c12.peel(rows[0].argvals[0])
    for e in adds:
        if not e.argvals:
            continue
        srcs = [x.a[2] for x in c12.subterms(e.argvals[0]) if x.tag == "op" and x.a[0] == "mcall" and is_k(x.a[1]) and kval(x.a[1]) == "get" and len(x.a) > 2]
        whole = [x for x in c12.subterms(outer(e.argvals[0])) if x.tag == "op" and x.a[0] == "cb" and kval(x.a[1]) == "pop.get" and any(is_k(y) and kval(y) == "F" for y in x.a[2:])]
        own = [x for x in srcs if x in alternatives(first)]
        ctx.ob("front whose contributions are recorded", show(e.argvals[0], 80))
        if whole and not own:
            ctx.fail("unpaired", "SMS-EMOA:front", f"contributions are recorded for {show(e.argvals[0], 100)}, individuals are removed from {show(first, 80)}", e)


def outer(t):
    """the value that is normalised, without the bounds it is normalised with"""
    t = c12.peel(t)
    while c12.is_call(t) and str(c12.is_call(t)).endswith("normalize") and len(t.a) > 2:
        t = c12.peel(t.a[2])
    # population rows chosen by their own objective values do not count as the whole population
    while t.tag == "op" and t.a[0] == "sub":
        t = c12.peel(t.a[2]) if t.a[1].tag == "op" and t.a[1].a[0] == "cb" else c12.peel(t.a[1])
    return t if t.tag == "op" and t.a[0] == "cb" else K(None)


def one(t):
    """an index written as a list of one index"""
    while True:
        t = c12.peel(t)
        x = c12.items(t)
        if x is None or len(x) != 1:
            return t
        t = x[0]


def alternatives(t):
    return set(t.a[0]) if t.tag == "phi" else {t}


def record(ctx):
    """delete(k) of the hypervolume records: every row-aligned quantity loses row k"""
    w = ctx.w
    for c in w.all_classes():
        if c.lookup("delete")[0] is None or c.lookup("_calc")[0] is None and c.lookup("calc")[0] is None:
            continue
        s = ctx.session(f"{c.name}.delete", set())
        I = s.I
        I.precise = True
        o = s.new(c, [s.param("ref", "array")])
        have = [n for n in ("F", "dom", "hv", "hvc", "V") if n in s.fields(o) or n in ("F", "hvc", "hv")]
        for n in have:
            s.set(o, n, s.param("h." + n, "array"))
        old = {n: s.val(s.get(o, n)) for n in have}
        k = s.param("k", "int")
        s.take()
        s.method(o, "delete", [k])
        hv = s.val(s.get(o, "hv")) if "hv" in s.fields(o) else None
        if hv is not None and not is_k(hv) and hv is not old.get("hv"):
            lost = [x for x in c12.subterms(hv) if x.tag == "op" and x.a[0] == "sub" and x.a[1] is old.get("hvc")]
            if lost:
                ctx.ob("volume after a removal", f"{c.name}: {show(hv, 80)}")
                if any(x.a[2] is not s.val(k) for x in lost):
                    ctx.fail("record-misaligned", f"{c.name}:hv", f"removing individual k reduces the volume by {show(lost[0], 60)}", where=f"{c.name}.delete")
        for n in have:
            v = s.val(s.get(o, n))
            if n in ("F", "dom"):
                ctx.ob("row removed from the record", f"{c.name}.{n}: {show(v, 80)}")
                d = c12.peel(v)
                if d is old[n]:
                    ctx.fail("record-stale", f"{c.name}:{n}", f"removing an individual leaves its row in {n}", where=f"{c.name}.delete")
                elif c12.is_call(d, {"numpy.delete"}):
                    kw = {kval(x.a[1]): x.a[2] for x in d.a[2:] if x.tag == "op" and x.a[0] == "kw"}
                    pos = [x for x in d.a[2:] if not (x.tag == "op" and x.a[0] == "kw")]
                    ax = kw.get("axis", pos[2] if len(pos) > 2 else None)
                    who = pos[1] if len(pos) > 1 else kw.get("obj")
                    if c12.peel(pos[0]) is not old[n] or one(who) is not s.val(k) or ax is None or not is_k(ax) or kval(ax) != 0:
                        ctx.fail("record-misaligned", f"{c.name}:{n}", f"removing individual k sets {n} to {show(v, 100)}", where=f"{c.name}.delete")
            elif n == "hvc":
                ls = leaves_of(v)
                ctx.ob("contributions after a removal", f"{c.name}: {show(v, 80)}")
                if v is old[n]:
                    ctx.fail("record-stale", f"{c.name}:hvc", "removing an individual leaves the contributions as they were", where=f"{c.name}.delete")
                elif s.val(k) not in ls and not any(x.tag == "top" for x in c12.subterms(v)) and ls & {old[m] for m in have}:
                    ctx.fail("record-stale", f"{c.name}:hvc", f"the contributions after a removal are computed from the record before it: {show(v, 100)}", where=f"{c.name}.delete")


# ------------------------------------------------------------------------------------- MOEA/D
def origin(t):
    """whose value a comparison operand is: 'off', 'pop' or None"""
    t = c12.peel(t)
    if t.tag == "phi":
        s = {origin(x) for x in t.a[0]}
        return s.pop() if len(s) == 1 else None
    if t.tag != "op":
        return None
    n = c12.is_call(t)
    if n and n.split(".")[-1] == "parameter_less" and len(t.a) > 2:
        return origin(t.a[2])
    if t.a[0] == "cb":
        arg = next((x for x in t.a[2:] if isinstance(x, T) and not (x.tag == "op" and x.a[0] == "kw")), None)
        return origin(arg) if arg is not None else None
    if t.a[0] in ("sub", "attr"):
        return origin(t.a[1])
    if t.a[0] == "mcall" and len(t.a) > 2:
        return origin(t.a[2])
    if t.a[0] == "sym":
        return kval(t.a[1]) if kval(t.a[1]) in ("off", "pop") else None
    return None


def replacement(ctx):
    w = ctx.w
    c = w.find_class("ConstraintAwareMOEAD")
    s = ctx.session("MOEA/D replacement", set())
    models.BIG[0] = 6
    o = s.new(c, [])
    for n in ("pop", "neighbors", "ref_dirs", "ideal", "problem"):
        s.set(o, n, s.param(n, "object" if n == "problem" else "array"))
    s.take()
    k = s.param("k", "int")
    s.method(o, "_replace", [k, s.param("off", "object")])
    ev = s.take()
    N = Op("sub", s.val(s.get(o, "neighbors")), s.val(k))
    stores = [e for e in ev if e.kind == "store" and isinstance(e.idx, T) and any(x.tag == "op" and x.a[0] == "sym" and kval(x.a[1]) == "neighbors" or x.tag == "op" and x.a[0] == "cmp" for x in c12.subterms(e.idx))]
    if not stores:
        ctx.ob("replacement not decided", "no store into the population found")
        return
    for e in stores:
        base, i = selection(e.idx)
        i = core(i) if i is not None else None
        if i is not None and i.tag == "op" and i.a[0] == "sub" and base is N:
            j = core(i.a[1])
            if j.tag == "op" and j.a[0] == "cmp" and core(i) is i and (is_k(i.a[2]) or show(i.a[2], 40).count(":") and not c19.whole(i.a[2])):
                ctx.fail("wrong-removal", "MOEA/D:some", f"only some of the neighbours the offspring is better than are replaced: {show(e.idx, 90)}", e)
            continue
        ctx.ob("neighbours replaced by an offspring", show(e.idx, 80))
        whole = core(e.idx)
        if i is None or whole.tag == "op" and whole.a[0] == "cmp":
            j = whole
            if j.tag == "op" and j.a[0] == "cmp":
                ctx.fail("unpaired", "MOEA/D:replaced", f"positions within the neighbourhood are used as positions in the population: {show(e.idx, 100)}", e)
            continue
        if base is not N:
            if base.tag == "op" and base.a[0] == "sub":
                ctx.fail("unpaired", "MOEA/D:neighbourhood", f"the replaced individuals are taken from {show(base, 60)}, not from the offspring's neighbourhood {show(N, 60)}", e)
            continue
        if i.tag == "op" and i.a[0] == "cmp" and len(i.a) == 4:
            op = i.a[1] if isinstance(i.a[1], str) else kval(i.a[1])
            l, r = origin(i.a[2]), origin(i.a[3])
            ctx.ob("comparison of offspring and neighbour", f"{op} {l} {r}")
            if {l, r} == {"off", "pop"}:
                better = op == "Lt" and l == "off" or op == "Gt" and r == "off"
                if not better:
                    ctx.fail("wrong-removal", "MOEA/D:comparison", "neighbours are replaced where the offspring is " + ("only as good" if op in ("LtE", "GtE") and (op == "LtE") == (l == "off") else "worse"), e)
            for x in c12.subterms(i):
                if x.tag == "op" and (x.a[0] == "cb" and kval(x.a[1]) == "pop.get" or x.a[0] == "mcall" and kval(x.a[1]) == "get" and len(x.a) > 2 and x.a[2] is s.val(s.get(o, "pop"))):
                    ctx.ob("neighbourhood rows compared", show(x, 60))
                    up = [y for y in c12.subterms(i) if y.tag == "op" and y.a[0] == "sub" and y.a[1] is x]
                    if not up or any(c19.axis0(y.a[2]) is not N for y in up):
                        ctx.fail("unpaired", "MOEA/D:rows", f"the comparison uses {show((up or [x])[0], 80)}, not the rows of the neighbourhood {show(N, 50)}", e)
                if x.tag == "op" and x.a[0] == "sub" and x.a[1].tag == "op" and x.a[1].a[0] == "sym" and kval(x.a[1].a[1]) in ("pop", "ref_dirs"):
                    j = c19.axis0(x.a[2])
                    ctx.ob("neighbourhood rows compared", show(x, 60))
                    if j is not N:
                        ctx.fail("unpaired", "MOEA/D:rows", f"the comparison uses {show(x, 80)}, not the rows of the neighbourhood {show(N, 50)}", e)
            if e.valnum is not None and origin(e.valnum) == "pop":
                ctx.fail("wrong-removal", "MOEA/D:stored", f"the neighbours are overwritten with {show(e.valnum, 60)}", e)


FIXTURE = """
import numpy as np
class A:
    def good(self, X0, Y0, idx, m):
        X, Y = X0[idx], Y0[idx]
        return np.vstack([X[m == 1], X]), np.vstack([Y[m == 1], Y])
    def bad(self, X0, Y0, idx, m):
        X, Y = X0, Y0[idx]
        return np.vstack([X[m == 1], X]), np.vstack([Y[m == 1], Y])
    def order(self, X0, Y0, idx, m):
        return X0[idx], Y0[np.sort(idx) + 1]
"""


def selftest(ctx):
    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    got = {}
    for m in ("good", "bad", "order"):
        s = Session(w)
        o = s.new("A", [])
        r = s.method(o, m, [s.param(n, "array") for n in ("X0", "Y0", "idx", "m")])
        X, Y = (s.val(x) for x in r.a)
        p = pair(X, Y)
        got[m] = p is True if not isinstance(p, tuple) else False
    ctx.need(got == {"good": True, "bad": False, "order": False}, f"self-test: {got}")
    ctx.selftests.append("a selection applied to the points only, and to the values with other indices, are reported; the paired form is not")


def run(ctx):
    ctx.rule("the selections leading to the returned points equal those leading to the returned objective values")
    jobs = [("bootstrap", *x) for x in ((4, 2, 2, True), (4, 1, 2, True, False), (4, 2, 2, False), (1, 1, 3, False), (5, 2, 3, False, False), (3, 5, 1, False), (6, 3, 2, False), (2, 1, 2, False))]
    jobs += [("run_result", k, n) for k in scen.OPTIMIZERS for n in (0, 1, 2)]
    jobs += [("survival",), ("record",), ("replacement",)]
    ctx.parallel(jobs, lambda c, j: globals()[j[0]](c, *j[1:]), weight=lambda j: 3 if j[0] == "bootstrap" else 1)
