"""Evaluation counters: every derivative evaluation of a population is counted once and line-search counts are not lost."""

from .. import scen
from ..heap import refs_in
from ..prov import phis
from ..terms import K, Op, T, Tup, is_k, kval, leaves_of, show
from . import c21

EXPLANATION = (
    "Every method of the population record that evaluates callbacks is interpreted for one point and for a population, with and without a batch "
    "implementation of the callbacks and with each family of callbacks present or absent; the number of points each callback is evaluated at on "
    "the interpreted path is compared with the increment of its counter. One iteration of each Newton optimizer is then interpreted with the "
    "population update replaced by a recorder that adds one symbol per evaluation: the counters of the optimizer's population at the end must be "
    "the initial ones plus each symbol exactly once. Row selections keep the counters."
)
ASSUMPTIONS = ["a counter whose term cannot be evaluated is counted as undetermined and not reported", "evaluations an indicator makes on its own are the subject of C26"]

ROWS, DIM, BASE = 7, 3, 1000
FAMILY = {"n_jac_evals": ("jac",), "n_cstr_jac_evals": ("h_jac", "g_jac"), "n_cstr_hess_evals": ("h_hess", "g_hess")}
CALLBACKS = ("func", "jac", "h", "h_jac", "h_hess", "g", "g_jac", "g_hess")


class Unknown(Exception):
    pass


def ext_name(t):
    f = t.a[1]
    if isinstance(f, T) and f.tag == "ext":
        return f.a[0].split(".")[-1]
    return kval(f) if is_k(f) else None


def seq(t):
    if t.tag == "tup":
        return list(t.a)
    if t.tag == "op" and t.a[0] in ("tuple", "list"):
        return list(t.a[1:])
    return None


def shape(t, xs):
    """shape of an array term over the input X, whose shape is `xs`"""
    if t.tag == "param" or t.tag == "op" and t.a[0] == "sym":
        return xs if "X" in show(t, 40) or "'x'" in show(t, 40) else None
    if t.tag == "op" and t.a[0] == "sub" and len(t.a) == 3:
        s = shape(t.a[1], xs)
        if s is None:
            return None
        idx = t.a[2]
        parts = seq(idx) or [idx]
        out = []
        k = 0
        for p in parts:
            txt = show(p, 40)
            if k >= len(s):
                return None
            if p.tag == "sl" or txt.startswith(":"):
                out.append(s[k] if txt in (":", "::", ":None:") else (DIM if k == len(s) - 1 else s[k]))
            elif txt == "anyrow()" or p.tag == "op" and p.a[0] in ("anyrow", "range_elem") or is_k(p) and isinstance(kval(p), int):
                pass
            else:
                return None
            k += 1
        return tuple(out) + s[k:]
    if t.tag == "op" and t.a[0] == "call" and ext_name(t) in ("asarray", "array", "copy", "atleast_1d", "ascontiguousarray"):
        return shape(t.a[2], xs)
    if t.tag == "op" and t.a[0] in ("mark",):
        return shape(t.a[2], xs)
    if t.tag == "phi":
        ss = {shape(x, xs) for x in phis(t)}
        return ss.pop() if len(ss) == 1 else None
    return None


def num(t, xs):
    if isinstance(t, T) and is_k(t):
        v = kval(t)
        if isinstance(v, (int, float)):
            return v
        raise Unknown
    if t.tag == "phi":
        vs = {num(x, xs) for x in phis(t)}
        if len(vs) == 1:
            return vs.pop()
        raise Unknown
    if t.tag != "op":
        raise Unknown
    o = t.a[0]
    if o == "add":
        return sum(num(x, xs) for x in t.a[1:])
    if o == "neg":
        return -num(t.a[1], xs)
    if o == "mul":
        r = 1
        for x in t.a[1:]:
            r *= num(x, xs)
        return r
    if o == "len" or o == "call" and ext_name(t) == "len":
        s = shape(t.a[1] if o == "len" else t.a[2], xs)
        if not s:
            raise Unknown
        return s[0]
    if o == "call" and ext_name(t) == "ndim":
        s = shape(t.a[2], xs)
        if s is None:
            raise Unknown
        return len(s)
    if o == "call" and ext_name(t) in ("int", "abs", "float"):
        return num(t.a[2], xs)
    if o == "call" and ext_name(t) == "size":
        s = shape(t.a[2], xs)
        if s is None:
            raise Unknown
        r = 1
        for x in s:
            r *= x
        return r
    if o == "attr":
        s = shape(t.a[1], xs)
        if s is None:
            raise Unknown
        if kval(t.a[2]) == "ndim":
            return len(s)
        if kval(t.a[2]) == "size":
            r = 1
            for x in s:
                r *= x
            return r
        raise Unknown
    if o == "sub" and t.a[1].tag == "op" and t.a[1].a[0] == "attr" and kval(t.a[1].a[2]) == "shape" and is_k(t.a[2]):
        s = shape(t.a[1].a[1], xs)
        if s is None:
            raise Unknown
        return s[kval(t.a[2])]
    if o == "bin":
        a, b = num(t.a[2], xs), num(t.a[3], xs)
        op = kval(t.a[1])
        if op == "FloorDiv" and b:
            return a // b
    raise Unknown


def oracle(xs, batch):
    def go(v):
        if not isinstance(v, T) or v.tag != "op":
            return None
        txt = show(v, 400)
        if "callable" in txt[:9] and "_batch" in txt:
            return batch
        if v.a[0] == "cmp":
            op = v.a[1] if isinstance(v.a[1], str) else kval(v.a[1])
            try:
                a = num(v.a[2], xs)
                if op in ("In", "NotIn") and seq(v.a[3]):
                    r = a in [num(x, xs) for x in seq(v.a[3])]
                    return r if op == "In" else not r
                b = num(v.a[3], xs)
            except Unknown:
                return None
            return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}.get(op)
        if v.a[0] == "not":
            r = go(v.a[1])
            return None if r is None else not r
        return None

    return go


def points(e, xs, origin):
    """number of points one callback event stands for"""
    s = None
    for x in e.argvals:
        s = shape(x, xs)
        break
    if s is None:
        raise Unknown
    if len(s) == 2:
        return s[0]
    if len(s) == 1:
        return ROWS if e.loop and len(xs) == 2 else 1
    raise Unknown


def owner(e):
    """parameter whose callback is evaluated"""
    lab = str(e.label)
    for n in sorted(CALLBACKS, key=len, reverse=True):
        if lab == n or f"$'{n}'" in lab:
            return n
    return None


def methods(w):
    cls = w.find_class("State")
    out = []
    for c in cls.mro:
        for n, v in getattr(c, "ns", {}).items():
            if n.startswith(("eval_", "update")) and v.tag in ("fn", "func") and n not in out:
                out.append(n)
    return sorted(out)


def state_job(ctx, j):
    _, name, absent = j
    w = ctx.w
    I = w.interp
    for pop in (True, False):
        if name == "update" and not pop or name == "update_one" and pop:
            continue
        for batch in (True, False) if pop else (True,):
            for flags in ((True, True), (False, True), (True, False), (False, False)) if name == "update" else ((),):
                xs = (ROWS, DIM) if pop else (DIM,)
                s = ctx.session(f"State.{name} population={pop} batch={batch} absent={absent} {flags}", set())
                cb = [K(None) if n in absent else s.param(n, "callback") for n in CALLBACKS]
                st = s.new("State", [K(DIM), K(2), K(2)] + cb)
                for c in FAMILY:
                    s.set(st, c, K(BASE))
                if name == "update_one":
                    s.method(st, "update", [s.param("pop", "array")])
                    for c in FAMILY:
                        s.set(st, c, K(BASE))
                X = s.param("X", "array")
                I.oracle = oracle(xs, batch)
                s.take()
                try:
                    s.method(st, name, [X] + ([K(0)] if name == "update_one" else [K(f) for f in flags]))
                finally:
                    I.oracle = None
                ev = [e for e in s.take() if e.kind == "callback"]
                tally(ctx, s, st, ev, xs, name, pop)


def tally(ctx, s, st, ev, xs, name, pop):
    for counter, cbs in FAMILY.items():
        if counter not in s.fields(st):
            ctx.ob("counter not kept", counter)
            continue
        try:
            inc = num(s.val(s.get(st, counter)), xs) - BASE
        except Unknown:
            ctx.ob("counter not decided", f"State.{name}.{counter}: {show(s.val(s.get(st, counter)), 80)}")
            continue
        got = {}
        try:
            for e in ev:
                n = owner(e)
                if n in cbs:
                    got[n] = got.get(n, 0) + points(e, xs, n)
        except Unknown:
            ctx.ob("evaluations not decided", f"State.{name}")
            continue
        ctx.ob("evaluations compared with the counter", f"State.{name} {'population' if pop else 'point'}: {counter} +{inc}, evaluations {got}")
        vals = set(got.values()) or {0}
        if vals != {inc}:
            n = sorted(got)[0] if got else "/".join(cbs)
            ctx.fail("miscounted", f"State.{name}:{counter}", f"State.{name} on {'a population of 7' if pop else 'one point'} evaluates {dict(sorted(got.items())) or 'no ' + n} but adds {inc} to {counter}", where=f"State.{name}")


class Counting(c21.Run):
    def __init__(self, ctx, kind, n, rows):
        self.syms, self.end = [], None
        super().__init__(ctx, kind, n, "half", rows)

    def prepare(self, o):
        s = self.s
        self.o = o
        self.counters = [c for c in FAMILY if c in s.fields(self.live)]
        for c in self.counters:
            s.set(self.live, c, s.val(Op("sym", K(f"start.{c}"))))

    def on_count(self, recv, st, node):
        I = self.I
        n = len(self.syms)
        self.syms.append("final" if recv.tag == "ref" and recv.a[0] is self.live.a[0] else f"trial {n + 1}")
        for c in self.counters:
            old = I.val(I.getattr_(recv, c, node, st, self.s.fr, quiet=True), st)
            I.setattr_(recv, c, I.models.add(old, Op("sym", K(f"evals{n}.{c}"))) if hasattr(I.models, "add") else Op("add", old, Op("sym", K(f"evals{n}.{c}"))), node, st, self.s.fr)

    def update(self, a, k, n, st):
        r = super().update(a, k, n, st)
        self.on_count(a[0], st, n)
        return r


def linear(t, out, c=1):
    """coefficients of the symbols of an integer term; None for anything else"""
    if is_k(t) and isinstance(kval(t), (int, float)):
        out["1"] = out.get("1", 0) + c * kval(t)
        return True
    if t.tag == "op" and t.a[0] == "add":
        return all(linear(x, out, c) for x in t.a[1:])
    if t.tag == "op" and t.a[0] == "neg":
        return linear(t.a[1], out, -c)
    if t.tag == "op" and t.a[0] == "mul":
        ks = [x for x in t.a[1:] if is_k(x)]
        rest = [x for x in t.a[1:] if not is_k(x)]
        if len(rest) == 1:
            f = c
            for x in ks:
                f *= kval(x)
            return linear(rest[0], out, f)
        return False
    if t.tag == "op" and t.a[0] == "sym":
        k = str(kval(t.a[1]))
        out[k] = out.get(k, 0) + c
        return True
    if t.tag == "op" and t.a[0] == "call" and ext_name(t) in ("int", "copy"):
        return linear(t.a[2], out, c)
    return False


def carry(ctx, j):
    _, kind, rows = j
    for n in (0, 1, 2):
        r = Counting(ctx, kind, n, rows)
        if not r.trials or r.undecided or r.looped or r.final is None:
            ctx.ob("line search not decided", f"{kind} rows={rows}")
            continue
        for c in r.counters:
            t = r.s.val(r.s.get(r.s.get(r.o, "state"), c))
            out = {}
            if not linear(t, out):
                ctx.ob("counter not decided", f"{kind}.{c}: {show(t, 100)}")
                continue
            ctx.ob("counter after an iteration", f"{kind} {len(r.trials)} trials, {c}")
            if out.get(f"start.{c}", 0) != 1 or out.get("1", 0):
                ctx.fail("count-reset", f"{kind}:{c}", f"after an iteration {c} is not the previous count plus the evaluations made: {show(t, 120)}", where=kind)
            for i, what in enumerate(r.syms):
                m = out.get(f"evals{i}.{c}", 0)
                if m != 1:
                    ctx.fail(
                        "count-lost" if m < 1 else "count-twice", f"{kind}:{c}",
                        f"the evaluations of {'the population update' if what == 'final' else 'a line-search trial'} enter {c} {m} times" , where=kind,
                    )


def slices(ctx):
    s = ctx.session("State row selection", set())
    st = s.new("State", [K(DIM), K(2), K(2)] + [s.param(n, "callback") for n in CALLBACKS])
    s.method(st, "update", [s.param("X", "array")])
    for c in FAMILY:
        s.set(st, c, K(BASE))
    r = s.method(st, "__getitem__", [s.param("idx", "array")])
    if r is None or r.tag != "ref":
        ctx.ob("row selection not decided")
        return
    for c in FAMILY:
        v = s.val(s.get(r, c))
        ctx.ob("counter of a row selection", f"{c}: {show(v, 40)}")
        if is_k(v) and kval(v) != BASE:
            ctx.fail("count-reset", f"State.__getitem__:{c}", f"selecting rows of a population changes {c}", where="State.__getitem__")


def run(ctx):
    ctx.rule("each evaluation of a derivative callback is counted exactly once")
    ctx.rule("the counts of line-search trials are carried over exactly once")
    slices(ctx)
    jobs = [("state", m, ab) for m in methods(ctx.w) for ab in ((), ("h", "h_jac", "h_hess"), ("g", "g_jac", "g_hess"), CALLBACKS[2:])]
    jobs += [("carry", k, n) for k in c21.NEWTON for n in (1, 2)]
    ctx.parallel(jobs, lambda c, j: state_job(c, j) if j[0] == "state" else carry(c, j), weight=lambda j: 1 if j[0] == "state" else 3)
    ctx.at_least("evaluations compared with the counter", 30)
