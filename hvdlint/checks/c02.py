"""Recorded histories are independent snapshots of the population at the end of each iteration."""

from .. import entries, scen
from ..heap import reach, refs_in
from ..prov import peel, phis
from ..terms import K, Op, T, is_k, show
from ..world import Session

EXPLANATION = (
    "Points-to analysis of the optimizers' logs. After construction and several abstract iterations the cells reachable from "
    "each recorded history are intersected with the cells reachable from everything else the optimizer holds (population, "
    "reference set, indicators, steps, caller inputs): a shared cell means a later iteration rewrites the recorded past. In "
    "addition every in-place effect is checked not to hit a cell already recorded, and the recorded decision/objective "
    "snapshots must have the value number of the population at the end of their iteration."
)
ASSUMPTIONS = ["NumPy view/copy semantics as modelled in hvdlint/models.py"]


def histories(s, o):
    """attributes of the optimizer that accumulate records (lists, or dictionaries of lists)"""
    out = {}
    for a, v in s.fields(o).items():
        if not a.startswith("history"):
            continue
        out[a] = v
    return out


def kind_of(s, v):
    for r in refs_in(v):
        c = s.st.heap.get(r.a[0])
        if c is not None:
            return c
    return None


def leaf_arrays(s, v):
    """array cells recorded inside a history: {Loc}"""
    cont = set()
    out = set()
    for loc in reach(s, [("h", v)]):
        c = s.st.heap.get(loc)
        if c is not None and c.kind in ("list", "dict", "tuple", "defaultdict", "set"):
            cont.add(loc)
        else:
            out.add(loc)
    return out, cont


def one(ctx, kind, variant, name=None):
    s = ctx.session(f"{kind}[{variant}]", entries.indicator_methods(ctx.w))
    o = scen.optimizer(s, kind, variant)
    hs = histories(s, o)
    ctx.need(len(hs) >= 3, f"{kind}: the recorded histories have vanished ({sorted(hs)})")
    s.take()
    recorded = {}
    snap = {}
    for rnd in range(2):
        step = scen.step_method(s.w, s.w.find_class(kind))
        s.method(o, step)
        s.method(o, "log")
        st = s.get(o, "state")
        now = {"X": s.val(s.get(st, "primal")), "Y": s.val(s.get(st, "Y"))}
        for e in s.take():
            if e.kind == "store" and e.loc in recorded and not (e.how or "").startswith("list"):
                ctx.fail("history-overwritten", f"{kind}.{recorded[e.loc]}", f"an entry of `{recorded[e.loc]}` recorded earlier is overwritten ({e.how})", e)
            elif e.kind == "store":
                ctx.ob("in-place store checked against recorded entries")
        hs = histories(s, o)
        live = reach(s, [(a, v) for a, v in s.fields(o).items() if a not in hs])
        for a, v in hs.items():
            arrs, cont = leaf_arrays(s, v)
            for loc in arrs | cont:
                if loc in live:
                    if s.st.heap.get(loc) is not None and s.st.heap[loc].kind in ("fn", "cls"):
                        continue
                    if "." not in live[loc] and "[" not in live[loc]:
                        # a direct attribute of the optimizer: harmless as long as it is only ever re-bound
                        # (an in-place store into the recorded cell is reported by the rule above)
                        ctx.ob("recorded cell is a re-bound attribute", f"{kind}.{a} = {live[loc]}")
                    else:
                        ctx.fail("history-shares-storage", f"{kind}.{a}", f"an entry of `{a}` shares its storage with `{live[loc]}`", where=f"{kind}.{a}")
                else:
                    ctx.ob("recorded cell disjoint from the live objects", f"{kind}.{a}")
                if loc.root is not None and loc.kind == "param" and loc.origin in ("array", "list"):
                    ctx.fail("history-shares-storage", f"{kind}.{a}", f"an entry of `{a}` is the caller's `{loc.root}`", where=f"{kind}.{a}")
                if loc in arrs:
                    recorded[loc] = a
            # pairwise: two records in one history must not be one array
            c = kind_of(s, v)
            items = list(c.items or ()) if c is not None and c.kind == "list" else []
            locs = [r.a[0] for x in items for r in refs_in(x)]
            if len(set(locs)) < len(locs) and len(items) > 1:
                fs = [set(r.a[0] for r in refs_in(x)) for x in items]
                for i in range(len(fs)):
                    for j in range(i):
                        if fs[i] & fs[j]:
                            ctx.fail("history-entries-alias", f"{kind}.{a}", f"two entries of `{a}` are the same array", where=f"{kind}.{a}")
            # the record itself
            q = {"history_X": "X", "history_Y": "Y"}.get(a)
            if q and items:
                got = s.val(items[-1])
                want = now[q]
                ctx.ob("snapshot value", f"{kind}.{a}")
                if peel(got) is not peel(want) and got.tag != "top" and want.tag != "top":
                    if not (set(map(peel, phis(got))) & set(map(peel, phis(want)))):
                        ctx.fail("wrong-snapshot", f"{kind}.{a}", f"`{a}` records {show(got, 100)} but the population at the end of the iteration is {show(want, 100)}", where=f"{kind}.log")


FIXTURE = '''
import numpy as np
class Opt:
    def __init__(self, X0):
        self.X = np.array(X0)
        self.history_X = []
        self.history_Y = []
        self.history_Z = []
    def go(self):
        self.X += 1.0
        self.history_X += [self.X]
        self.history_Y += [self.X.copy()]
        self.history_Z += [self.X[1:].ravel()]
'''


def selftest(ctx):
    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    s = Session(w)
    o = s.new("Opt", [s.param("X0")])
    s.method(o, "go")
    hs = histories(s, o)
    live = reach(s, [(a, v) for a, v in s.fields(o).items() if a not in hs])
    bad = sorted(a for a, v in hs.items() if any(l in live for l in leaf_arrays(s, v)[0]))
    ctx.need(bad == ["history_X", "history_Z"], f"self-test: {bad}")
    ctx.selftests.append("aliased record and record of a view are reported; a copied record is not")


def run(ctx):
    ctx.rule("cells(history) ∩ cells(everything else the optimizer holds) = ∅; no store into a recorded cell; snapshot value == population value")
    jobs = [(k, v) for k in scen.OPTIMIZERS for v in ("full", "bare")]
    if ctx.thorough:
        jobs += [(k, v) for k in scen.OPTIMIZERS for v in ("eq", "ieq")]
    ctx.parallel(jobs, lambda c, j: one(c, *j), weight=lambda j: 5 if j[0] == "DpN" else 4 if j[0] == "HVN" else 1)
    ctx.at_least("recorded cell disjoint from the live objects", 40)
    ctx.at_least("snapshot value", 12)
