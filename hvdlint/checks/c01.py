"""Caller-owned inputs are never modified in place."""

from .. import entries
from ..world import Session

EXPLANATION = (
    "Alias/effect analysis of every public entry point (optimizers with and without optional arguments, indicators, "
    "State, ReferenceSet, bootstrap, every problem class, every public helper): each argument is a distinct abstract "
    "object and every in-place effect (item/slice store, augmented assignment, out=, in-place method, attribute store, "
    "list/dict mutation) is traced to the object it writes, through views, containers, attributes, closures and calls. "
    "A write whose target is, or is a view into, caller-owned storage is a violation."
)
ASSUMPTIONS = [
    "NumPy view/copy semantics as modelled in hvdlint/models.py (basic indexing, reshape, ravel, .T, asarray are views; fancy indexing, copy, clip, arithmetic are fresh)",
    "the `out` dictionary handed in by pymoo's evaluation protocol is an output parameter",
]
RULE = "caller-input-mutation"
# output parameters by protocol / in-place internal data structures
OUT_PARAMS = {"out"}
INPLACE_STRUCTURES = {"MultiList", "MultiList.Node", "Node"}

FIXTURE = '''
import numpy as np
class Keeper:
    def __init__(self, ref):
        self.ref = np.asarray(ref)
    def step(self, x):
        v = self.ref[1:]
        v -= x
        return v
def scale(x):
    y = np.copy(x)
    y[0] = 1.0
    return y
'''


def mutations(events):
    for e in events:
        if e.kind in ("store", "param_attr_store") and e.loc is not None and e.loc.root is not None:
            yield e


def exempt(e):
    if e.loc.root in OUT_PARAMS:
        return True
    # private helpers and internal containers are judged through their public callers
    ent = e.stack[0] if e.stack else e.fn
    if ent is None:
        return False
    q = ent.qual
    if any(p.startswith("_") and not p.startswith("__") for p in q.split(".")):
        return True
    if q.split(".")[0] == "HyperVolume" and q.split(".")[-1] not in ("__init__", "compute"):
        return True
    return q.split(".")[0] in INPLACE_STRUCTURES


def selftest(ctx):
    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    s = Session(w)
    k = s.new("Keeper", [s.param("ref")])
    s.method(k, "step", [s.param("x")])
    s.call(w.find_func("scale"), [s.param("y")])
    hits = [e.loc.root for e in mutations(s.take())]
    ctx.need(hits == ["ref"], f"self-test: expected exactly the write through the view of `ref`, got {hits}")
    ctx.selftests.append("write through a view of a stored argument is reported; write to a copy is not")


def visit(ctx, sc, s, ev):
    ctx.ob("entry point", sc.name)
    for e in ev:
        if e.kind == "store":
            ctx.ob("in-place store", f"{e.where} {e.how}")
    for e in mutations(ev):
        if exempt(e):
            ctx.ob("exempt store", f"{e.where} {e.loc.root}")
            continue
        how = getattr(e, "how", None) or f"attribute {e.attr}"
        ctx.fail(RULE, f"{e.func}:{e.loc.root}", f"{how} writes into the caller's argument `{e.loc.root}`", e)


def run(ctx):
    ctx.rule("no in-place effect may reach storage owned by an argument")
    entries.catalogue(ctx, visit)
    ctx.at_least("entry point", 100)
    ctx.at_least("in-place store", 100)
