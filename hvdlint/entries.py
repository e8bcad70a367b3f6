"""Entry points shared by the checks: which abstract runs to make and at what summarisation level."""

from . import scen
from .world import Session

INDICATORS = ("HypervolumeDerivatives", "GenerationalDistance", "InvertedGenerationalDistance")


def indicator_methods(w):
    """derivative/value methods of the point-set indicators: summarised inside optimizer runs, analysed on their own"""
    out = set()
    for n in INDICATORS:
        w.find_class(n)
        for m in ("compute_derivatives", "compute"):
            if n != "HypervolumeDerivatives" and m == "compute":
                continue
            out.add(f"{n}.{m}")
    return out


def optimizers(ctx, kinds=None, variants=("full", "bare"), rounds=2, over=None, opaque=None):
    """yield (kind, variant, session, object, events of the construction, events of the iterations)"""
    w = ctx.w
    op = indicator_methods(w) if opaque is None else opaque
    for k in kinds or scen.OPTIMIZERS:
        for v in variants:
            s = ctx.session(f"{k}[{v}]", op)
            o = scen.optimizer(s, k, v, over(s) if over else None)
            ev0 = s.take()
            scen.drive(s, o, k, rounds)
            yield k, v, s, o, ev0, s.take()


def selected(ctx, only=None):
    return [
        i for i, sc in enumerate(scen.catalogue(ctx.w, ctx.thorough))
        if (ctx.thorough or not sc.full) and (only is None or only(sc))
    ]


WEIGHT = {"bootstrap": 9, "DpN[full]": 8, "HVN[full]": 7, "HypervolumeDerivatives": 5, "DpN[bare]": 6, "problem WFG": 5}


def catalogue(ctx, visit, only=None, opaque=None):
    """run every public entry point and call visit(ctx, scenario, session, events) on each"""
    op = indicator_methods(ctx.w) if opaque is None else opaque
    cat = scen.catalogue(ctx.w, ctx.thorough)

    def job(c, i):
        sc = cat[i]
        w = c.w
        c.scenarios.append(sc.name)
        heavy = w.heavy() if sc.heavy else frozenset()
        base = sc.name.split("[")[0].split(".")[0]
        if base in scen.OPTIMIZERS or base == "bootstrap":
            heavy = frozenset(heavy) | op
        w.interp.opaque = frozenset(heavy)
        s = Session(w)
        sc.fn(s)
        visit(c, sc, s, s.take())

    ctx.parallel(selected(ctx, only), job, weight=lambda i: WEIGHT.get(cat[i].name, 10 if cat[i].full else 1))
