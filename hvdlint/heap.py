"""Heap queries: reachability and container contents."""

from .terms import T


def refs_in(v):
    out = []

    def go(x):
        if isinstance(x, T):
            if x.tag == "ref":
                out.append(x)
                return
            if x.tag in ("phi", "tup", "bound", "wrap", "extm", "op"):
                for y in x.a:
                    go(y)
        elif isinstance(x, (tuple, frozenset, list)):
            for y in x:
                go(y)
        elif isinstance(x, dict):
            for y in x.values():
                go(y)

    go(v)
    return out


def cell_values(c):
    if c is None:
        return
    if c.f:
        yield from c.f.values()
    if c.items:
        yield from c.items
    if c.star is not None:
        yield c.star


def reach(s, vals, skip=()):
    """abstract cells reachable from the given values: {Loc: access path}"""
    seen = {}
    work = [(v, p) for p, v in vals]
    while work:
        v, p = work.pop()
        for r in refs_in(v):
            loc = r.a[0]
            if loc in seen or loc in skip:
                continue
            seen[loc] = p
            c = s.st.heap.get(loc)
            if c is None:
                continue
            if c.f:
                for k, x in c.f.items():
                    work.append((x, f"{p}.{k if isinstance(k, str) else '[..]'}"))
            for x in c.items or ():
                work.append((x, p + "[..]"))
            if c.star is not None:
                work.append((c.star, p + "[..]"))
    return seen


def elements(s, v):
    """(element values, exact?) of a list/tuple/dict-of-lists value"""
    out = []
    exact = True
    for r in refs_in(v):
        c = s.st.heap.get(r.a[0])
        if c is None or c.kind not in ("list", "dict", "tuple", "inst", "defaultdict"):
            continue
        for x in c.items or ():
            out.append(x)
        if c.star is not None:
            out.append(c.star)
            exact = False
    return out, exact
