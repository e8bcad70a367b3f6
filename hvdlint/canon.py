"""Session-independent canonical forms of values and object graphs, for comparing two abstract runs."""

import hashlib

from .heap import reach
from .interp import ClassObj, FuncObj
from .terms import Loc, T

UNORDERED = {"add", "mul", "and", "or", "sym"}


def h(*parts):
    return hashlib.blake2b("\x00".join(parts).encode(), digest_size=12).hexdigest()


class Canon:
    """Colour refinement over the heap: the colour of an object is refined from the colours of what it holds."""

    def __init__(self, s, roots, skip=frozenset(), rounds=4, pre=None):
        self.s, self.skip, self.pre = s, skip, pre or (lambda v: v)
        self.colour, self.memo = {}, {}
        for loc in reach(s, [("", v) for v in roots]):
            self.colour[loc] = self.base(loc)
        for _ in range(rounds):
            new = {loc: self.refine(loc) for loc in list(self.colour)}
            self.colour, self.memo = new, {}

    def base(self, loc):
        if loc.kind == "param":
            return h("param", str(loc.label))
        cls = loc.cls
        return h(str(loc.kind), getattr(cls, "name", str(cls)) if cls is not None else "")

    def loc(self, loc):
        c = self.colour.get(loc)
        if c is None:
            c = self.colour[loc] = self.base(loc)
        return c

    def refine(self, loc):
        c = self.s.st.heap.get(loc)
        parts = [self.base(loc)]
        if c is None:
            return h(*parts)
        fs = []
        for k, v in (c.f or {}).items():
            if k in self.skip:
                continue
            kn = k if isinstance(k, str) else self.c(k)
            if kn in self.skip:
                continue
            fs.append(kn + "=" + self.c(self.pre(v)))
        parts += sorted(fs)
        for x in c.items or ():
            parts.append(self.c(self.pre(x)))
        if c.star is not None:
            parts.append("*" + self.c(self.pre(c.star)))
        val = getattr(c, "val", None)
        if val is not None:
            parts.append("v" + self.c(self.pre(val)))
        return h(*parts)

    def c(self, v):
        if isinstance(v, T):
            m = self.memo.get(v)
            if m is not None:
                return m
            if v.tag == "op" and v.a[0] == "mark":
                out = h("mark", *[self.c(x) for x in v.a[2:]])
            elif v.tag == "op" and v.a[0] == "rng":
                out = h("rng", str(v.a[1])[:40])
            elif v.tag == "op" and v.a[0] in UNORDERED:
                out = h("op", v.a[0], *sorted(self.c(x) for x in v.a[1:]))
            elif v.tag == "op" and v.a[0] == "cmp" and v.a[1] in ("Eq", "NotEq"):
                out = h("cmp", str(v.a[1]), *sorted(self.c(x) for x in v.a[2:]))
            elif v.tag == "k":
                out = h("k", repr(v.a))
            else:
                out = h(v.tag, *[self.c(x) for x in v.a])
            self.memo[v] = out
            return out
        if isinstance(v, Loc):
            return self.loc(v)
        if isinstance(v, FuncObj):
            return "fn " + v.qual
        if isinstance(v, ClassObj):
            return "cls " + v.name
        if isinstance(v, frozenset):
            return h("set", *sorted({self.c(x) for x in v}))
        if isinstance(v, (tuple, list)):
            return h("seq", *[self.c(x) for x in v])
        if isinstance(v, dict):
            return h("dict", *sorted(self.c(k) + self.c(x) for k, x in v.items()))
        return repr(v) if isinstance(v, (str, int, float, bool, type(None), bytes)) else type(v).__name__
