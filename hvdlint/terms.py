"""Hash-consed abstract values / value numbers used by the abstract interpreter.

Every abstract value is an interned ``T(tag, args)``; structural equality is identity.

tags
  k      constant                      (typename, value)
  ext    external dotted object        (path,)
  mod    repository module             (name,)
  fn     repository function           (FuncObj,)
  cls    repository class              (ClassObj,)
  bound  bound repository method       (self, fn)
  extm   method of an external value   (receiver, name)
  wrap   function transformer          (kind, f, args, kwargs)   partial / jit / vmap / jacrev ...
  super  zero-argument super           (ClassObj, self)
  ref    pointer to heap cell          (Loc, viewpath)
  tup    tuple                         items
  sl     slice                         (a, b, c)
  op     pure value                    (name, *args)
  phi    one of several                frozenset
  top    unknown                       frozenset of leaves
  missing / bottom
"""


class Loc:
    """Identity of an abstract heap cell (allocation site x calling context)."""

    __slots__ = ("key", "kind", "label", "root", "cls", "node", "n", "origin", "_hash")
    _n = 0

    def __init__(self, key, kind, label="", root=None, cls=None, node=None, origin=None):
        self.key, self.kind, self.label, self.root, self.cls, self.node = key, kind, label, root, cls, node
        self.origin = origin
        Loc._n += 1
        self.n = Loc._n
        # independent of addresses: the order in which sets of values are visited is the same in every run
        self._hash = hash((kind, label, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))

    def __hash__(self):
        return self._hash

    def __repr__(self):
        return f"<{self.kind}:{self.label or self.n}>"


class T:
    __slots__ = ("tag", "a", "_lv", "_hash", "_sz", "n")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._hash

    def __lt__(self, o):  # stable order for canonical forms
        return self.n < o.n


_table = {}
_skeys = {}


def mk(tag, *a):
    key = (tag, a)
    t = _table.get(key)
    if t is None:
        t = T()
        t.tag, t.a = tag, a
        t._lv = None
        t._hash = hash(key)
        t._sz = None
        t.n = len(_table)
        _table[key] = t
    return t


def reset():
    _table.clear()
    _skeys.clear()


def K(c):
    if isinstance(c, float) and c != c:
        return mk("k", "nan", "nan")
    return mk("k", type(c).__name__, c)


NONE = None  # set by init()


def is_k(t):
    return t.tag == "k"


def kval(t):
    if t.a[0] == "nan":
        return float("nan")
    return t.a[1]


def Ext(p):
    return mk("ext", p)


def Op(name, *args):
    return mk("op", name, *args)


def Tup(items):
    return mk("tup", *items)


MISSING = ("missing",)


def missing():
    return mk("missing")


def Phi(vals):
    out = set()
    leaves = set()
    top = False
    for v in vals:
        if v.tag == "phi":
            out |= v.a[0]
        else:
            out.add(v)
    if not out:
        return Top(())
    if len(out) == 1:
        return next(iter(out))
    tops = [v for v in out if v.tag == "top"]
    if len(tops) > 1:
        lv = frozenset().union(*(t.a[0] for t in tops))
        out = {v for v in out if v.tag != "top"}
        out.add(Top(lv))
        if len(out) == 1:
            return next(iter(out))
    if len(out) > 24:
        out = _merge_views(out)
    if len(out) > 16:
        # keep pointers/functions precise, collapse the pure terms
        keep = {v for v in out if v.tag in ("ref", "fn", "cls", "bound", "wrap", "missing")}
        rest = out - keep
        lv = frozenset().union(*(leaves_of(t) for t in rest)) if rest else frozenset()
        out = keep | ({Top(lv)} if rest else set())
        if len(out) == 1:
            return next(iter(out))
    return mk("phi", frozenset(out))


def viewref(loc, path):
    """a view of a cell; very long chains of views (only loops build them) are summarised"""
    if len(path) > 12:
        lv = frozenset(x for p in path[6:] for x in leaves_of(p) if x.tag != "ref")
        sure = not any(p.a[0] == "idx?" for p in path[6:])
        path = path[:6] + (Op("idx" if sure else "idx?", Top(lv)),)
    return mk("ref", loc, path)


def _merge_views(vals):
    """keep a choice between many views of the same storage finite: one summary view per cell"""
    by = {}
    out = set()
    for v in vals:
        if v.tag == "ref" and len(v.a[1]) > 0:
            by.setdefault(v.a[0], []).append(v)
        else:
            out.add(v)
    for loc, vs in by.items():
        if len(vs) <= 4:
            out.update(vs)
            continue
        lv = frozenset().union(*(leaves_of(p) for v in vs for p in v.a[1])) - frozenset(vs)
        lv = frozenset(x for x in lv if x.tag != "ref")
        sure = any(all(p.a[0] not in ("idx?",) for p in v.a[1]) for v in vs)
        out.add(mk("ref", loc, (Op("idx" if sure else "idx?", Top(lv)),)))
    return out


def Top(leaves):
    return mk("top", frozenset(leaves))


TRACED = "<traced array>"
STATIC_OPS = {"len", "dim", "isinstance", "hasattr", "type", "callable", "shape", "ndim", "size", "id"}
STATIC_ATTRS = {"shape", "ndim", "dtype", "size", "itemsize", "nbytes", "__class__", "__name__", "__len__", "weak_type", "sharding", "aval"}


def static_of_tracer(t):
    """the operations whose result is an ordinary Python value although their operand is a tracer"""
    o = t.a[0]
    if o in STATIC_OPS:
        return True
    if o == "attr":
        return len(t.a) > 2 and isinstance(t.a[2], T) and t.a[2].tag == "k" and kval(t.a[2]) in STATIC_ATTRS
    if o == "cmp":
        return t.a[1] in ("Is", "IsNot")
    if o == "call" and isinstance(t.a[1], T) and t.a[1].tag == "ext":
        return t.a[1].a[0].split(".")[-1] in ("shape", "ndim", "size", "len", "isinstance")
    return False


def leaves_of(t):
    """symbols a value depends on"""
    if t._lv is not None:
        return t._lv
    tag = t.tag
    if tag == "op" and t.a[0] == "sym":
        r = frozenset([t])
    elif tag == "top":
        r = t.a[0]
    elif tag == "phi":
        r = frozenset().union(*(leaves_of(x) for x in t.a[0]))
    elif tag == "ref":
        r = frozenset([t])
        for v in t.a[1]:
            r |= leaves_of(v)
    elif tag in ("k", "ext", "mod", "fn", "cls", "missing"):
        r = frozenset()
    else:
        r = frozenset()
        for x in t.a:
            r |= _lv_any(x)
        if tag == "op" and t.a[0] == "call" and len(t.a) > 1 and isinstance(t.a[1], T) and t.a[1].tag == "ext":
            src = source_of(t.a[1].a[0])
            if src:
                r |= frozenset([Op("sym", K(src))])
        if tag == "op" and t.a[0] == "rng":
            r |= frozenset([Op("sym", K(RANDOM))])
        if tag == "op":
            # the mark of a JAX tracer (c09) survives summarising, except through its static attributes
            if t.a[0] == "traced":
                r |= frozenset([Op("sym", K(TRACED))])
            elif r and Op("sym", K(TRACED)) in r and static_of_tracer(t):
                r -= frozenset([Op("sym", K(TRACED))])
    t._lv = r
    return r


RANDOM, CLOCK = "~random", "~environment"


def source_of(name):
    """nondeterminism source an external call stands for"""
    if name.startswith(("numpy.random.", "random.", "secrets.", "scipy.stats.qmc.")) or name in ("os.urandom", "os.getrandom", "uuid.uuid4"):
        return RANDOM
    if name.startswith(("time.", "datetime.", "uuid.", "socket.", "platform.", "getpass.")) and name not in ("time.sleep",):
        return CLOCK
    if name in ("os.getpid", "os.getenv", "os.environ.get", "os.getcwd", "os.times", "os.cpu_count", "os.getlogin", "builtins.id", "builtins.hash", "threading.get_ident"):
        return CLOCK
    return None


def _lv_any(x):
    if isinstance(x, T):
        return leaves_of(x)
    if isinstance(x, (tuple, frozenset)):
        r = frozenset()
        for y in x:
            r |= _lv_any(y)
        return r
    return frozenset()


def size_of(t):
    if t._sz is not None:
        return t._sz
    n = 1
    stack = []

    def add(x):
        nonlocal n
        if isinstance(x, T):
            n += size_of(x)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                add(y)

    for x in t.a:
        add(x)
    t._sz = n
    return n


def subterms(t, seen=None):
    """all sub-terms (each once)"""
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for x in t.a:
        yield from _sub_any(x, seen)


def _sub_any(x, seen):
    if isinstance(x, T):
        yield from subterms(x, seen)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            yield from _sub_any(y, seen)


def skey(t):
    """total order used for canonical forms (creation order within the run)"""
    return t.n


def show(t, limit=400):
    s = _show(t, 0)
    return s if len(s) <= limit else s[:limit] + "..."


def _show(t, d):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(_show(x, d + 1) for x in t) + ")"
        if isinstance(t, frozenset):
            return "{" + ",".join(sorted(_show(x, d + 1) for x in t)) + "}"
        return str(t)
    if d > 30:
        return "…"
    tag, a = t.tag, t.a
    if tag == "k":
        return repr(a[1])
    if tag == "ext":
        return a[0]
    if tag == "mod":
        return f"module {a[0]}"
    if tag in ("fn", "cls"):
        return a[0].qual
    if tag == "bound":
        return f"{_show(a[0], d + 1)}.{_show(a[1], d + 1)}"
    if tag == "extm":
        return f"{_show(a[0], d + 1)}.{a[1]}"
    if tag == "wrap":
        return f"{a[0]}<{_show(a[1], d + 1)}>"
    if tag == "ref":
        s = repr(a[0])
        for v in a[1]:
            s += "[" + _show(v, d + 1) + "]"
        return s
    if tag == "tup":
        return "(" + ", ".join(_show(x, d + 1) for x in a) + ")"
    if tag == "sl":
        return ":".join("" if (is_k(x) and kval(x) is None) else _show(x, d + 1) for x in a)
    if tag == "phi":
        return "φ{" + " | ".join(sorted(_show(x, d + 1) for x in a[0])) + "}"
    if tag == "top":
        return "⊤{" + ",".join(sorted(_show(x, d + 1) for x in a[0])) + "}"
    if tag == "op":
        if a[0] == "sym":
            return f"${a[1]}"
        if a[0] == "sub":
            return f"{_show(a[1], d + 1)}[{_show(a[2], d + 1)}]"
        return f"{a[0]}(" + ", ".join(_show(x, d + 1) for x in a[1:]) + ")"
    return tag
