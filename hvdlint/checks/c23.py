"""Saving a population and reading it back restores everything but the callbacks."""

from ..prov import phis
from ..terms import K, is_k, kval, mk, show
from ..heap import refs_in
from ..interp import MISS, Cell

EXPLANATION = (
    "Saving and loading of the population record are interpreted with the serializer replaced by a stand-in that hands the dumped object to the "
    "loader, for populations in every stage of their life (fresh, with and without derivatives, after a row was replaced, a row selection) and "
    "with every family of callbacks present or absent. Compared: the fields of the loaded record with those of the saved one, value by value; "
    "the live record before and after saving; keys removed from the dump exist; no callback is handed to the serializer; the record read back "
    "answers everything that needs no callback without reading an attribute it does not have."
)
ASSUMPTIONS = ["the serializer restores the object it was given", "a dump the domain cannot enumerate is counted as undetermined and not reported"]

DIM = 3
CALLBACKS = ("func", "jac", "h", "h_jac", "h_hess", "g", "g_jac", "g_hess")
DUMP = {m + "." + f for m in ("pickle", "_pickle", "dill", "cloudpickle", "joblib") for f in ("dump", "dumps")}
LOAD = {m + "." + f for m in ("pickle", "_pickle", "dill", "cloudpickle", "joblib") for f in ("load", "loads")}
STAGES = ("fresh", "updated", "no derivatives", "row replaced", "row selection")

FIXTURE = '''
import pickle
class State:
    def __init__(self, n_var, n_eq, n_ieq, func, jac):
        self.n_var = n_var
        self.func = func
        self.jac = jac
        self.count = 0
    def update(self, X):
        self.X = X
    @property
    def half(self):
        return self.count + self.n_var
    def save(self, filename):
        with open(filename, "wb") as f:
            d = self.__dict__.copy()
            del d["func"], d["jac"]
            pickle.dump(d, f)
    def save_key(self, filename):
        with open(filename, "wb") as f:
            d = self.__dict__.copy()
            del d["func"], d["jac"], d["_jac"]
            pickle.dump(d, f)
    def save_live(self, filename):
        with open(filename, "wb") as f:
            d = self.__dict__
            del d["func"], d["jac"]
            pickle.dump(d, f)
    def save_less(self, filename):
        with open(filename, "wb") as f:
            pickle.dump({k: v for k, v in self.__dict__.items() if k not in ("func", "jac", "count")}, f)
    def save_callback(self, filename):
        with open(filename, "wb") as f:
            pickle.dump({k: v for k, v in self.__dict__.items() if k != "func"}, f)
    @classmethod
    def load(cls, filename):
        with open(filename, "rb") as f:
            obj = cls.__new__(cls)
            obj.__dict__.update(pickle.load(f))
            return obj
'''


def content(v, st):
    """fields of the dumped object: {name: value}, None when they cannot be enumerated"""
    if v.tag == "op" and v.a[0] == "instdict":
        v = v.a[1]
    if v.tag != "ref":
        return None
    c = st.heap.get(v.a[0])
    if c is None or c.kind not in ("dict", "inst") or c.star is not None:
        return None
    out = {}
    for k, x in (c.f or {}).items():
        if not isinstance(k, str):
            if not is_k(k):
                return None
            k = str(kval(k))
        out[k] = x
    return out


def same(s, a, b):
    return a is b or s.val(a) is s.val(b)


def roundtrip(ctx, s, st, what, save="save", reads=()):
    I = ctx.w.interp
    cls = st.a[0].cls
    box = []

    def dump(a, k, n, state):
        v = a[0] if a else k.get("obj")
        # captured as it is at this moment
        box.append((v, content(v, state)))
        return I.arr(n, K("dump"), state, extra="dump")

    def load(a, k, n, state):
        if not box or box[-1][1] is None:
            return NotImplemented
        v, f = box[-1]
        if v.tag == "ref" and state.heap[v.a[0]].kind == "inst":
            return v
        return I.alloc(n, Cell("dict", f={K(x): y for x, y in f.items()}), state, extra="loaded")

    I.ext_stubs = dict([(x, dump) for x in DUMP] + [(x, load) for x in LOAD])
    before = dict(s.fields(st))
    s.take()
    try:
        s.method(st, save, [s.param("filename", "str")])
        ev = s.take()
        ctx.ob("population saved", what)
        for e in ev:
            if e.kind == "missing_key":
                ctx.fail("save-fails", f"State.{save}", f"{what}: the key {show(e.key, 40)} is removed from the dump but is not there (KeyError)", e)
            elif e.kind == "missing_attr":
                ctx.fail("save-fails", f"State.{save}", f"{what}: the attribute {e.attr!r} is read but does not exist (AttributeError)", e)
        after = dict(s.fields(st))
        for k in sorted(set(before) | set(after)):
            ctx.ob("field of the live population compared", what)
            if k not in after or k not in before or not same(s, before[k], after[k]):
                ctx.fail("save-changes-population", f"State.{save}:{k}", f"{what}: saving {'removes' if k not in after else 'changes'} `{k}` of the live population", where=f"State.{save}")
        if not box or box[-1][1] is None:
            ctx.ob("dump not decided", what)
            return
        f = box[-1][1]
        for k, v in sorted(f.items()):
            ctx.ob("dumped field", f"{what}: {k}")
            if any(t.tag == "ref" and t.a[0].kind == "param" and t.a[0].label in CALLBACKS for t in phis(v)):
                ctx.fail("callback-dumped", f"State.{save}:{k}", f"{what}: the callback `{k}` is handed to the serializer", where=f"State.{save}")
        s.take()
        obj = s.call(I.class_attr(mk("cls", cls), "load", s.node(), s.st, s.fr), [s.param("filename", "str")])
        for e in s.take():
            if e.kind in ("missing_key", "missing_attr"):
                ctx.fail("load-fails", "State.load", f"{what}: reads {show(e.key, 40) if e.kind == 'missing_key' else e.attr} that is not there", e)
        if obj is None or obj.tag != "ref" or s.st.heap[obj.a[0]].kind != "inst":
            ctx.ob("loaded record not decided", what)
            return
        got = s.fields(obj)
        if "**restored**" in got:
            ctx.ob("loaded record not decided", what)
            return
        for k in sorted(before):
            if k in CALLBACKS or is_callback(before[k]):
                continue
            ctx.ob("field compared after loading", f"{what}: {k}")
            if k not in got or got[k] is MISS:
                ctx.fail("field-lost", f"State:{k}", f"{what}: `{k}` is not there after saving and loading", where="State.load")
            elif not same(s, before[k], got[k]):
                ctx.fail("field-changed", f"State:{k}", f"{what}: `{k}` is {show(s.val(got[k]), 60)} after saving and loading, it was {show(s.val(before[k]), 60)}", where="State.load")
        for k in sorted(set(got) - set(before)):
            ctx.ob("extra field after loading", f"{what}: {k}")
        for name in reads:
            s.take()
            clsv, _ = cls.lookup(name)
            if clsv is None:
                continue
            if clsv.tag == "op" and clsv.a[0] == "property":
                s.get(obj, name)
            else:
                s.method(obj, name, [s.param("idx", "array")] if name == "__getitem__" else [])
            ctx.ob("question to the loaded record", f"{what}: {name}")
            for e in s.take():
                if e.kind == "missing_attr" and any(r.a[0] is obj.a[0] for r in refs_in(e.base)) and e.attr not in CALLBACKS:
                    ctx.fail("field-lost", f"State:{e.attr}", f"{what}: State.{name} of the loaded record reads `{e.attr}`, which it does not have", e)
    finally:
        I.ext_stubs = {}


def is_callback(v):
    return any(t.tag == "ref" and t.a[0].kind == "param" and t.a[0].label in CALLBACKS for t in phis(v))


def questions(cls):
    out = []
    for c in cls.mro:
        for n, v in getattr(c, "ns", {}).items():
            if v.tag == "op" and v.a[0] == "property" or n in ("__getitem__", "is_feasible", "check_KKT"):
                out.append(n)
    return sorted(set(out))


def job(ctx, j):
    stage, absent = j
    s = ctx.session(f"State {stage}, callbacks absent: {absent}", set())
    st = s.new("State", [K(DIM), K(2), K(2)] + [K(None) if n in absent else s.param(n, "callback") for n in CALLBACKS])
    if stage != "fresh":
        d = stage != "no derivatives"
        s.method(st, "update", [s.param("X", "array"), K(d), K(d)])
    if stage == "row replaced":
        s.method(st, "update_one", [s.param("x", "array"), s.param("k", "int")])
    if stage == "row selection":
        st = s.method(st, "__getitem__", [s.param("idx", "array")])
    roundtrip(ctx, s, st, f"{stage}, {'all callbacks' if not absent else 'without ' + absent[0] + '*'}", reads=questions(st.a[0].cls) if stage in ("updated", "row selection") else ())


def selftest(ctx):
    from ..framework import Ctx
    from ..world import Session

    w = ctx.scratch_world({"hvd/__init__.py": "", "hvd/m.py": FIXTURE})
    got = {}
    for m in ("save", "save_key", "save_live", "save_less", "save_callback"):
        c = Ctx(ctx.prop)
        c._w = w
        s = Session(w)
        st = s.new("State", [K(DIM), K(0), K(0), s.param("func", "callback"), s.param("jac", "callback")])
        s.method(st, "update", [s.param("X", "array")])
        roundtrip(c, s, st, "fixture", m, ("half",))
        got[m] = sorted({f.rule for f in c.findings.values()})
    want = {"save": [], "save_key": ["save-fails"], "save_live": ["save-changes-population"], "save_less": ["field-lost"], "save_callback": ["callback-dumped"]}
    ctx.need(got == want, f"self-test: {got}")
    ctx.selftests.append("a missing key, a changed live record, a lost field and a dumped callback are reported; the correct round trip is not")


def run(ctx):
    ctx.rule("a loaded population has every field of the saved one except the callbacks, with the same value")
    ctx.rule("saving succeeds for every population and leaves it as it was")
    cls = ctx.w.find_class("State")
    if cls.lookup("save")[0] is None or cls.lookup("load")[0] is None:
        ctx.ob("population cannot be saved", "nothing to decide")
        return
    jobs = [(st, ab) for st in STAGES for ab in ((), CALLBACKS[2:5], CALLBACKS[5:], CALLBACKS[2:])]
    ctx.parallel(jobs, job)
    ctx.at_least("population saved", 15)
