"""Common machinery of the property checks: context, findings, evidence, known findings, exit codes."""

import json
import os
import pickle
import sys
import time
import traceback

from .interp import AnalysisError
from .terms import show
from .world import Session, World

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HVD_REPO", "/repo")


class Finding:
    def __init__(self, rule, construct, where, message, path=""):
        self.rule, self.construct, self.where, self.message, self.path = rule, construct, where, message, path

    @property
    def key(self):
        return f"{self.rule}::{self.construct}"

    def as_dict(self):
        return dict(rule=self.rule, construct=self.construct, where=self.where, message=self.message, call_path=self.path, key=self.key)


class Ctx:
    def __init__(self, prop, tier="quick", seed=1, root=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.root = root or REPO
        self.findings = {}
        self.counts = {}
        self.samples = {}
        self.rules = []
        self.assumptions = []
        self.scenarios = []
        self.errors = []
        self._w = None
        self.extra = {}
        self.seen_fns = set()
        self.selftests = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- the analysed program -------------------------------------------------
    @property
    def w(self):
        if self._w is None:
            self._w = load_world(self.root)
        return self._w

    def session(self, name, opaque=()):
        self.scenarios.append(name)
        self.w.interp.opaque = frozenset(opaque) | self.w.heavy()
        self.w.interp.ext_stubs = {}
        self.w.interp.precise = self.w.interp.raised = False
        self.w.interp.stubs, self.w.interp.oracle, self.w.interp.unroll_while = {}, None, 0
        return Session(self.w)

    # -- results -----------------------------------------------------------------
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ob(self, kind, sample=None, n=1):
        """one discharged or violated obligation of the given kind was examined"""
        self.counts[kind] = self.counts.get(kind, 0) + n
        if sample is not None:
            s = self.samples.setdefault(kind, [])
            if len(s) < 6 and sample not in s:
                s.append(sample if len(str(sample)) < 400 else str(sample)[:400])

    def fail(self, rule, construct, message, ev=None, where=None):
        if ev is not None:
            where = where or f"{ev.where} ({ev.func})"
            path = ev.path()
        else:
            path = ""
        f = Finding(rule, construct, where or "?", message, path)
        self.findings.setdefault(f.key, f)

    def need(self, cond, msg):
        if not cond:
            raise AnalysisError(msg)

    def at_least(self, kind, n):
        """instance-count guard: the rule must have had something to decide"""
        got = self.counts.get(kind, 0)
        if got < n:
            raise AnalysisError(f"only {got} instances of '{kind}' were found (expected at least {n}); the anchors of this rule have moved")

    def parallel(self, jobs, fn, weight=None):
        """run fn(ctx, job) for every job in forked workers and merge what they record (order independent)"""
        jobs = list(jobs)
        self.w  # load once, before forking
        n = max(1, min(len(jobs), int(os.environ.get("HVD_JOBS", "0")) or min(8, os.cpu_count() or 1)))
        if n == 1:
            for j in jobs:
                fn(self, j)
            return
        if weight:
            jobs.sort(key=lambda j: -weight(j))
        kids = []
        sys.stdout.flush()
        # a shared queue of job numbers: a pipe holding one byte pair per job
        qr, qw = os.pipe()
        os.write(qw, b"".join(i.to_bytes(2, "big") for i in range(len(jobs))))
        os.close(qw)
        for _ in range(n):
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    sub = Ctx(self.prop, self.tier, self.seed, self.root)
                    sub._w = self._w
                    try:
                        while True:
                            b = os.read(qr, 2)
                            if len(b) < 2:
                                break
                            fn(sub, jobs[int.from_bytes(b, "big")])
                        err = None
                    except AnalysisError as e:
                        err = ("analysis", str(e))
                    except BaseException:
                        err = ("internal", traceback.format_exc())
                    data = pickle.dumps((sub.findings, sub.counts, sub.samples, sub.scenarios, sub.extra,
                                         {k for k in sub.w.interp.fn_seen}, err))
                    with os.fdopen(wfd, "wb") as fh:
                        fh.write(data)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    os._exit(code)
            os.close(wfd)
            kids.append((pid, r))
        os.close(qr)
        errs = []
        for pid, r in kids:
            with os.fdopen(r, "rb") as fh:
                data = fh.read()
            os.waitpid(pid, 0)
            if not data:
                errs.append(("internal", "a worker died"))
                continue
            fi, co, sa, sc, ex, seen, err = pickle.loads(data)
            for k, f in fi.items():
                self.findings.setdefault(k, f)
            for k, c in co.items():
                self.counts[k] = self.counts.get(k, 0) + c
            for k, l in sa.items():
                mine = self.samples.setdefault(k, [])
                for x in l:
                    if len(mine) < 6 and x not in mine:
                        mine.append(x)
            self.scenarios += sc
            for k, v in ex.items():
                self.extra.setdefault(k, set()).update(v)
            self.seen_fns |= seen
            if err:
                errs.append(err)
        self.scenarios.sort()
        for k in self.samples:
            self.samples[k].sort(key=str)
        for kind, msg in errs:
            if kind == "internal":
                raise RuntimeError(msg)
        if errs:
            raise AnalysisError(errs[0][1])

    def scratch_world(self, files):
        """a tiny program for the positive self-test of a rule"""
        return load_world(None, files)


def load_world(root, overlay=None):
    w = World(root=root, overlay=overlay)
    w.cur_st = w.base
    w.load_all()
    return w


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p, encoding="utf-8"):
        line = line.strip()
        if line.startswith("finding:"):
            body = line[len("finding:"):].strip()
            prop, rest = body.split(None, 1)
            prop = prop.split("=", 1)[1]
            key, _, desc = rest.partition(" || ")
            out.append((prop, key.strip()[len("key="):] if key.strip().startswith("key=") else key.strip(), desc.strip()))
    return out


def run_check(module, prop, tier, seed):
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    err = None
    try:
        if hasattr(module, "selftest"):
            module.selftest(ctx)
        module.run(ctx)
    except AnalysisError as e:
        err = str(e)
    known = {k: d for p, k, d in known_findings() if p == prop}
    new = [f for f in ctx.findings.values() if f.key not in known]
    old = [f for f in ctx.findings.values() if f.key in known]
    for f in old:
        print(f"KNOWN-FINDING: property={prop} {known[f.key]} [{f.key}]")
    w = ctx._w
    reached = len(set(w.interp.fn_seen) | ctx.seen_fns) if w else 0
    cov = {
        "explanation": module.EXPLANATION,
        "obligations_examined": dict(sorted(ctx.counts.items())),
        "obligations": sum(ctx.counts.values()),
        "discharged": sum(ctx.counts.values()) - len(new) - len(old),
        "samples": [f"{k}: {x}" for k, v in ctx.samples.items() for x in v],
        "rules": ctx.rules or list(getattr(module, "RULES", ())),
        "scenarios": ctx.scenarios[:200],
        "scenario_count": len(ctx.scenarios),
        "functions_analysed": reached,
        "modules": len(w.modules) if w else 0,
        "source_digest": w.digest() if w else "",
        "positive_selftests": ctx.selftests,
        "known_findings_seen": [f.as_dict() for f in old],
        "analysis_errors": [err] if err else [],
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": list(getattr(module, "ASSUMPTIONS", ())) + ctx.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")
    if new:
        rp = os.path.join(VERIF, "evidence", f"{prop}.violations.json")
        with open(rp, "w", encoding="utf-8") as fh:
            json.dump([f.as_dict() for f in new], fh, indent=1)
            fh.write("\n")
        for f in new[:40]:
            print(f"  [{f.rule}] {f.where}: {f.message}" + (f"  (via {f.path})" if f.path else ""))
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if err:
        print(f"ANALYSIS-ERROR property={prop} {err}")
        return 2
    print(f"OK property={prop} obligations={cov['obligations']} scenarios={len(ctx.scenarios)} functions={reached} wall={ev['wall_s']}s")
    return 0


def short(t, n=120):
    return show(t, n)
