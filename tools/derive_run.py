"""Expands the witness corpus against /repo and evaluates every generated implementation."""
import os, sys, json, threading
from concurrent.futures import ThreadPoolExecutor
import corpus, expand as ex
from spec import *
from common import *
import spec

FNS = ("schema", "type_def", "inline_schema", "inline", "docs")


class Data:
    """what one probe evaluates to"""
    def __init__(s, probe):
        s.p, s.rejected, s.val, s.eff, s.why = probe, None, {}, {}, {}


def value_of(r):
    """the single value of an evaluation, or the reason why there is none"""
    ts = r["traces"]
    if r.get("incomplete"): return None, "incomplete: " + str(r["incomplete"])[:200]
    if not ts: return None, "no trace"
    bad = [t for t in ts if t["kind"] != "value"]
    if bad: return None, f"{bad[0]['kind']}: {bad[0]['text']}"
    if len({json.dumps([t["text"], t["value"]], sort_keys=True) for t in ts}) != 1: return None, "several values"
    return ts[0], None


def tyname(n):
    u = spec.unraw(n)
    return n if u in corpus.KEYWORDS else u


class DeriveRun:
    def __init__(self, ctx, select=lambda p: True, fns=FNS, extra_jobs=None, inventory=False, comps=True):
        self.ctx = ctx
        ctx.start_engine()
        allp = corpus.build(REPO, ctx.thorough, SEED)
        self.probes = [p for p in allp if select(p)]
        if not self.probes: raise CheckError("empty corpus")
        n = 8 if len(self.probes) > 400 else 4
        parts = [self.probes[i::n] for i in range(n)]
        parts = [p for p in parts if p]
        rend = [corpus.render(p) for p in parts]
        self.files = ex.expand(REPO, ctx.work, [r[0] for r in rend])
        self.data = {p.id: Data(p) for p in self.probes}
        self.global_errors = []
        for part, (src, lines), (path, errs) in zip(parts, rend, self.files):
            for e in errs:
                hit = False
                for pid, (a, b) in lines.items():
                    if any(a <= l <= b for l in e["lines"]):
                        hit = True
                        if self.data[pid].rejected is None: self.data[pid].rejected = []
                        self.data[pid].rejected.append(e["message"])
                if not hit: self.global_errors.append(e["message"])
        if self.global_errors:
            raise CheckError("the witness program does not expand: " + "; ".join(self.global_errors[:5]))
        self.comp = {"schema": {}, "type": {}}
        self.comp_why = {}
        self.inventory, self.meta = [], {"files": [], "functions": 0, "visited": set(), "evaluations": 0}
        self.extra = {}
        ctx.engine()

        def go(i):
            jobs = []
            want = set()
            for p in parts[i]:
                d = self.data[p.id]
                if d.rejected is not None: continue
                for f in fns:
                    jobs.append(dict(id=f"{p.id}|{f}", op="assoc", ty=tyname(p.spec.name), fn=f, trait="zod_core::ZodType", module=f"corpus::{p.id}"))
                want |= set(p.spec.component_types())
            if comps:
                for t in sorted(want):
                    for f in ("inline_schema", "inline"):
                        jobs.append(dict(id=f"C|{t}|{f}", op="assoc", ty=t, fn=f, trait="zod_core::ZodType", module="corpus"))
            for k, j in (extra_jobs(i) if extra_jobs else []): jobs.append(dict(j, id="X|" + k))
            if inventory:
                jobs.append(dict(id="INV", op="registrations", inventory=True, methods=["namespace", "name"] + (["schema", "type_def"] if inventory == "deep" else [])))
            return ctx.eval(self.files[i][0], jobs, f"part{i}")
        with ThreadPoolExecutor(8) as pool: outs = list(pool.map(go, range(len(parts))))
        self.texts = {}
        for i, o in enumerate(outs):
            if o["errors"]: raise CheckError("sources not readable: " + str(o["errors"])[:500])
            self.meta["files"] = o["files"]; self.meta["functions"] = max(self.meta["functions"], o["functions"])
            self.meta["visited"] |= set(o["visited"])
            self.meta["evaluations"] += len(o["results"])
            for r in o["results"]:
                v, why = value_of(r)
                k = r["id"].split("|")
                if k[0] == "C":
                    key = "schema" if k[2] == "inline_schema" else "type"
                    if v is None or v["text"] is None: self.comp_why[(key, k[1])] = why or "no text"
                    else: self.texts[("C", key, k[1])] = (key, v["text"])
                elif k[0] == "X": self.extra[r["id"][2:]] = (r, v, why)
                elif k[0] == "INV": self.inventory.append((i, r, v, why))
                else:
                    d = self.data[k[0]]
                    d.eff[k[1]] = [e for t in r["traces"] for e in t.get("effects", [])]
                    if v is None: d.why[k[1]] = why
                    else: d.val[k[1]] = v
        self.rejected = [d for d in self.data.values() if d.rejected is not None]
        ctx.counts["programs"] = len(self.probes)
        ctx.counts["evaluations"] = self.meta["evaluations"]

    def shapes(self, schema=True, typ=True):
        """structure of every evaluated text"""
        jobs, idx = [], {}

        def put(kind, text, where):
            k = (kind, text)
            if k not in idx:
                idx[k] = len(jobs); jobs.append({"id": len(jobs), "kind": kind, "text": text})
            where.append(idx[k])
        refs = []
        for k, (key, text) in self.texts.items():
            w = []; put("schema" if key == "schema" else "type", text, w); refs.append((("comp",) + k[1:], w[0]))
        for pid, d in self.data.items():
            for f, kind in (("schema", "schema"), ("inline_schema", "schema"), ("inline", "type"), ("type_def", None)):
                if f not in d.val: continue
                v = d.val[f]
                if f == "type_def":
                    vv = v["value"]
                    if not (isinstance(vv, dict) and vv.get("variant")): d.why[f] = "no TsTypeDef"; continue
                    kd = "interface" if vv["variant"] == "Interface" else "type"
                    d.tdkind = vv["variant"]
                else: kd = kind
                if v["text"] is None: d.why[f] = "no text"; continue
                w = []; put(kd, v["text"], w); refs.append(((pid, f), w[0]))
        res = self.ctx.tsjobs({"jobs": jobs}, "shapes")["results"]
        self.shape, self.parse_errors = {}, {}
        for k, i in refs:
            r = res[i]
            if "shape" in r: self.shape[k] = r["shape"]
            else: self.parse_errors[k] = r["error"]
        for k, s in self.shape.items():
            if k[0] == "comp": self.comp[k[1]][k[2]] = s
        self.ctx.counts["texts parsed"] = len(jobs)

    def comp_fn(self, mode):
        c = self.comp[mode]

        def f(t):
            if t not in c: raise Undecided(f"component {t}: {self.comp_why.get((mode, t)) or self.parse_errors.get(('comp', mode, t))}")
            return c[t]
        return f

    def each(self):
        """accepted probes"""
        for d in self.data.values():
            if d.rejected is None: yield d


class Undecided(Exception): pass
