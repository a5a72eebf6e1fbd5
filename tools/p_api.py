"""S11: every text that can be generated is TypeScript that type-checks against zod's declarations."""
import re
from common import *
from derive_run import *
from p_derive import guard, registrations, replay_detail, rust_of, generic_types, tuple_types
import p_rpc, sdk
from spec import *

IDENT = re.compile(r"[A-Za-z_$\u0080-\uffff][\w$]*$")
CONTAINERS = ["Vec<{}>", "Option<{}>", "Box<{}>", "({}, zq::T0)", "Result<{}, zq::T0>", "[{}; 2]", "std::collections::HashMap<String, {}>", "std::collections::BTreeMap<{}, zq::T1>", "std::collections::HashSet<{}>", "Vec<Option<Box<{}>>>",
              "Option<Vec<{}>>", "Option<Option<{}>>", "Result<Option<{}>, Vec<{}>>", "Option<(zq::T0, {})>", "Vec<Result<{}, u8>>", "std::collections::HashMap<{}, Option<{}>>", "(Option<{}>, Option<{}>)"]
PRIMS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "bool", "char", "String", "&'static str", "()",
         "std::net::IpAddr", "std::net::Ipv4Addr", "std::net::Ipv6Addr", "smol_str::SmolStr", "ordered_float::NotNan<f32>", "ordered_float::NotNan<f64>"]


def pieces(texts):
    """(name, schema, type) -> one TypeScript module per entry, lines known"""
    out, where, line = ['import { z } from "zod";'], [], 2
    for key, decls in texts:
        t = "\n".join(decls)
        n = t.count("\n") + 1
        where.append((line, line + n - 1, key))
        out.append(t); line += n
    return "\n".join(out) + "\n", where


def diags_by(diags, where):
    import bisect
    starts = [a for a, _, _ in where]
    for d in diags:
        i = bisect.bisect_right(starts, d["line"]) - 1
        if i < 0 or not (where[i][0] <= d["line"] <= where[i][1]): yield None, d
        else: yield where[i][2], d


def collide(sp):
    rule = de_name(sp.a.get("rename_all")) if sp.kind == "struct" else None
    for fs, r in [(sp.fields, rule)] + [(v.fields, de_name(v.a.get("rename_all")) or de_name(sp.a.get("rename_all_fields"))) for v in sp.variants]:
        ns = [f.wire(r) for f in fs if f.name and not f.skipped()]
        if len(ns) != len(set(ns)): return True
    return False


def check_S11(ctx):
    fns = ("schema", "type_def", "inline_schema", "inline")
    types = []
    for t, *_ in generic_types(): types.append(t)
    types += [t for t, _ in tuple_types()]
    for c in CONTAINERS:
        for p in ["zq::T2", "crate::base::Plain", "crate::base::En"] + PRIMS[:19]: types.append(c.replace("{}", p))
    types += PRIMS
    types = list(dict.fromkeys(types))

    def jobs(i):
        return [(f"{t}|{f}", dict(op="assoc", ty=t, fn=f, trait="zod_core::ZodType", module="corpus")) for t in types for f in fns] if i == 0 else []
    run = DeriveRun(ctx, fns=fns, extra_jobs=jobs, inventory=True)
    guard(run, ctx)
    reg = registrations(run, ctx)
    fix = lambda t: p_rpc.subst(t)
    texts, stubs = [], []

    def typedef(v):
        vv = v["value"]
        if not (isinstance(vv, dict) and vv.get("variant")): return None
        return "interface" if vv["variant"] == "Interface" else "type"
    # exported declarations, in the namespaces they are registered for
    for d in run.each():
        names = reg.get(d.p.id, [])
        if len(names) != 1 or not IDENT.match(names[0][1]): ctx.undecide(d.p.id, f"registered as {names}"[:200]); continue
        ns, nm = names[0][:2]
        o = []
        for f in ("schema", "type_def", "inline_schema", "inline"):
            v = d.val.get(f)
            why = d.why.get(f, "no text") if v is None or v["text"] is None else None
            if not why:
                t = fix(v["text"])
                m = p_rpc.MARK.search(t)
                if m: why = "depends on " + m.group(1)[:100]
            if why:
                # others may refer to it
                if f == "schema": stubs.append(f"export namespace {ns} {{ export const {nm}: any = undefined; }}")
                if f == "type_def": stubs.append(f"export namespace {ns} {{ export type {nm} = any; }}")
                ctx.undecide(f"{d.p.id}.{f}", why)
                continue
            if f == "schema": o.append((f, f"export namespace {ns} {{ export const {nm} =\n{t};\n}}"))
            elif f == "type_def":
                k = typedef(v)
                if k is None:
                    stubs.append(f"export namespace {ns} {{ export type {nm} = any; }}")
                    ctx.undecide(f"{d.p.id}.{f}", "no TsTypeDef")
                    continue
                o.append((f, f"export namespace {ns} {{ export interface {nm}\n{t}\n}}" if k == "interface" else f"export namespace {ns} {{ export type {nm} =\n{t};\n}}"))
            elif f == "inline_schema": o.append((f, f"export const s_{d.p.id} =\n{t};"))
            else: o.append((f, f"export type t_{d.p.id} =\n{t};"))
            ctx.count("expressions")
        for f, t in o: texts.append(((d, f), [t]))
    # what other types expand to in place
    n = 0
    for t in types:
        for f in fns:
            r, v, why = run.extra[f"{t}|{f}"]
            if v is None or v["text"] is None:
                if why and "no implementation" not in why: ctx.undecide(f"{t}.{f}", why)
                continue
            x = fix(v["text"])
            if p_rpc.MARK.search(x): ctx.undecide(f"{t}.{f}", "depends on " + p_rpc.MARK.search(x).group(1)[:100]); continue
            n += 1
            ctx.count("expressions")
            if "schema" in f: texts.append(((t, f), [f"export const b_{n} =\n{x};"]))
            elif f == "type_def" and typedef(v) == "interface": texts.append(((t, f), [f"export interface b_{n}\n{x}"]))
            else: texts.append(((t, f), [f"export type b_{n} =\n{x};"]))
    if not texts: raise CheckError("no generated text could be evaluated")
    # declarations the corpus types refer to that are not witnesses themselves
    base = []
    for ns, nm in sorted({(x[0], x[1]) for x in reg.get("base", [])}): base.append(f"export namespace {ns} {{ export const {nm} = z.object({{b: z.string()}}); export type {nm} = {{b: string}}; }}")
    head = [(None, ["\n".join(base + stubs)]), (None, [p_rpc.ZQ])]
    chunks = [[] for _ in range(8)]
    slot = {}
    for k, ds in texts: chunks[slot.setdefault(id(k[0]) if not isinstance(k[0], str) else k[0], len(slot) % 8)].append((k, ds))

    def one(i):
        text, where = pieces(head + chunks[i])
        r = ctx.tsjobs({"check": {"files": {"all.ts": text}, "options": {"noImplicitAny": False, "lib": ["lib.es2022.d.ts"]}}}, f"api{i}")
        return list(diags_by(r["check"], where))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as pool: found = [x for l in pool.map(one, range(8)) for x in l]
    ctx.counts["expressions compared"] = ctx.counts.pop("expressions")
    seen = set()
    for key, d in found:
        if key is None: ctx.violate("declarations", f"the declarations do not fit together: {d['message']}", text=d["node"]); continue
        k, f = key
        where = (d.get("parent") or d.get("node") or "")[:160]
        if isinstance(k, str):
            if (k, f) in seen: continue
            seen.add((k, f))
            ctx.violate(f"builtin:{k}:{f}", f"{f} of {k} is no well-typed TypeScript: {d['message'][:200]} in {where}", program=k, text=run.extra[f"{k}|{f}"][1]["text"], code=d["code"])
            continue
        # fields whose names fall together are the witness's own doing
        if d["code"] in (1117, 2300, 2717) and collide(k.p.spec): ctx.count("witnesses with colliding names"); continue
        flat = [fix(run.texts[("C", "schema", x.ty)][1]) for x in k.p.spec.fields if x.a.get("flatten") and ("C", "schema", x.ty) in run.texts]
        ext = f == "schema" and d["code"] == 2345 and (d.get("parent") or "").endswith(".extend(" + d["node"] + ")") and d["node"] in flat + [x + ".optional()" for x in flat]
        cl = f"flatten-extend:{k.p.family}" if ext else f"{k.p.family}:{f}:{d['code']}"
        if (k.p.id, f, cl) in seen: continue
        seen.add((k.p.id, f, cl))
        ctx.violate(cl, f"{k.p.family}: {f} of {k.p.spec.name} is no well-typed TypeScript: {d['message'][:200]} in {where}", **replay_detail(ctx, k, f, tags=sorted(k.p.tags), code=d["code"]))
    # whole SDKs
    mis, label = sdk.misnamed()
    sr = p_rpc.SdkRun(ctx, sdk.worlds(ctx.thorough, SEED) + [mis])
    for (wid, bid), (w, b, diags, binds, text) in p_rpc.ts_programs(ctx, sr).items():
        ctx.count("SDKs compared")
        lines = text.split("\n")
        unserved = {n.name() for n in w.namespaces} - {n.name() for _, n in b.fields}
        if w is mis and diags:
            d = diags[0]
            ctx.violate("misnamed:" + label[bid].replace(" ", "_"), f"the SDK of a backend with a {label[bid]} is no well-typed TypeScript: {d['message'][:200]}", text="\n".join(lines[max(0, d["line"] - 2):d["line"] + 3]), code=d["code"])
            continue
        for d in diags:
            # a backend that does not serve a namespace its types refer to
            if d["code"] in (2304, 2503) and d["node"] in unserved: continue
            ctx.violate(f"sdk:{d['code']}", f"the SDK of backend {bid} of {wid} is no well-typed TypeScript: {d['message'][:250]} in {(d.get('parent') or d.get('node') or '')[:160]}", text="\n".join(lines[max(0, d["line"] - 6):d["line"] + 5]), code=d["code"])
    ctx.counts["programs"] = len(run.probes) + len(sr.worlds)
    return run
