"""Properties of namespaces, backends and the generated SDK."""
import json, re
from concurrent.futures import ThreadPoolExecutor
from common import *
from derive_run import value_of, tyname, Undecided
from spec import *
import corpus, expand as ex, sdk, spec

CLIENT = "::zod::rpc::clients::WebsocketClient"
MARK = re.compile(r"⟨([^⟨⟩]*)⟩")


class SdkRun:
    """expands the witness programs and evaluates the SDK of every backend"""
    def __init__(self, ctx, worlds, extra=None, std=False):
        self.ctx, self.worlds = ctx, worlds
        ctx.start_engine()
        self.parts = ex.expand(REPO, ctx.work, [w.render() for w in worlds], "sdk")
        for w, (p, errs) in zip(worlds, self.parts):
            if errs: raise CheckError(f"witness program {w.id} does not expand: {errs[0]['message']}")
        ctx.engine()
        self.meta = {"files": [], "functions": 0, "visited": set()}
        self.res = {}

        def go(i):
            w = worlds[i]
            jobs = [dict(id="client", op="expr", module="corpus", expr=f"<{CLIENT} as zod_core::rpc::codegen::ClientCodegen>::get()")]
            for b in w.backends:
                jobs.append(dict(id=f"sdk|{b.ident}", op="expr", module="corpus", inventory=True, max_steps=60000000,
                                 expr=f"<{b.ident} as zod_core::rpc::server::Backend>::generate::<{CLIENT}>()"))
            tys = set()
            for n in w.namespaces:
                for m in n.methods:
                    for _, t in m.args: tys.add((t, "inline")); tys.add((t, "inline_schema"))
                    tys.add((m.result(), "inline")); tys.add((m.result(), "type_def"))
                for sp in n.types:
                    for f in ("schema", "type_def", "docs"): jobs.append(dict(id=f"type|{n.ident}|{sp.name}|{f}", op="assoc", ty=tyname(sp.name), fn=f, trait="zod_core::ZodType", module=f"corpus::{sp.module}"))
            for t, f in sorted(tys): jobs.append(dict(id=f"use|{t}|{f}", op="assoc", ty=t, fn=f, trait="zod_core::ZodType", module="corpus"))
            jobs.append(dict(id="reg", op="registrations", inventory=True, methods=["namespace", "name"], inv_modules=[f"corpus::{sp.module}" for n in w.namespaces for sp in n.types] or ["none"]))
            if extra: jobs += extra(w)
            return ctx.eval(self.parts[i][0], jobs, f"sdk{i}")
        with ThreadPoolExecutor(8) as pool: outs = list(pool.map(go, range(len(worlds))))
        for w, o in zip(worlds, outs):
            if o["errors"]: raise CheckError("sources not readable: " + str(o["errors"])[:500])
            self.meta["files"] = o["files"]; self.meta["functions"] = max(self.meta["functions"], o["functions"]); self.meta["visited"] |= set(o["visited"])
            ctx.count("evaluations", len(o["results"]))
            for r in o["results"]: self.res[(w.id, r["id"])] = (r,) + value_of(r)
        ctx.counts["programs"] = len(worlds)
        ctx.counts["backends"] = sum(len(w.backends) for w in worlds)

    def text(self, w, jid):
        r, v, why = self.res[(w.id, jid)]
        if v is None or v["text"] is None: raise Undecided(f"{jid}: {why or 'no text'}")
        return v["text"]

    def parse(self):
        jobs, keys = [], []

        def put(k, kind, text): keys.append(k); jobs.append(dict(id=len(jobs), kind=kind, text=text))
        for (wid, jid), (r, v, why) in self.res.items():
            if v is None or v["text"] is None: continue
            k = jid.split("|")
            if k[0] in ("sdk", "client"): put((wid, jid), "sdk", v["text"])
            elif k[0] == "use": put((wid, jid), "schema" if k[2] == "inline_schema" else "type", v["text"])
            elif k[0] == "type" and k[3] != "docs":
                if k[3] == "schema": put((wid, jid), "schema", v["text"])
                else: put((wid, jid), "interface" if (v["value"] or {}).get("variant") == "Interface" else "type", v["text"])
        res = self.ctx.tsjobs({"jobs": jobs}, "sdk")["results"]
        self.items, self.shapes, self.perr = {}, {}, {}
        for k, r in zip(keys, res):
            if r.get("error"): self.perr[k] = r["error"]
            elif r.get("errors"): self.perr[k] = r["errors"]; self.items[k] = r["items"]
            elif "items" in r: self.items[k] = r["items"]
            else: self.shapes[k] = r["shape"]
        self.ctx.counts["texts parsed"] = len(jobs)

    def shape(self, w, jid):
        k = (w.id, jid)
        if k in self.shapes: return norm(self.shapes[k])
        if k in self.perr: raise Undecided(f"{jid}: {str(self.perr[k])[:200]}")
        raise Undecided(f"{jid}: {self.res[k][2] if k in self.res else 'not evaluated'}")

    def backends(self):
        """(world, backend, items of the client, items of the SDK)"""
        bad, n = 0, 0
        for w in self.worlds:
            for b in w.backends:
                n += 1
                k = (w.id, f"sdk|{b.ident}")
                if k in self.perr:
                    self.ctx.violate(f"{w.id}:{b.ident}:parse", f"the SDK of backend {b.ident} is no TypeScript: {str(self.perr[k])[:300]}", program=b.rust(), text=(self.res[k][1] or {}).get("text", "")[-3000:])
                    continue
                if k not in self.items:
                    bad += 1; self.ctx.undecide(f"{w.id}.{b.ident}", self.res[k][2] or "no SDK"); continue
                yield w, b, self.items[k]
        if bad == n: raise CheckError("no SDK could be evaluated: " + str(self.ctx.undecided[:2])[:800])


def skey(x): return json.dumps(x, sort_keys=True, ensure_ascii=False)


def same(a, b): return skey(norm(a)) == skey(norm(b))


def blocks(ctx, run, w, b, items):
    """the namespace blocks after the client runtime"""
    try: run.text(w, "client")
    except Undecided as e: ctx.undecide(w.id, str(e)); return None
    head = run.items.get((w.id, "client"))
    if head is None: ctx.undecide(w.id, "client runtime not read"); return None
    if [skey(i) for i in items[:len(head)]] != [skey(i) for i in head]:
        ctx.violate(f"{b.ident}:runtime", f"the SDK of {b.ident} does not begin with the client runtime", program=b.rust())
        return None
    return items[len(head):]


RESERVED = set("""arguments await break case catch class const continue debugger default delete do else enum eval export extends false finally for function if implements import in instanceof interface let new null
package private protected public return static super switch this throw true try typeof var void while with yield request subscribe z""".split())


def fn_of(fns, name):
    """the function generated for a method: its name, with underscores if it cannot have that name"""
    l = [f for f in fns if f["name"] == name]
    if l: return l
    if name in RESERVED:
        return [f for f in fns if f["name"].rstrip("_") == name.rstrip("_") and len(f["name"]) > len(name) and (len(f["body"] or []) and any(a.get("str") == name for s in f["body"] for a in s.get("args") or []))]
    return []


# ------------------------------------------------------------------------------------------------ N01
def check_N01(ctx):
    run = SdkRun(ctx, sdk.worlds(ctx.thorough, SEED))
    run.parse()
    for w in run.worlds:
        k = (w.id, "reg")
        r, v, why = run.res[k]
        if v is None: ctx.undecide(f"{w.id}.registrations", why); continue
        rows = {}
        for row in v["value"]["v"]:
            c = [x if isinstance(x, str) else None for x in row["v"]]
            if c[1] == "zod_core::NamespaceMemberDefinition": rows.setdefault(c[0], []).append(c[2:])
        for n in w.namespaces:
            for sp in n.types:
                ctx.count("registrations compared")
                got = rows.get(f"corpus::{sp.module}", [])
                if got != [[n.name(), sp.exported()]]:
                    ctx.violate(f"registration:{sp.kind}", f"{sp.name} of namespace {n.name()!r} is registered as {got}, expected once as {[n.name(), sp.exported()]}", program=n.rust() + sp.rust())
    for w, b, items in run.backends():
        bl = blocks(ctx, run, w, b, items)
        if bl is None: continue
        for _, n in b.fields:
            mine = [i for x in bl if x["kind"] == "namespace" and x["name"] == n.name() for i in x["items"]]
            for sp in n.types:
                for kind, f in (("const", "schema"), ("type", "type_def")):
                    ctx.count("declarations compared")
                    d = [i for i in mine if i["kind"] == kind and i["name"] == sp.exported()]
                    label = f"{kind} {n.name()}.{sp.exported()}"
                    if len(d) != 1 or not d[0]["exported"]:
                        ctx.violate(f"{kind}:count", f"the SDK of {b.ident} exports {label} {len(d)} times", program=b.rust() + sp.rust(), text=run.text(w, f"sdk|{b.ident}")[-6000:]); continue
                    try: want = run.shape(w, f"type|{n.ident}|{sp.name}|{f}")
                    except Undecided as e: ctx.undecide(f"{w.id}.{label}", str(e)); continue
                    got = d[0]["schema" if kind == "const" else "type"]
                    if not same(got, want):
                        ctx.violate(f"{kind}:content", f"{label} in the SDK of {b.ident} is {show_shape(norm(got))[:300]}, the {kind} of {sp.name} is {show_shape(want)[:300]}", program=b.rust() + sp.rust())
                    elif ctx.counts["declarations compared"] % 60 == 1: ctx.sample({"declaration": label, "content": show_shape(want)[:300]})
                    try: doc = run.text(w, f"type|{n.ident}|{sp.name}|docs")
                    except Undecided: doc = None
                    r = run.res[(w.id, f"type|{n.ident}|{sp.name}|docs")]
                    if sp.docs:
                        if not d[0]["docs"]: ctx.violate(f"{kind}:docs", f"{label} lacks the documentation of {sp.name}", program=sp.rust())
            names = {sp.exported() for sp in n.types}
            for i in mine:
                if i["kind"] in ("const", "type") and i["name"] not in names:
                    ctx.violate("foreign", f"namespace {n.name()} of the SDK of {b.ident} declares {i['name']}, which was not derived for it", program=b.rust())
    return run


# ------------------------------------------------------------------------------------------------ N03
def check_N03(ctx):
    run = SdkRun(ctx, sdk.worlds(ctx.thorough, SEED) + [sdk.same_named()])
    run.parse()
    report = ctx.violate
    for w, b, items in run.backends():
        ctx.count("backends compared")

        def violate(key, what, **kw): report(("same-name:" if w.id == "m1" else "") + key, what + (" (another namespace has the same name)" if w.id == "m1" else ""), **kw)
        bl = blocks(ctx, run, w, b, items)
        if bl is None: continue
        want = {n.name(): n for _, n in b.fields if n.types or n.methods}
        got = [x.get("name") for x in bl]
        for x in bl:
            if x["kind"] != "namespace" or not x.get("exported"): violate("stray", f"the SDK of {b.ident} contains {x.get('name') or x.get('text')} outside its namespaces", program=b.rust())
        if sorted(want) != sorted(g for g in got if g is not None):
            violate("namespaces", f"the SDK of {b.ident} has the namespaces {got}, the backend has {sorted(want)}", program=b.rust())
        for x in bl:
            n = want.get(x.get("name"))
            if not n: continue
            ctx.count("namespaces compared")
            have = sorted((i["kind"], i.get("name")) for i in x["items"])
            fns = [i for i in x["items"] if i["kind"] == "function"]
            named = {}
            for m in n.methods:
                l = fn_of(fns, unraw(m.name))
                if len(l) != 1: violate("functions", f"namespace {n.name()} of the SDK of {b.ident} has {len(l)} functions for {m.name}", program=n.rust() + b.rust())
                for f in l: named.setdefault(f["name"], []).append(m.name)
            for i in x["items"]:
                if not i.get("exported"): violate("unexported", f"{i.get('name') or i.get('text')} in namespace {n.name()} of the SDK of {b.ident} is not exported", program=n.rust())
                if i["kind"] == "function" and len(named.get(i["name"], [])) != 1: violate("foreign-function", f"namespace {n.name()} of the SDK of {b.ident} has the function {i['name']} for {named.get(i['name'], [])}", program=n.rust() + b.rust())
                elif i["kind"] == "const" and i["name"] not in [sp.exported() for sp in n.types]: violate("foreign", f"namespace {n.name()} of the SDK of {b.ident} declares {i['name']}", program=b.rust())
                elif i["kind"] in ("other", "namespace"): violate("stray", f"namespace {n.name()} of the SDK of {b.ident} contains {i.get('name') or i.get('text')}", program=b.rust())
            for sp in n.types:
                for kind in ("const", "type"):
                    if (kind, sp.exported()) not in have: violate("missing", f"namespace {n.name()} of the SDK of {b.ident} lacks {kind} {sp.exported()}", program=b.rust() + sp.rust())
            if ctx.counts["namespaces compared"] % 7 == 1: ctx.sample({"backend": b.ident, "namespace": n.name(), "declarations": have[:12]})
    return run


# ------------------------------------------------------------------------------------------------ N04
def listings(w):
    """public listings of the registry, as plain values"""
    row = "|m| (m.namespace(), m.name(), m.schema(), m.type_def().to_string())"
    rows = f"into_iter().map(|(n, l)| (n, l.into_iter().map({row}).collect::<Vec<_>>())).collect::<Vec<_>>()"
    j = lambda i, e: dict(id=i, op="expr", module="corpus", inventory=True, expr=e, max_steps=60000000)
    o = [j("list|collect", f"zod_core::NamespaceMemberDefinition::collect().{rows}")]
    for n in w.namespaces: o.append(j(f"list|members|{n.ty()}", f"<{n.ty()} as zod_core::Namespace>::members().into_iter().map({row}).collect::<Vec<_>>()"))
    for b in w.backends:
        o.append(j(f"list|types|{b.ident}", f"<{b.ident} as zod_core::rpc::server::Backend>::zod_namespaces().{rows}"))
        o.append(j(f"list|functions|{b.ident}", f"<{b.ident} as zod_core::rpc::server::Backend>::rpc_members().into_iter().collect::<Vec<_>>()"))
    return o


def check_N04(ctx):
    run = SdkRun(ctx, sdk.worlds(ctx.thorough, SEED), extra=listings)

    def value(w, jid):
        r, v, why = run.res[(w.id, jid)]
        if v is None: raise Undecided(why)
        x = v["value"]
        if x.get("k") != "list": raise Undecided("listing is no list")
        return x["v"]

    def row(x):
        c = x["v"]
        if not all(isinstance(y, str) for y in c): raise Undecided("an entry of the listing is not visible")
        return tuple(c)
    texts, funs = {}, []
    for w in run.worlds:
        def own(n): return sorted((n.name(), sp.exported(), run.text(w, f"type|{n.ident}|{sp.name}|schema"), run.text(w, f"type|{n.ident}|{sp.name}|type_def")) for sp in n.types)

        def compare(key, what, got, want, program):
            ctx.count("listings compared"); ctx.count("entries compared", len(want))
            if got == want:
                if ctx.counts["listings compared"] % 9 == 1: ctx.sample({"listing": what, "entries": [x[:2] for x in want][:6]})
                return
            extra, lack = [x for x in got if x not in want], [x for x in want if x not in got]
            twice = sorted({x[:2] for x in got if got.count(x) > want.count(x) and x in want})
            ctx.violate(key, f"{what}: " + "; ".join(f"{a} {[x[:2] if x[:2] not in [y[:2] for y in (lack if l is extra else extra)] else x for x in l][:3]}" for a, l in (("lists", extra), ("lacks", lack), ("repeats", twice)) if l)[:500], program=program)
        try: everything = {n.name(): own(n) for n in w.namespaces if n.types}
        except Undecided as e: ctx.undecide(w.id, str(e)); continue
        for n in w.namespaces:
            try: got = sorted(row(x) for x in value(w, f"list|members|{n.ty()}"))
            except Undecided as e: ctx.undecide(f"{w.id}.{n.ident}.members", str(e)); continue
            compare("members", f"members() of namespace {n.name()}", got, own(n), n.rust())

        def grouped(key, what, jid, names, program):
            try: pairs = [(x["v"][0], x["v"][1]) for x in value(w, jid)]; got = {g: sorted(row(x) for x in l["v"]) for g, l in pairs}
            except Undecided as e: ctx.undecide(f"{w.id}.{jid}", str(e)); return
            if len(pairs) != len(got): ctx.violate(key, f"{what} names a namespace twice: {[g for g, _ in pairs]}", program=program)
            stray = [g for g in got if g not in names and got[g]]
            if stray: ctx.violate(key, f"{what} lists the namespaces {stray}", program=program)
            for nm in names: compare(key, f"{what}, namespace {nm}", got.get(nm, []), everything.get(nm, []), program)
        grouped("collect", f"NamespaceMemberDefinition::collect() of {w.id}", "list|collect", sorted(everything), "")
        for b in w.backends:
            names = sorted({n.name() for _, n in b.fields})
            grouped("types", f"zod_namespaces() of {b.ident}", f"list|types|{b.ident}", names, b.rust())
            try: pairs = [(x["v"][0], x["v"][1]["v"]) for x in value(w, f"list|functions|{b.ident}")]
            except (Undecided, KeyError, TypeError) as e: ctx.undecide(f"{w.id}.{b.ident}.functions", str(e)); continue
            if not all(isinstance(t, str) for _, l in pairs for t in l): ctx.undecide(f"{w.id}.{b.ident}.functions", "a declaration is not visible"); continue
            stray = [g for g, l in pairs if g not in names and l]
            if stray: ctx.violate("functions", f"rpc_members() of {b.ident} lists the namespaces {stray}", program=b.rust())
            for _, n in b.fields: funs.append((w, b, n, [t for g, l in pairs if g == n.name() for t in l]))
    jobs = [dict(id=i, kind="sdk", text="".join(f"\nexport namespace d{k} {{ {t} }}\n" for k, t in enumerate(l))) for i, (_, _, _, l) in enumerate(funs)]
    res = ctx.tsjobs({"jobs": jobs}, "listings")["results"]
    ctx.counts["texts parsed"] = len(jobs)
    for (w, b, n, l), r in zip(funs, res):
        ctx.count("listings compared")
        if "items" not in r or r.get("error") or r.get("errors"): ctx.undecide(f"{w.id}.{b.ident}.{n.name()}", "declarations not read: " + str(r.get("error") or r.get("errors"))[:200]); continue
        fns = [i for d in r["items"] if d["kind"] == "namespace" for i in d["items"] if i["kind"] == "function"]
        for m in n.methods:
            ctx.count("entries compared")
            x = fn_of(fns, unraw(m.name))
            if len(x) != 1: ctx.violate("functions", f"rpc_members() of {b.ident} lists {len(x)} functions for {n.name()}.{m.name}", program=n.rust() + b.rust())
        if len(fns) > len(n.methods): ctx.violate("functions", f"rpc_members() of {b.ident} lists {len(fns)} functions for the {len(n.methods)} methods of {n.name()}", program=n.rust() + b.rust())
    if not ctx.counts.get("entries compared"): raise CheckError("no listing could be evaluated: " + str(ctx.undecided[:3])[:800])
    return run


# ------------------------------------------------------------------------------------------------ generated functions
def arg_list(a, params):
    """does this expression stand for all arguments in order? True / False / None (not understood)"""
    if "ident" in a: return (a["free"] if a["ident"] == "arguments" else None) if a["ident"] == "arguments" else None
    if "list" in a:
        l = a["list"]
        if len(l) == 1 and "spread" in l[0]: return arg_list(l[0]["spread"], params)
        if all("ident" in x for x in l): return [x["ident"] for x in l] == params
    return None


def each_method(ctx, run):
    for w, b, items in run.backends():
        bl = blocks(ctx, run, w, b, items)
        if bl is None: continue
        for _, n in b.fields:
            fns = [i for x in bl if x["kind"] == "namespace" and x["name"] == n.name() for i in x["items"] if i["kind"] == "function"]
            for m in n.methods:
                l = fn_of(fns, unraw(m.name))
                if len(l) != 1:
                    ctx.violate("functions", f"the SDK of {b.ident} has {len(l)} functions for {n.name()}.{m.name}", program=n.rust() + b.rust()); continue
                yield w, b, n, m, l[0]


def detail(run, w, b, n, m, f): return dict(program=f"impl {n.ident} {{ {m.rust()} }}\n{b.rust()}", generated=json.dumps([s["text"] for s in f["body"] or []]))


def client_call(ctx, w, b, n, m, f):
    """the call of the runtime: (ok, arguments)"""
    calls = [s for s in f["body"] or [] if s.get("call") in ("request", "subscribe")]
    want = "request" if m.kind == "method" else "subscribe"
    if len(calls) != 1: return None, f"calls the runtime {len(calls)} times"
    c = calls[0]
    if c["call"] != want: return None, f"calls {c['call']} instead of {want}"
    if not c["ret"]: return None, f"does not return what {c['call']} returns"
    if not c["rootFree"]: return None, f"calls its own {c['call']}, not the runtime's"
    return c, None


def check_client_names(ctx, run):
    for w, b, n, m, f in each_method(ctx, run):
        ctx.count("client functions")
        c, why = client_call(ctx, w, b, n, m, f)
        where = f"{n.name()}.{f['name']}"
        if c is None: ctx.violate("client:call", f"{where} {why}", **detail(run, w, b, n, m, f)); continue
        a = c.get("args") or []
        if [x.get("str") for x in a[:2]] != [n.name(), unraw(m.name)] or len(a) != 3:
            ctx.violate("client:names", f"{where} calls {[x.get('str') for x in a[:2]]}, the method is {unraw(m.name)!r} of {n.name()!r}", **detail(run, w, b, n, m, f))
        elif ctx.counts["client functions"] % 60 == 1: ctx.sample({"function": where, "calls": [x.get("str") for x in a[:2]]})


def check_client_args(ctx, run):
    for w, b, n, m, f in each_method(ctx, run):
        ctx.count("client functions")
        where = f"{n.name()}.{f['name']}"
        dt = detail(run, w, b, n, m, f)
        ps = f["params"]
        if len(ps) != len(m.args) or any(p["rest"] for p in ps):
            ctx.violate("client:arity", f"{where} takes {len(ps)} parameters, the method {len(m.args)}", **dt); continue
        for i, (p, (an, at)) in enumerate(zip(ps, m.args)):
            ctx.count("arguments compared")
            if p["name"].rstrip("_") != unraw(an).rstrip("_"): ctx.violate("client:argname", f"parameter {i} of {where} is named {p['name']}, the argument {unraw(an)}", **dt)
            try: want = run.shape(w, f"use|{at}|inline")
            except Undecided as e: ctx.undecide(where, str(e)); continue
            if p["type"] is None or not same(p["type"], want): ctx.violate("client:argtype", f"parameter {p['name']} of {where} is declared as {show_shape(norm(p['type'] or {}))[:200]}, the type of the argument is {show_shape(want)[:200]}", **dt)
        parses = [s for s in f["body"] if s.get("call") == "parse"]
        c, why = client_call(ctx, w, b, n, m, f)
        if c is None: ctx.violate("client:call", f"{where} {why}", **dt); continue
        if len(parses) != 1 or f["body"].index(parses[0]) > f["body"].index(c):
            ctx.violate("client:validation", f"{where} does not validate its arguments before sending them", **dt); continue
        pr = parses[0]
        names = [p["name"] for p in ps]
        for what, a in (("validates", pr["args"][0] if len(pr["args"]) == 1 else {}), ("sends", (c["args"] + [{}, {}, {}])[2])):
            ok = arg_list(a, names)
            if ok is False: ctx.violate("client:list", f"{where} {what} something else than its arguments", **dt)
            elif ok is None: ctx.undecide(where, f"what {where} {what} is not understood: {a}")
        sh = pr["schema"]
        try: want = {"k": "tuple", "items": [run.shape(w, f"use|{at}|inline_schema") for _, at in m.args]}
        except Undecided as e: ctx.undecide(where, str(e)); continue
        if not same(sh, want): ctx.violate("client:schema", f"{where} validates against {show_shape(norm(sh))[:300]}, its arguments are {show_shape(norm(want))[:300]}", **dt)
        gen = "Promise" if m.kind == "method" else "Store"
        try: rets = [run.shape(w, f"use|{m.result()}|{g}") for g in ("inline", "type_def")]
        except Undecided as e: ctx.undecide(where, str(e)); continue
        r = f["ret"]
        if not (r and r.get("k") == "generic" and r["name"] == gen and len(r["args"]) == 1 and any(same(canon_ret(r["args"][0]), canon_ret(x)) for x in rets)):
            ctx.violate("client:result", f"{where} returns {show_shape(norm(r or {}))[:200]}, expected {gen} of {show_shape(rets[0])[:200]}", **dt)
        elif ctx.counts["client functions"] % 60 == 1: ctx.sample({"function": where, "validates": show_shape(norm(sh))[:200], "returns": show_shape(norm(r))[:200]})


def canon_ret(x):
    """an opaque type's literal form and its reference are one"""
    if isinstance(x, list): return [canon_ret(y) for y in x]
    if isinstance(x, dict):
        if x.get("k") == "atom": return {"k": "atom", "v": x["v"].replace(".type_def", ".inline")}
        return {a: canon_ret(b) for a, b in x.items()}
    return x


# ------------------------------------------------------------------------------------------------ S14, S11: the SDK as a TypeScript program
def subst(t):
    t = re.sub(r"⟨(?:corpus::)?(?:zq::)?(T\d+)\.(inline_schema|schema)[^⟨⟩]*⟩", r"z.lazy(() => ZQ.\1)", t)
    return re.sub(r"⟨(?:corpus::)?(?:zq::)?(T\d+)\.(inline|type_def)[^⟨⟩]*⟩", r"ZQ.\1", t)


ZQ = "\nexport namespace ZQ {\n" + "\n".join(f"export const T{i} = z.object({{t{i}: z.string()}}); export type T{i} = {{t{i}: string}};" for i in range(120)) + "\n}\n"
GENERICS = {"Promise", "Array", "Map", "Set", "Record", "Store", "ReadonlyArray"}


def program_of(run, w, b):
    t = subst(run.text(w, f"sdk|{b.ident}"))
    if MARK.search(t): raise Undecided("the SDK depends on " + MARK.search(t).group(1)[:100])
    return t + ZQ


def ts_programs(ctx, run, binds=True, skip=()):
    """type-checks the SDK of every complete backend; (world, backend) -> diagnostics, bindings"""
    out = {}
    for w in run.worlds:
        files = {}
        for b in w.backends:
            if b.ident in skip: continue
            try: files[f"{b.ident}.ts"] = program_of(run, w, b)
            except Undecided as e: ctx.undecide(f"{w.id}.{b.ident}", str(e))
        if not files: continue
        r = ctx.tsjobs({"check": {"files": files, "bind": binds, "options": {"noImplicitAny": False}}}, f"check-{w.id}")
        for b in w.backends:
            f = f"{b.ident}.ts"
            if f in files: out[(w.id, b.ident)] = (w, b, [d for d in r["check"] if d["file"] == f], r["bind"][f], files[f])
    return out


def captured(x):
    """a use of a name that generated code makes, declared where the user's names are"""
    if x["where"] in ("import", "lib", "top", "arguments", "unresolved"): return False
    if x["where"] == "param" and x["use"] in ("bare", "value") and x["name"] != "arguments": return False
    if x["where"] == "param" and x["use"] == "bare": return False
    return True


def check_S14(ctx):
    main, caps = sdk.worlds(ctx.thorough, SEED), sdk.captures()
    run = SdkRun(ctx, main + [w for _, w in caps])
    label = {w.id: l for l, w in caps}
    for w in run.worlds: ctx.count("namespaces", len(w.namespaces))
    for (wid, bid), (w, b, diags, binds, text) in ts_programs(ctx, run).items():
        seen = set()
        for x in binds:
            if x["ns"] == "ZQ": continue
            ctx.count("names resolved")
            bad = None
            if captured(x): bad = f"is a {x['where']}" if not x["where"].startswith("member") else f"is a {x['where']} {x['ns']}" if False else f"is a {x['where']}"
            if not bad: continue
            if (x["ns"], x["decl"], x["name"]) in seen: continue
            seen.add((x["ns"], x["decl"], x["name"]))
            key = "capture:" + label[wid].replace(" ", "_") if wid in label else "capture"
            ctx.violate(key, f"{x['name']} in {x['ns']}.{x['decl']} of the SDK of {b.ident} {bad}: it hides the {x['name']} the generated code means", program="".join(n.rust() + "".join(s.rust() for s in n.types) for n in w.namespaces)[:4000], line=x["line"])
        # two declarations of one name, names TypeScript does not allow
        for d in diags:
            if d["code"] in (2300, 2451, 2393, 1212, 1213, 1214, 1215, 1100, 2323, 2395):
                key = "clash:" + label[wid].replace(" ", "_") if wid in label else "clash"
                ctx.violate(key, f"line {d['line']} of the SDK of {b.ident}: {d['message']} ({d['node']})", program=text.split("\n")[d["line"] - 1][:500])
    if not ctx.counts.get("names resolved"): raise CheckError("no SDK could be resolved")
    ctx.sample({"rule": "every name generated code uses resolves to the import, the runtime, a namespace, the standard library or a plain parameter"})
    return run
