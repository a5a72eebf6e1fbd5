"""Properties of the TypeScript client: its evaluated text is explored on an abstract machine (tslint/client.js)."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *
from derive_run import Undecided
from sdk import *
import sdk, spec, p_rpc

ANSWERS = {"method": "Response::Method { id: a0, data: a1 }", "stream": "Response::Stream { id: a0, data: a1 }", "error": "Response::Error { id: Some(a0), data: a2 }", "stray": "Response::Error { id: None, data: a2 }"}


def world(types=(), specs=()):
    ms = [Method("ask", [("a", T(0)), ("b", T(1))], T(2)), Method("watch", [("n", T(4)), ("m", T(5))], T(5), "stream")]
    n = Ns("Chat", ms + [Method(f"m{i}", [("a", t)], "u8") for i, t in enumerate(types)], list(specs), name="chat")
    return World("c0", [n], [sdk.Backend("B", [(None, n)])])


def plain_json(v):
    """structure of an evaluated JSON value; symbols become {"sym": key}"""
    if v.get("k") == "sym": return {"sym": v["key"]}
    if v.get("k") == "adt" and v["ty"] == "serde_json::Value":
        x = v["f"].get("0")
        if v["variant"] == "Null": return None
        if v["variant"] == "Object": return {"obj": [[k, plain_json(y)] for k, y in x["v"]]}
        if v["variant"] == "Array": return [plain_json(y) for y in x["v"]]
        return plain_json(x)
    if "v" in v and v.get("k") in ("str", "int", "bool"): return v["v"]
    raise Undecided("JSON of an answer is not visible")


class Client(p_rpc.SdkRun):
    def __init__(s, ctx, types=(), specs=()):
        s.w = world(types, specs)
        S = lambda k, t: {"sym": k, "ty": t}
        args = [S("id", "usize"), S("data", "serde_json::Value"), S("data", "zod_core::rpc::error::Error")]
        super().__init__(ctx, [s.w], extra=lambda w: [dict(id="answer|" + k, op="expr", module="zod_core::rpc", args=args, expr=f"serde_json::to_value(&{e})") for k, e in ANSWERS.items()])
        try: s.sdk = s.text(s.w, "sdk|B")
        except Undecided as e: raise CheckError("the SDK could not be evaluated: " + str(e)[:500])
        s.answers = {}
        for k in ANSWERS:
            r, v, why = s.res[("c0", "answer|" + k)]
            got = [t["value"] for t in r["traces"] if t["kind"] == "value"]
            got = [t["f"]["0"] for t in got if t.get("variant") == "Ok"] if len(got) else []
            if not got: raise CheckError(f"the answer {k} of the server could not be evaluated: {why}")
            s.answers[k] = plain_json(got[0])
        try: client = s.text(s.w, "client")
        except Undecided: client = ""
        s.file = None
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            for f in fs:
                if f.endswith(".ts") and client and open(os.path.join(d, f), encoding="utf8").read() == client: s.file = os.path.relpath(os.path.join(d, f), REPO)

    def base(s): return dict(text=s.sdk, ns="chat", wire="chat", request="ask", stream="watch", argc=dict(request=2, stream=2), answers=s.answers, scenarios=[], long=False, values=[])

    def go(s, jobs):
        def one(i):
            j, o = os.path.join(s.ctx.work, f"client{i}.json"), os.path.join(s.ctx.work, f"clientout{i}.json")
            json.dump({**s.base(), **jobs[i]}, open(j, "w"))
            p = subprocess.run(["node", "--stack-size=4000", os.path.join(VERIF, "tslint", "client.js"), j, o], capture_output=True, text=True, timeout=850)
            if p.returncode: raise CheckError("the client could not be explored: " + p.stderr[-1500:])
            return json.load(open(o))
        with ThreadPoolExecutor(8) as pool: return list(pool.map(one, range(len(jobs))))


def scenarios(thorough):
    L = 400000
    o = [dict(id="calls", requests=2, fails=2, closings=1, timers=9), dict(id="calls and stray answers", requests=2, stray=1, breaks=1, fails=1, timers=9),
         dict(id="call beside a stream", requests=1, streams=1, listens=1, again=1, items=1, fails=1, timers=9), dict(id="closed streams", streams=1, listens=1, cancel=1, items=1, fails=1, closings=1, timers=9),
         dict(id="call and closed stream", requests=1, streams=1, cancel=1, fails=1, timers=9), dict(id="two listeners", streams=1, listens=2, items=1, cancel=1, fails=1, timers=9), dict(id="closing connections", requests=1, streams=1, listens=1, closings=1, fails=1, timers=9),
         dict(id="two streams", streams=2, listens=2, items=1, fails=1, timers=9), dict(id="broken connections", requests=1, streams=1, listens=1, breaks=2, fails=1, timers=9)]
    if thorough:
        o += [dict(id="many calls at once", requests=3, fails=2, timers=9), dict(id="call and stream", requests=1, streams=1, listens=1, again=1, cancel=1, items=1, fails=1, timers=9),
              dict(id="calls beside a stream", requests=2, streams=1, listens=1, items=1, fails=1, timers=9), dict(id="two closed streams", streams=2, listens=2, cancel=2, items=1, fails=1, timers=9),
              dict(id="three failures", requests=1, streams=1, listens=1, breaks=1, fails=3, timers=9), dict(id="listeners come and go", streams=1, listens=3, again=1, items=2, fails=1, timers=9)]
    return [dict(s, limit=L) for s in o]


def client_check(prop):
    def f(ctx):
        c = Client(ctx)
        sc = scenarios(ctx.thorough)
        outs = c.go([dict(long=max([40] + mined('src/rpc/clients', 'core/src/rpc/codegen', top=1100 if ctx.thorough else 520)) + 3)] + [dict(scenarios=[s]) for s in sorted(sc, key=lambda s: -sum(v for k, v in s.items() if isinstance(v, int) and v < 9))])
        fns = {}
        trans = 0
        for o in outs:
            for k in ("states", "transitions", "effects"): ctx.count({"states": "client states", "transitions": "transitions compared", "effects": "effects observed"}[k], o[k])
            for u in o["undecided"]: ctx.undecide("client", u)
            for n, line, seen in o["functions"]: fns[(n, line)] = fns.get((n, line), False) or seen
            for v in o["violations"]:
                if v["prop"] != prop: continue
                at = [int(x) for h in v["history"][-6:] for x in re.findall(r"\(line (\d+)\)", h)]
                where = f" ({c.file or 'SDK'}:{at[-1]})" if at else ""
                ctx.violate(v["key"], v["what"] + where, scenario=v["scenario"], history=v["history"])
            for x in o["samples"][:1]: ctx.sample({"scenario": [s["id"] for s in o["scenarios"]] or ["many calls, many failures"], "history": x})
        ctx.notes["client functions analysed"] = sorted(f"{n} (line {l})" for (n, l), v in fns.items() if v)
        ctx.notes["client functions never reached"] = sorted(f"{n} (line {l})" for (n, l), v in fns.items() if not v)
        ctx.notes["numbers followed to every larger value"] = sorted({x for o in outs for x in o["widened"]})
        ctx.notes["scenarios"] = [s for o in outs for s in o["scenarios"]]
        if not ctx.counts.get("client states"): raise CheckError("the client could not be followed: " + str(ctx.undecided[:3])[:900])
        return c
    return f


check_C01, check_C02, check_C03, check_C04 = (client_check(p) for p in ("C01", "C02", "C03", "C04"))


# ------------------------------------------------------------------------------------------------ C05
C = "std::collections::"
ARG_TYPES = sdk.std_types() + [
    f"{C}HashMap<String, Option<u8>>", f"{C}BTreeMap<u8, Option<String>>", f"{C}HashSet<Option<u8>>", f"{C}HashMap<String, {C}HashSet<u8>>", f"{C}HashMap<String, {C}HashMap<u8, Vec<{C}HashSet<String>>>>", f"Vec<{C}HashMap<String, u8>>",
    f"Vec<{C}HashSet<u8>>", f"Option<{C}HashSet<String>>", f"Option<{C}HashMap<String, u8>>", f"({C}HashSet<u8>, {C}HashMap<String, u8>)", f"Result<{C}HashMap<String, u8>, {C}HashSet<u8>>", f"Vec<Option<{C}HashSet<u8>>>", f"Box<{C}HashMap<String, Box<u8>>>",
    f"{C}HashMap<String, Option<{C}HashMap<String, Option<u8>>>>", f"{C}HashSet<Vec<{C}BTreeSet<u8>>>", f"{C}HashMap<String, (u8, Option<u8>)>", f"(Option<u8>, Option<{C}HashSet<u8>>)", f"{C}HashMap<String, ()>", f"{C}HashMap<char, bool>", f"[{C}HashSet<u8>; 2]", f"{C}BTreeMap<i64, {C}BTreeMap<String, u8>>"]


def split_args(t):
    out, d, cur = [], 0, ""
    for ch in t:
        if ch in "<([": d += 1
        if ch in ">)]": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""; continue
        cur += ch
    if cur.strip(): out.append(cur.strip())
    return out


def rust_form(t):
    """what serde reads for a built-in type"""
    t = t.strip()
    if t == "()": return ("null",)
    if t.startswith("("): return ("tuple", [rust_form(x) for x in split_args(t[1:-1])])
    if t.startswith("["): return ("list", rust_form(t[1:].rsplit(";", 1)[0]))
    m = re.match(r"([\w:]+)<(.*)>$", t)
    if not m: return ("leaf",)
    n, a = m[1].split("::")[-1], [x for x in split_args(m[2]) if not x.startswith("'")]
    if n in ("Vec", "HashSet", "BTreeSet"): return ("list", rust_form(a[0]))
    if n in ("HashMap", "BTreeMap"): return ("map", rust_form(a[1]))
    if n == "Option": return ("option", rust_form(a[0]))
    if n == "Result": return ("variants", {"Ok": rust_form(a[0]), "Err": rust_form(a[1])})
    if n == "PhantomData": return ("null",)
    if n in ("Box", "Arc", "Rc", "Cow", "Cell", "RefCell", "Mutex"): return rust_form(a[0])
    raise ValueError(t)


PARTS = ["u8", "Option<u8>", f"{C}HashMap<String, u8>", f"{C}HashSet<u8>", "Vec<Option<u8>>", "()", f"Option<{C}HashMap<String, {C}HashSet<u8>>>", f"(u8, {C}BTreeMap<String, Option<u8>>)", f"Result<u8, {C}HashSet<u8>>"]


def derived():
    """derived types by kind, with the built-in types in every place"""
    out = []

    def add(kind, fields=(), variants=(), **a): out.append(Spec(kind, f"D{len(out)}", list(fields), list(variants), **a))
    for i, t in enumerate(PARTS):
        o = PARTS[(i + 2) % len(PARTS)]
        F = lambda n=None, **a: Field(t, n, **a)
        add("struct", [F("one"), Field(o, "two_words")], rename_all="camelCase")
        add("struct", [F("one", default=True), Field(o, "two", rename="odd-name"), F("r#type")])
        add("struct", [F("one"), F("gone", skip=True), F("half", skip_de=True), Field(o, "rest", default=True)], deny=True)
        add("struct", [F("one"), Field(o, "two")], default=True, derive="#[derive(Default)]\n")
        add("struct", [F("only")], transparent=True)
        add("struct", [F("plain")], **{"from": o})
        add("tuple", [F()]); add("tuple", [F(), Field(o)]); add("tuple", [F(skip=True), Field(o), F()])
        add("tuple", [Field(o), F(default=True)]); add("tuple", [Field("u8"), F(default=True), Field(o, default=True)])
        for tag in ({}, {"tag": "t", "content": "c"}, {"tag": "t"}, {"untagged": True}):
            vs = [Variant("Unit", "unit"), Variant("Fields", "struct", [F("one"), Field(o, "two", default=True)])]
            if tag != {"tag": "t"}: vs += [Variant("New", "tuple", [F()]), Variant("Pair", "tuple", [F(), Field(o)])]
            add("enum", variants=vs, rename_all="snake_case" if i % 2 else None, **tag)
    return out


def spec_form(sp):
    """what serde reads for a derived type"""
    if sp.a.get("from") or sp.a.get("try_from"): return rust_form(sp.a.get("from") or sp.a.get("try_from"))

    def named(fields, rule, cd, extra=()): return ("fields", [(n, ("const", v), False) for n, v in extra] + [(f.wire(rule), rust_form(f.ty), bool(cd or f.optional())) for f in fields if not f.skipped()])

    def seq(fields, cd=False):
        kept = [f for f in fields if not f.skipped()]
        if len(fields) == 1: return rust_form(kept[0].ty)
        return ("positions", [(rust_form(f.ty), bool(cd or f.optional())) for f in kept])
    rule = spec.de_name(sp.a.get("rename_all"))
    if sp.a.get("transparent"): return rust_form(sp.transparent_field().ty)
    if sp.kind == "struct": return named(sp.fields, rule, sp.a.get("default"))
    if sp.kind == "tuple": return seq(sp.fields)
    tag, content, alts = sp.a.get("tag"), sp.a.get("content"), []
    for v in sp.variants:
        n = v.wire(rule)
        inner = None if v.style == "unit" else seq(v.fields) if v.style == "tuple" else named(v.fields, spec.de_name(v.a.get("rename_all")), False)
        if sp.a.get("untagged"): alts.append(inner or ("null",))
        elif tag and content: alts.append(("fields", [(tag, ("const", n), False)] + ([(content, inner, False)] if inner else [])))
        elif tag: alts.append(named(v.fields, spec.de_name(v.a.get("rename_all")), False, [(tag, n)]))
        else: alts.append(("fields", [(n, inner, False)]) if inner else ("const", n))
    return ("any", alts)


class Values:
    """JavaScript values a schema accepts"""
    def __init__(s): s.n = 0

    def leaf(s): s.n += 1; return {"k": "leaf", "n": f"v{s.n}"}

    def of(s, x, depth=0):
        k = x.get("k")
        if k in ("string", "number", "boolean"): return [s.leaf()]
        if k == "bigint": return [{"k": "bigint", "v": "5"}]
        if k in ("null",): return [{"k": "const", "v": None}]
        if k in ("undefined", "void"): return [{"k": "undefined"}]
        if k in ("any", "unknown", "atom", "ref"): return [s.leaf()]
        if k == "lit": return [{"k": "const", "v": x["v"]}]
        if k == "opt": return [{"k": "undefined"}] + s.of(x["of"], depth)
        if k == "nullable": return [{"k": "const", "v": None}] + s.of(x["of"], depth)
        if k == "lazy": return s.of(x["of"], depth)
        if k in ("array", "set"):
            vs = s.of(x["of"], depth + 1)
            kk = "array" if k == "array" else "set"
            return [{"k": kk, "v": vs}, {"k": kk, "v": []}] if depth < 3 else [{"k": kk, "v": vs}]
        if k == "tuple":
            cs = [s.of(i, depth + 1) for i in x["items"]]
            return [{"k": "array", "v": [c[min(i, len(c) - 1)] for c in cs]} for i in range(max(map(len, cs), default=1))]
        if k in ("map", "record"):
            vs = s.of(x["val"], depth + 1)
            num = x["key"].get("k") == "number"
            keys = [({"k": "const", "v": 7 + i} if num else {"k": "const", "v": f"key{i}"}) for i in range(len(vs))]
            e = list(zip(keys, vs))
            out = [e, []]
            return [{"k": "map", "v": [list(p) for p in y]} if k == "map" else {"k": "object", "v": [[str(p["v"]), q] for p, q in y]} for y in out]
        if k == "obj":
            cs = [(n, s.of(v, depth + 1)) for n, v in x["props"]]
            return [{"k": "object", "v": [[n, c[min(i, len(c) - 1)]] for n, c in cs]} for i in range(max((len(c) for _, c in cs), default=1))]
        if k == "union": return [v for a in x["alts"] for v in s.of(a, depth)]
        raise Undecided("schema form " + str(x.get("k")) + (" " + x.get("name", "") if x.get("name") else ""))


def fits(form, v, j):
    """None, or what is wrong with the JSON sent for a value of a type"""
    f = form[0]
    if f == "option":
        if v["k"] == "undefined" or v["k"] == "const" and v["v"] is None: return None if j is None else f"a missing value is sent as {show_json(j)}"
        return fits(form[1], v, j)
    if f == "any":
        es = [fits(x, v, j) for x in form[1]]
        return None if None in es else "no variant takes it: " + "; ".join(es)
    if f == "const": return None if j == form[1] else f"{show_json(j)} is sent for the name {form[1]}"
    if f == "null": return None if j is None else f"a value without content is sent as {show_json(j)}"
    if v["k"] == "undefined": return "a missing value is accepted"
    if f == "leaf":
        if v["k"] == "leaf": return None if j == {"sym": v["n"]} else f"a plain value is sent as {show_json(j)}"
        if v["k"] == "const": return None if j == v["v"] else f"{v['v']} is sent as {show_json(j)}"
        return f"a plain value is accepted as {v['k']}"
    if f in ("list", "tuple"):
        if not isinstance(j, list): return f"a {'list' if f == 'list' else 'tuple'} given as {v['k']} is sent as {show_json(j)}"
        if v["k"] not in ("array", "set"): return f"a {v['k']} is accepted"
        if len(j) != len(v["v"]): return f"of {len(v['v'])} elements {len(j)} are sent"
        for i, (x, y) in enumerate(zip(v["v"], j)):
            e = fits(form[1] if f == "list" else form[1][i], x, y)
            if e: return f"in element {i}: {e}"
        return None
    if f == "positions":
        if not isinstance(j, list): return f"a tuple given as {v['k']} is sent as {show_json(j)}"
        if v["k"] != "array": return f"a {v['k']} is accepted"
        if len(j) > len(form[1]): return f"{len(j)} elements are sent for {len(form[1])} positions"
        for i, (x, dflt) in enumerate(form[1]):
            if i >= len(j):
                if dflt: continue
                return f"nothing is sent for position {i}"
            e = fits(x, v["v"][i], j[i])
            if e: return f"in position {i}{' with a default' if dflt else ''}: {e}"
        return None
    if f == "fields":
        if not (isinstance(j, dict) and "obj" in j) or v["k"] != "object": return f"a {v['k']} is sent as {show_json(j)}"
        have, given = dict(j["obj"]), dict(v["v"])
        stray = [n for n in have if n not in [x for x, _, _ in form[1]]]
        if stray: return f"the keys {stray} are sent, which serde does not read"
        for n, x, dflt in form[1]:
            if n not in have:
                if given.get(n, {"k": "undefined"})["k"] != "undefined": return f"the field {n} is not sent"
                if dflt or x[0] == "option": continue
                return f"the field {n} may be missing"
            e = fits(x, given.get(n, {"k": "undefined"}), have[n])
            if e: return f"in field {n}: {e}"
        return None
    if f == "map":
        if not (isinstance(j, dict) and "obj" in j): return f"a map given as {v['k']} is sent as {show_json(j)}"
        if v["k"] not in ("map", "object"): return f"a {v['k']} is accepted"
        have = dict(j["obj"])
        want = [(str(k["v"]) if isinstance(k, dict) else k, x) for k, x in v["v"]]
        if set(have) != {k for k, _ in want}: return f"of the keys {[k for k, _ in want]}, {sorted(have)} are sent"
        for k, x in want:
            e = fits(form[1], x, have[k])
            if e: return f"under key {k}: {e}"
        return None
    if f == "variants":
        if not (isinstance(j, dict) and "obj" in j) or v["k"] != "object": return f"a {v['k']} is sent as {show_json(j)}"
        have = dict(j["obj"])
        if len(have) != 1 or len(v["v"]) != 1 or v["v"][0][0] not in have: return f"is sent with the keys {sorted(have)}"
        n, x = v["v"][0]
        return fits(form[1][n], x, have[n]) if n in form[1] else f"a variant {n} is accepted"
    return "?"


def show_json(j):
    if isinstance(j, dict): return "<" + j["sym"] + ">" if "sym" in j else "{" + ", ".join(f"{k}: {show_json(x)}" for k, x in j["obj"]) + "}"
    if isinstance(j, list): return "[" + ", ".join(map(show_json, j)) + "]"
    return json.dumps(j)


def show_val(v):
    k = v["k"]
    if k == "leaf": return "<" + v["n"] + ">"
    if k == "const": return json.dumps(v["v"])
    if k == "array": return "[" + ", ".join(map(show_val, v["v"])) + "]"
    if k == "set": return "Set(" + ", ".join(map(show_val, v["v"])) + ")"
    if k == "map": return "Map(" + ", ".join(f"{show_val(a)} => {show_val(b)}" for a, b in v["v"]) + ")"
    if k == "object": return "{" + ", ".join(f"{a}: {show_val(b)}" for a, b in v["v"]) + "}"
    return k


def check_C05(ctx):
    specs = derived()
    c = Client(ctx, ARG_TYPES, specs)
    c.parse()
    forms, jobs, what_of, form_of = {}, [], {}, {}
    for t in ARG_TYPES: what_of[t], form_of[t] = t, rust_form(t)
    for sp in specs: what_of[sp.name], form_of[sp.name] = re.sub(r"\s+", " ", re.sub(r"#\[(derive|zod)\(.*?\)\]\s|::?std::collections::|pub ", "", sp.rust())).strip(), spec_form(sp)
    for i, t in enumerate(ARG_TYPES + [sp.name for sp in specs]):
        try: sh = c.shape(c.w, f"use|{t}|inline_schema" if i < len(ARG_TYPES) else f"type|Chat|{t}|schema"); vals = Values().of(sh)
        except Undecided as e: ctx.undecide(t, str(e)); continue
        ctx.count("argument types")
        for n, v in enumerate(vals):
            for nest in ("plain", "struct", "list"):
                if nest == "struct": w = {"k": "object", "v": [["field", v], ["other", {"k": "leaf", "n": "o"}]]}
                elif nest == "list": w = {"k": "array", "v": [v, {"k": "leaf", "n": "o"}]}
                else: w = v
                forms[f"{i}.{n}.{nest}"] = (t, v, nest)
                jobs.append(dict(id=f"{i}.{n}.{nest}", v=w))
    if not jobs: raise CheckError("no argument schema could be read: " + str(ctx.undecided[:2])[:500])
    k = max(1, len(jobs) // 8 + 1)
    outs = c.go([dict(values=jobs[a:a + k]) for a in range(0, len(jobs), k)])
    for o in outs:
        for u in o["undecided"]: ctx.undecide("client", u)
        for r in o["values"]:
            t, v, nest = forms[r["id"]]
            for snt in r["sent"]:
                ctx.count("values compared")
                key = f"{what_of[t]}:{v['k']}"
                what = f"{show_val(v)} for an argument {'of type' if nest == 'plain' else 'with a field of type' if nest == 'struct' else 'with elements of type'} {what_of[t]}"
                if snt["none"]: ctx.violate(key, f"{what}: nothing is sent" + (f", the client throws {snt['error']}" if snt["error"] else "")); continue
                j = snt["json"]
                if not isinstance(j, list) or len(j) != 2 or j[1] != {"sym": "second"}: ctx.violate(key, f"{what}: the arguments are sent as {show_json(j)}"); continue
                j = j[0]
                if nest == "struct":
                    have = dict(j["obj"]) if isinstance(j, dict) and "obj" in j else {}
                    if have.get("other") != {"sym": "o"}: ctx.violate(key, f"{what}: the object is sent as {show_json(j)}"); continue
                    if "field" not in have:
                        if v["k"] != "undefined": ctx.violate(key, f"{what}: the field is not sent")
                        continue
                    j = have["field"]
                elif nest == "list":
                    if not isinstance(j, list) or len(j) != 2 or j[1] != {"sym": "o"}: ctx.violate(key, f"{what}: the list is sent as {show_json(j)}"); continue
                    j = j[0]
                e = fits(form_of[t], v, j)
                if e and re.fullmatch(r"in position \d+ with a default: a missing value is accepted", e): key = f"missing-position:{what_of[t]}"
                if e: ctx.violate(key, f"{what}: {e}", sent=show_json(j))
                elif ctx.counts["values compared"] % 150 == 1: ctx.sample({"type": t, "value": show_val(v), "sent": show_json(j), "by": snt["kind"]})
    if not ctx.counts.get("values compared"): raise CheckError("no argument could be followed to the wire: " + str(ctx.undecided[:3])[:700])
    return c
