"""Properties of derived types: comparison of what the generated code evaluates to with serde's rules."""
import json
from common import *
from derive_run import *
from spec import *


def strip_opt(x):
    """drops optionality of entries and positions"""
    if isinstance(x, list): return [strip_opt(y) for y in x]
    if not isinstance(x, dict): return x
    if x.get("k") == "opt": return strip_opt(x["of"])
    if x.get("k") == "obj":
        o = {"k": "obj", "props": [[p[0], strip_opt(p[1])] for p in x["props"]]}
        if x.get("flat"): o["flat"] = [strip_opt(f) for f in x["flat"]]
        return o
    return {a: strip_opt(b) for a, b in x.items()}


def cmp_key(x): return json.dumps(x, sort_keys=True, ensure_ascii=False)


def flat_unions(x):
    if isinstance(x, list): return [flat_unions(y) for y in x]
    if not isinstance(x, dict): return x
    x = {a: flat_unions(b) for a, b in x.items()}
    if x.get("k") == "union":
        alts = []
        for a in x["alts"]: alts += a["alts"] if a.get("k") == "union" else [a]
        x["alts"] = alts
    return x


def untagged_unions(sp, comp):
    """component types whose alternatives become alternatives of the type itself"""
    if sp.kind != "enum" or not sp.a.get("untagged"): return set()
    return {cmp_key(norm(strip_opt(norm(comp(t))))) for t in sp.component_types() if strip_opt(norm(comp(t))).get("k") == "union"}


def rust_of(d): return d.p.spec.rust()


def replay_detail(ctx, d, f, **kw):
    return dict(family=d.p.family, program=rust_of(d), function=f, text=(d.val.get(f) or {}).get("text"), **kw)


def guard(run, ctx, fams=None):
    """nothing may silently drop out of the analysis"""
    unexpected = [d for d in run.rejected if not d.p.rejected_ok]
    total = len(run.probes)
    if len(unexpected) > max(3, total * 0.02):
        ctx.violate("rejected", f"{len(unexpected)} of {total} witness types that serde accepts no longer derive", family="rejected",
                    program=rust_of(unexpected[0]), message=unexpected[0].rejected[0])
    for d in unexpected: ctx.undecide(d.p.id, "rejected: " + d.rejected[0][:200])


def val_shape(run, d, f):
    k = (d.p.id, f)
    if k in run.shape: return run.shape[k]
    if k in run.parse_errors: raise Undecided("parse: " + str(run.parse_errors[k])[:200])
    raise Undecided(d.why.get(f, "not evaluated"))


def unknowns(x):
    if isinstance(x, list): return any(unknowns(y) for y in x)
    if isinstance(x, dict): return x.get("k") in ("unknown", "call") or any(unknowns(y) for y in x.values())
    return False


MODES = (("schema", "schema"), ("type_def", "type"))


def structure(ctx, kinds, modes=MODES, only=None, prop=None):
    """S01, S02, S12: full structure"""
    run = DeriveRun(ctx, select=lambda p: p.spec.kind in kinds and (only is None or only(p)), fns=("schema", "type_def"))
    run.shapes()
    guard(run, ctx)
    for d in run.each():
        for f, mode in modes:
            try:
                got = val_shape(run, d, f)
                exp = d.p.spec.wire(run.comp_fn(mode), mode)
            except Undecided as e:
                if (d.p.id, f) in run.parse_errors:
                    ctx.violate(f"{d.p.family}:{f}:parse", f"{f} is no TypeScript: {e}", **replay_detail(ctx, d, f, tags=sorted(d.p.tags)))
                else: ctx.undecide(f"{d.p.id}.{f}", str(e))
                continue
            ctx.count("structures compared")
            a, b = strip_opt(norm(got)), strip_opt(norm(exp))
            a, b = norm(a), norm(b)
            if cmp_key(a) != cmp_key(b):
                if unknowns(a) and not unknowns(b): ctx.undecide(f"{d.p.id}.{f}", "form not understood: " + show_shape(a)[:300]); continue
                ctx.violate(f"{d.p.family}:{f}", f"{d.p.family}: {f} of {d.p.spec.name} is {show_shape(a)[:400]}, serde reads {show_shape(b)[:400]}",
                            **replay_detail(ctx, d, f, tags=sorted(d.p.tags), expected=show_shape(b), got=show_shape(a)))
            elif ctx.counts["structures compared"] % 900 == 1: ctx.sample({"program": rust_of(d), "function": f, "structure": show_shape(a)})
    return run


def check_S01(ctx):
    return structure(ctx, ("struct", "tuple"), modes=(("schema", "schema"),), only=lambda p: not p.family.startswith("from") and "docs" != p.family)


def check_S02(ctx):
    run = structure(ctx, ("enum",), modes=(("schema", "schema"),), only=lambda p: not p.family.startswith("from") and "docs" != p.family)
    # discriminated unions
    for d in run.each():
        try: got = val_shape(run, d, "schema")
        except Undecided: continue
        sp = d.p.spec
        kept = [v for v in sp.variants if not v.skipped()]
        if len(kept) < 2: continue
        disc = got.get("disc") if got.get("k") == "union" else None
        tag = sp.a.get("tag")
        ctx.count("unions")
        if disc is not None:
            bad = None
            if tag is None: bad = f"discriminates on {disc!r} but the enum has no tag"
            elif disc != tag: bad = f"discriminates on {disc!r} instead of {tag!r}"
            else:
                for a in got["alts"]:
                    if not (a.get("k") == "obj" and not a.get("flat") and any(p[0] == tag and p[1].get("k") == "lit" for p in a["props"])):
                        bad = f"alternative {show_shape(norm(a))} is no plain object with the tag"
            if bad: ctx.violate(f"{d.p.family}:disc", f"{d.p.family}: union of {sp.name} {bad}", **replay_detail(ctx, d, "schema", tags=sorted(d.p.tags)))
    return run


# ---------------------------------------------------------------------------------------------- names
def names_in(sh, depth_comp):
    """names of the derived level with the component they belong to"""
    out = []

    def go(x):
        if cmp_key(strip_opt(norm(x))) in depth_comp: return
        k = x.get("k")
        if k == "lit" and isinstance(x["v"], str): out.append(("lit", x["v"]))
        elif k == "obj":
            for p in x["props"]:
                out.append(("key", p[0]))
                go(p[1])
            for f in x.get("flat", []): go(f)
        elif k in ("opt", "array", "set", "lazy", "mod"): go(x["of"])
        elif k == "union":
            if x.get("disc") is not None: out.append(("disc", x["disc"]))
            for a in x["alts"]: go(a)
        elif k == "tuple":
            for a in x["items"]: go(a)
    go(sh)
    return out


def pairs_in(sh, comps):
    """(key, component) pairs for components that are unique in the type"""
    out = []

    def go(x):
        k = x.get("k")
        if k == "obj":
            for p in x["props"]:
                c = cmp_key(strip_opt(norm(p[1])))
                if c in comps: out.append((p[0], c))
                else: go(p[1])
            for f in x.get("flat", []): go(f)
        elif k == "opt": go(x["of"])
        elif k == "union":
            for a in x["alts"]: go(a)
        elif k == "tuple":
            for a in x["items"]: go(a)
    go(sh)
    return out


def check_S03(ctx):
    run = DeriveRun(ctx, select=lambda p: p.family != "docs", fns=("schema", "type_def", "inline_schema", "inline"), inventory=True)
    run.shapes()
    guard(run, ctx)
    reg = registrations(run, ctx)
    for d in run.each():
        sp = d.p.spec
        for f, mode in MODES:
            try:
                got = val_shape(run, d, f)
                comp = run.comp_fn(mode)
                exp = sp.wire(comp, mode)
                cs = [cmp_key(strip_opt(norm(comp(t)))) for t in sp.component_types()]
                uu = untagged_unions(sp, comp)
                if uu: got, exp, cs = flat_unions(got), flat_unions(exp), [c for c in cs if c not in uu]
            except Undecided as e:
                if (d.p.id, f) in run.parse_errors and not (d.p.tags & {"flatten"}):
                    ctx.violate(f"{d.p.family}:{f}:parse", f"{d.p.family}: {f} of {sp.name} is no TypeScript: {e}", **replay_detail(ctx, d, f, tags=sorted(d.p.tags)))
                else: ctx.undecide(f"{d.p.id}.{f}", str(e))
                continue
            cset = set(cs)
            a, b = names_in(got, cset), names_in(exp, cset)
            if sp.a.get("tag") and f == "schema": b.append(("disc", sp.a["tag"]))
            ctx.count("names compared", len(a))
            extra = [x for x in a if x not in b]
            if extra:
                ctx.violate(f"{d.p.family}:{f}:name", f"{d.p.family}: {f} of {sp.name} has the name {extra[0][1]!r} where serde reads {[x[1] for x in b if x[0] == extra[0][0]][:12]!r}",
                            **replay_detail(ctx, d, f, tags=sorted(d.p.tags)))
                continue
            uniq = {c for c in cs if cs.count(c) == 1}
            pa, pb = pairs_in(got, uniq), {}
            for n, c in pairs_in(exp, uniq): pb.setdefault(c, set()).add(n)
            for n, c in pa:
                if c in pb and n not in pb[c]:
                    ctx.violate(f"{d.p.family}:{f}:pair", f"{d.p.family}: {f} of {sp.name} puts {n!r} where serde reads {sorted(pb[c])[0]!r}", **replay_detail(ctx, d, f, tags=sorted(d.p.tags)))
                    break
            if ctx.counts["names compared"] % 700 == 1: ctx.sample({"program": rust_of(d), "names": [x[1] for x in a][:10]})
        # exported name
        exp = sp.exported()
        r = reg.get(d.p.id)
        if r is not None:
            ctx.count("exported names compared")
            for ns, name in r:
                if name != exp: ctx.violate(f"{d.p.family}:exported", f"{sp.name} is exported as {name!r}, serde's name is {exp!r}", **replay_detail(ctx, d, "registration"))
        for f in ("inline_schema", "inline"):
            s = run.shape.get((d.p.id, f))
            if not s: continue
            x = s["of"] if s.get("k") == "lazy" else s
            if x.get("k") == "ref" and x["v"].split(".")[-1] != exp:
                ctx.violate(f"{d.p.family}:{f}:ref", f"{sp.name} is referred to as {x['v']!r}, its exported name is {exp!r}", **replay_detail(ctx, d, f))
    return run


NSNAME = {"Ns": "Ns", "NsRen": "Other_Name", "crate::deep::NsDeep": "NsDeep", "super::Ns": "Ns"}


def registrations(run, ctx):
    """probe -> [(namespace, name)] of the registrations next to the type"""
    by = {}
    for i, r, v, why in run.inventory:
        if v is None: raise CheckError("registrations are not readable: " + (why or "?"))
        for x in (v["value"].get("v") or []):
            m, t, *vals = x["v"]
            if not t.endswith("NamespaceMemberDefinition"): continue
            if m == "corpus::base" and i: continue
            by.setdefault(m.split("::")[1], []).append(tuple(vals))
    return by


# ---------------------------------------------------------------------------------------------- optionality
def is_option(t): return t.split("<")[0].split("::")[-1].strip() == "Option"


def entries(sh):
    """named entries and positions of the derived level: path -> (shape, questionmark or None)"""
    out = {}

    def go(x, path):
        k = x.get("k")
        if k == "obj":
            for p in x["props"]: out[path + ("." + p[0],)] = (p[1], p[2] if len(p) > 2 else None); go(p[1], path + ("." + p[0],))
        elif k == "tuple":
            for i, p in enumerate(x["items"]): out[path + (f"#{i}",)] = (p, None); go(p, path + (f"#{i}",))
        elif k == "union":
            for i, a in enumerate(x["alts"]): go(a, path + (f"|{i}",))
        elif k == "opt": go(x["of"], path)
    if sh.get("k") == "opt": out[("",)] = (sh, None)
    go(sh, ())
    return out


def check_S04(ctx):
    run = DeriveRun(ctx, select=lambda p: p.family != "docs" and not p.family.startswith("from"), fns=("schema", "type_def"))
    run.shapes()
    guard(run, ctx)
    for d in run.each():
        sp = d.p.spec
        if "nondefault_after_default" in d.p.tags:
            ctx.violate("tuple:nondefault_after_default", f"a tuple struct with a required position after an optional one is accepted", **replay_detail(ctx, d, "schema"))
            continue
        for f, mode in MODES:
            try:
                got = val_shape(run, d, f)
                comp = run.comp_fn(mode)
                exp = sp.wire(comp, mode)
            except Undecided as e: ctx.undecide(f"{d.p.id}.{f}", str(e)); continue
            A, B = entries(got), entries(exp)
            whole = (got.get("k") == "opt") != (exp.get("k") == "opt") and sp.kind != "enum"
            ctx.count("entries compared", len(B))
            if whole:
                ctx.violate(f"{d.p.family}:{f}:whole", f"{d.p.family}: {f} of {sp.name} is {show_shape(norm(got))}, expected {show_shape(norm(exp))}", **replay_detail(ctx, d, f)); continue
            # fields whose own type is optional: TypeScript may write them either way
            for path, (e, _) in B.items():
                if path not in A: continue
                g, q = A[path]
                eo, go_ = e.get("k") == "opt", g.get("k") == "opt"
                if eo != go_:
                    ctx.violate(f"{d.p.family}:{f}", f"{d.p.family}: entry {path[-1]} of {sp.name} is {'optional' if go_ else 'required'} in {f}, serde {'fills it with a default' if eo else 'requires it'}",
                                **replay_detail(ctx, d, f, entry=list(path))); break
            if mode == "type" and sp.kind == "struct" and not sp.a.get("transparent") and got.get("k") == "obj":
                cd = bool(sp.a.get("default"))
                rule = de_name(sp.a.get("rename_all"))
                for fl in sp.fields:
                    if fl.skipped() or fl.a.get("flatten"): continue
                    want = cd or fl.optional()
                    for p in got["props"]:
                        if p[0] == fl.wire(rule) and len(p) > 2 and p[2] != want and not (is_option(fl.ty) and p[2]):
                            ctx.violate(f"{d.p.family}:{f}:mark", f"{d.p.family}: the key {p[0]} of {sp.name}'s type is {'optional' if p[2] else 'required'}, serde {'fills it with a default' if want else 'requires it'}", **replay_detail(ctx, d, f)); break
    # rejected tuples: the reason has to be the rule itself, and there must be some
    rej = [d for d in run.rejected if "nondefault_after_default" in d.p.tags]
    ctx.count("invalid tuple structs rejected", len(rej))
    if not rej and not ctx.viol: raise CheckError("no invalid tuple struct in the corpus")
    return run


# ---------------------------------------------------------------------------------------------- skipping and order
def outline(sh, names, comps):
    """components and names of the derived level in textual order"""
    out = []

    def go(x):
        c = cmp_key(norm(strip_opt(norm(x))))
        if c in comps: out.append(("c", c)); return
        k = x.get("k")
        if k == "lit": out.append(("n", x["v"]))
        elif k == "null": out.append(("null",))
        elif k == "obj":
            for p in x["props"]:
                out.append(("n", p[0])); go(p[1])
            for f in x.get("flat", []): out.append(("flat",)); go(f)
        elif k in ("opt",): go(x["of"])
        elif k == "union":
            for a in x["alts"]: out.append(("|",)); go(a)
        elif k == "tuple":
            out.append(("[",))
            for a in x["items"]: go(a)
        elif k == "unknown": raise Undecided("form not understood: " + x.get("text", "")[:100])
        else: out.append(("?", cmp_key(x)))
    go(sh)
    return [x for x in out if x[0] != "n" or x[1] in names]


def check_S05(ctx):
    run = DeriveRun(ctx, select=lambda p: p.family != "docs" and not p.family.startswith("from"), fns=("schema", "type_def"))
    run.shapes()
    guard(run, ctx)
    for d in run.each():
        sp = d.p.spec
        for f, mode in MODES:
            try:
                got = val_shape(run, d, f)
                comp = run.comp_fn(mode)
                exp = sp.wire(comp, mode)
                cs = [cmp_key(norm(strip_opt(norm(comp(t))))) for t in sp.component_types()]
                uu = untagged_unions(sp, comp)
                if uu: got, exp, cs = flat_unions(got), flat_unions(exp), [c for c in cs if c not in uu]
                enames = {x[1] for x in names_in(exp, set(cs)) if x[0] in ("key", "lit")}
                gnames = {x[1] for x in names_in(got, set(cs)) if x[0] in ("key", "lit")}
                common = enames & gnames if len(enames) == len(gnames) else enames
                a, b = outline(got, common, set(cs)), outline(exp, common, set(cs))
            except Undecided as e: ctx.undecide(f"{d.p.id}.{f}", str(e)); continue
            ctx.count("sequences compared")
            if a != b:
                sh = lambda l: [x[1] if len(x) > 1 else x[0] for x in l]
                ctx.violate(f"{d.p.family}:{f}", f"{d.p.family}: {f} of {sp.name} lists {sh(a)}, the fields and variants serde reads are {sh(b)}"[:600], **replay_detail(ctx, d, f, tags=sorted(d.p.tags)))
            elif ctx.counts["sequences compared"] % 1500 == 1: ctx.sample({"program": rust_of(d), "sequence": [str(x)[:60] for x in a][:12]})
    return run


# ---------------------------------------------------------------------------------------------- schema = type
def unify(x, mode):
    """common form of schemas and types"""
    if isinstance(x, list): return [unify(y, mode) for y in x]
    if not isinstance(x, dict): return x
    k = x.get("k")
    if k == "atom":
        v = x["v"]
        for suf in (".inline_schema", ".schema", ".inline", ".type_def"):
            if v.endswith(suf): return {"k": "atom", "v": v[:-len(suf)]}
        return x
    if k == "lazy": return unify(x["of"], mode)
    if k in ("string", "number", "bigint"): return {"k": k}
    if k == "obj":
        o = {"k": "obj", "props": [[p[0], unify(p[1], mode)] for p in x["props"]]}
        if x.get("flat"): o["flat"] = [unify(f, mode) for f in x["flat"]]
        return o
    return {a: unify(b, mode) for a, b in x.items() if a != "disc"}


def check_S06(ctx):
    prims = PRIMS + STRINGS
    gens = generic_types()
    ts = [t for t, *_ in prims] + [g[0] for g in gens]

    def jobs(i):
        if i: return []
        return [(f"{t}|{f}", dict(op="assoc", ty=t, fn=f, trait="zod_core::ZodType", module="corpus")) for t in ts for f in ("schema", "type_def", "inline_schema", "inline")]
    run = DeriveRun(ctx, select=lambda p: p.family != "docs", fns=("schema", "type_def"), extra_jobs=jobs, comps=False)
    run.shapes()
    guard(run, ctx)

    def compare(key, what, s, t, **detail):
        a, b = norm(unify(s, "schema")), norm(unify(t, "type"))
        ctx.count("pairs compared")
        if cmp_key(a) != cmp_key(b):
            if unknowns(a) or unknowns(b): ctx.undecide(key, f"form not understood: {show_shape(a)[:200]} / {show_shape(b)[:200]}"); return
            ctx.violate(key, f"{what}: the schema describes {show_shape(a)[:300]}, the type {show_shape(b)[:300]}", **detail)
        elif ctx.counts["pairs compared"] % 1500 == 1: ctx.sample({"what": what, "both": show_shape(a)[:300]})
    for d in run.each():
        try: s, t = val_shape(run, d, "schema"), val_shape(run, d, "type_def")
        except Undecided as e:
            if any((d.p.id, f) in run.parse_errors for f in ("schema", "type_def")):
                ctx.violate(f"{d.p.family}:parse", f"{d.p.family}: {d.p.spec.name} is no TypeScript: {e}", **replay_detail(ctx, d, "type_def", tags=sorted(d.p.tags)))
            else: ctx.undecide(d.p.id, str(e))
            continue
        compare(f"{d.p.family}", f"{d.p.family}: {d.p.spec.name}", s, t, **replay_detail(ctx, d, "type_def", schema=d.val["schema"]["text"], tags=sorted(d.p.tags)))
    sh = builtin_shapes(ctx, run, ts, ("schema", "type_def", "inline_schema", "inline"))
    for t in ts:
        for a, b in (("schema", "type_def"), ("inline_schema", "inline")):
            if (t, a) in sh and (t, b) in sh: compare(f"builtin:{t}", f"{t} ({a}/{b})", sh[(t, a)], sh[(t, b)], program=t)
            else: ctx.undecide(f"builtin:{t}", "not evaluated")
    return run


# ---------------------------------------------------------------------------------------------- built-ins
PRIMS = [("u8", 0, 2**8 - 1), ("u16", 0, 2**16 - 1), ("u32", 0, 2**32 - 1), ("u64", 0, 2**64 - 1), ("u128", 0, 2**128 - 1), ("usize", 0, None),
         ("i8", -2**7, 2**7 - 1), ("i16", -2**15, 2**15 - 1), ("i32", -2**31, 2**31 - 1), ("i64", -2**63, 2**63 - 1), ("i128", -2**127, 2**127 - 1), ("isize", None, None),
         ("f32", "f", None), ("f64", "f", None), ("ordered_float::NotNan<f32>", "f", None), ("ordered_float::NotNan<f64>", "f", None), ("::zod::__private::serde_json::Value", None, None)][:16]
STRINGS = [("String",), ("&'static str",), ("bool",), ("char",), ("()",), ("std::net::Ipv4Addr",), ("std::net::Ipv6Addr",), ("std::net::IpAddr",), ("smol_str::SmolStr",)]


def generic_types():
    """(type, expected schema shape builder)"""
    A, B = {"k": "par", "i": 0}, {"k": "par", "i": 1}
    g = []
    for params in ((T0, T1), ("crate::base::Plain", "crate::base::Renamed"), ("crate::base::InRen", "crate::base::Plain"), (f"Vec<{T0}>", f"Option<{T1}>"), ("u8", "String"), (f"({T0}, {T1})", T0), (f"Option<{T0}>", f"Box<{T1}>"), (f"Box<crate::base::Renamed>", f"Result<{T0}, {T1}>")):
        a, b = params
        C = "std::collections::"
        opt = {"k": "opt", "of": A}
        arr, st = {"k": "array", "of": A}, {"k": "set", "of": A}
        mp = {"k": "map", "key": A, "val": B}
        g += [(f"Vec<{a}>", arr, params), (f"[{a}; 3]", arr, params), (f"[{a}; 1]", arr, params), (f"[{a}; 40]", arr, params),
              (f"{C}HashSet<{a}>", st, params), (f"{C}BTreeSet<{a}>", st, params), (f"{C}HashMap<{a}, {b}>", mp, params), (f"{C}BTreeMap<{a}, {b}>", mp, params),
              (f"Option<{a}>", opt, params), (f"Result<{a}, {b}>", {"k": "union", "alts": [{"k": "obj", "props": [["Ok", A]]}, {"k": "obj", "props": [["Err", B]]}]}, params)]
        for w in ("Box<{}>", "std::sync::Arc<{}>", "std::rc::Rc<{}>", "std::cell::Cell<{}>", "std::cell::RefCell<{}>", "std::sync::Mutex<{}>", "std::borrow::Cow<'static, {}>"):
            g.append((w.format(a), A, params))
        g.append((f"std::sync::Weak<{a}>", opt, params))
    return g


T0, T1 = "zq::T0", "zq::T1"


def tuple_types():
    """all supported arities with pairwise different parameters, plus derived parameters"""
    out = []
    for n in range(1, 31):
        ps = [f"zq::T{i}" for i in range(n)]
        out.append(("(" + ", ".join(ps) + ",)", ps))
    out.append(("(crate::base::Plain, crate::base::Renamed, crate::base::InRen)", ["crate::base::Plain", "crate::base::Renamed", "crate::base::InRen"]))
    out.append(("(Option<zq::T0>, Vec<crate::base::Plain>)", ["Option<zq::T0>", "Vec<crate::base::Plain>"]))
    return out


def subst(x, ps):
    if isinstance(x, list): return [subst(y, ps) for y in x]
    if not isinstance(x, dict): return x
    if x.get("k") == "par": return ps[x["i"]]
    return {a: subst(b, ps) for a, b in x.items()}


def builtin_shapes(ctx, run, types, fns, texts=()):
    """shapes of extra jobs"""
    jobs, where = [], {}
    for t in types:
        for f in fns:
            e = run.extra.get(f"{t}|{f}")
            if not e: continue
            r, v, why = e
            if v is None or v["text"] is None: ctx.undecide(f"{t}.{f}", why or "no text"); continue
            where[(t, f)] = len(jobs)
            jobs.append({"id": len(jobs), "kind": "schema" if "schema" in f else "type", "text": v["text"]})
    res = ctx.tsjobs({"jobs": jobs, "texts": list(texts)}, "builtins")["results"]
    out = {}
    for k, i in where.items():
        if "shape" in res[i]: out[k] = res[i]["shape"]
        else: ctx.violate(f"builtin:{k[0]}:parse", f"{k[1]} of {k[0]} is no TypeScript: {res[i]['error']}", program=k[0], text=jobs[i]["text"])
    return out


SMALL = lambda p: p.family in ("struct.empty",)


def builtin_run(ctx, types, fns):
    def jobs(i):
        return [(f"{t}|{f}", dict(op="assoc", ty=t, fn=f, trait="zod_core::ZodType", module="corpus")) for t in types for f in fns] if i == 0 else []
    run = DeriveRun(ctx, select=SMALL, fns=("schema",), extra_jobs=jobs, comps=False)
    return run


def number_bounds(checks):
    """(min, max, int) accepted by a zod number schema; None if a check is not understood"""
    lo, hi, integer = None, None, False
    for name, args in checks:
        a = None
        if args and isinstance(args[0], dict) and "n" in args[0]:
            t = args[0]["n"].rstrip("n").replace("_", "")
            try: a = int(t)
            except ValueError:
                try:
                    from fractions import Fraction
                    a = Fraction(t)
                except ValueError: return None
        elif args and not isinstance(args[0], (str, dict)): return None
        if name in ("finite", "safe") and name == "finite": continue
        if name == "safe": lo2, hi2 = -(2**53 - 1), 2**53 - 1; lo = lo2 if lo is None else max(lo, lo2); hi = hi2 if hi is None else min(hi, hi2); continue
        if name == "int": integer = True; continue
        if name == "nonnegative": x = ("lo", 0, False)
        elif name == "positive": x = ("lo", 0, True)
        elif name == "nonpositive": x = ("hi", 0, False)
        elif name == "negative": x = ("hi", 0, True)
        elif name in ("gte", "min"): x = ("lo", a, False)
        elif name == "gt": x = ("lo", a, True)
        elif name in ("lte", "max"): x = ("hi", a, False)
        elif name == "lt": x = ("hi", a, True)
        elif name in ("describe", "brand"): continue
        else: return None
        if x[1] is None: return None
        # order of int() and strict bounds does not matter: resolved afterwards
        if x[0] == "lo": lo = (x[1], x[2]) if lo is None else max(tup(lo), (x[1], x[2]))
        else: hi = (x[1], x[2]) if hi is None else min(tup(hi), (x[1], x[2]), key=lambda p: (p[0], not p[1]))
    import math

    def fin(b, d):
        if b is None: return None
        b = tup(b)
        if integer:
            v = b[0]
            if d > 0: return math.floor(v) + 1 if b[1] else math.ceil(v)
            return math.ceil(v) - 1 if b[1] else math.floor(v)
        return b[0]
    return fin(lo, 1), fin(hi, -1), integer


def tup(x): return x if isinstance(x, tuple) else (x, False)


def check_S09(ctx):
    types = [p[0] for p in PRIMS]
    run = builtin_run(ctx, types, ("schema", "inline_schema"))
    sh = builtin_shapes(ctx, run, types, ("schema", "inline_schema"))
    for t, lo, hi in PRIMS:
        for f in ("schema", "inline_schema"):
            s = sh.get((t, f))
            if s is None: continue
            ctx.count("number schemas")
            if s.get("k") == "bigint": ctx.violate(f"{t}", f"{f} of {t} expects a bigint, JSON numbers are numbers", program=t); continue
            if s.get("k") != "number":
                if unknowns(s): ctx.undecide(f"{t}.{f}", "form"); continue
                ctx.violate(f"{t}", f"{f} of {t} is {show_shape(s)}", program=t); continue
            b = number_bounds(s["checks"])
            if b is None: ctx.undecide(f"{t}.{f}", f"checks not understood: {s['checks']}"); continue
            l, h, integer = b
            ctx.sample({"type": t, "min": str(l), "max": str(h), "int": integer})
            if lo == "f":
                if integer or l is not None or h is not None: ctx.violate(f"{t}", f"{f} of {t} accepts {'only integers' if integer else f'only {l}..{h}'}", program=t, got=str(b))
                continue
            if not integer: ctx.violate(f"{t}", f"{f} of {t} accepts non-integral numbers", program=t); continue
            if l != lo and not (t == "isize" and False) or h != hi:
                ctx.violate(f"{t}", f"{f} of {t} accepts {l}..{h} instead of {lo}..{hi}", program=t, got=str(b))
    return run


SCALARS = [("bool", "boolean"), ("()", "null"), ("String", "string"), ("&'static str", "string"), ("smol_str::SmolStr", "string"), ("char", "string"), ("std::net::Ipv4Addr", "string"), ("std::net::Ipv6Addr", "string"), ("std::net::IpAddr", "string")] + [(p[0], "number") for p in PRIMS]
CHARS = ["a", "Z", "0", " ", "\n", "\r", "\t", "\x00", "\x7f", "é", "ß", "中", "\u2028", "\ud7ff", "\ue000", "\ufffd", "\uffff", "\U00010000", "😀", "\U0010ffff"]
V4 = ["0.0.0.0", "127.0.0.1", "255.255.255.255", "1.20.249.250", "10.9.99.100"]
V6 = ["::", "::1", "fe80::1", "2001:db8::ff00:42:8329", "1:2:3:4:5:6:7:8", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "::ffff:1.2.3.4", "1::", "64:ff9b::102:304"]
LONGER = ["", "ab", "a" * 1000, "😀😀", "e\u0301", "\n\n", "a\n", "a😀", "text with spaces", "127.0.0.1.1", "{}", "null", "\\ \" '"]


FORMATS = ("email", "url", "uuid", "cuid", "cuid2", "ulid", "datetime", "emoji", "base64", "jwt", "nanoid", "date", "time", "duration", "cidr")   # none of them admits PLAIN
PLAIN = ("text with spaces", "a\n", "127.0.0.1.1", "ab", "a", "")


def bounds(checks):
    """the lengths that checks of a text name"""
    return {int(k) for _, args in checks for a in args[:1] if isinstance(a, dict) for k in [a.get("n")] if k is not None and str(k).lstrip("-").isdigit() and 0 <= int(k) < 10 ** 6}


def accepts(checks, text):
    """does z.string() with these checks accept a text?"""
    n = len(text.encode("utf-16-le", "surrogatepass")) // 2
    for name, args in checks:
        a = args[0] if args else None
        k = a.get("n") if isinstance(a, dict) else None
        if name in ("length", "min", "max") and k is not None: ok = {"length": n == int(k), "min": n >= int(k), "max": n <= int(k)}[name]
        elif name == "nonempty": ok = n > 0
        elif name == "regex" and isinstance(a, dict) and "admits" in a: ok = text in a["admits"]
        elif name == "ip" and (a is None or isinstance(a, dict)):
            v = (a or {}).get("version")
            ok = v in (None, "v4") and text in V4 or v in (None, "v6") and text in V6
        elif name in ("startsWith", "endsWith", "includes") and isinstance(a, str): ok = {"startsWith": text.startswith(a), "endsWith": text.endswith(a), "includes": a in text}[name]
        elif name in FORMATS and text in PLAIN: ok = False
        elif name in ("describe", "brand", "trim", "toLowerCase", "toUpperCase", "normalize"): ok = True
        else: raise Undecided(f"check {name} on texts")
        if not ok: return False
    return True


def check_S16(ctx):
    types = [t for t, _ in SCALARS]
    fns = ("schema", "inline_schema", "type_def", "inline")
    run = builtin_run(ctx, types, fns)
    everything = sorted(set(CHARS + V4 + V6 + LONGER))
    sh = builtin_shapes(ctx, run, types, fns, texts=everything)
    for t, kind in SCALARS:
        for f in fns:
            s = sh.get((t, f))
            if s is None: ctx.undecide(f"{t}.{f}", "no structure"); continue
            ctx.count("scalars compared")
            if unknowns(s): ctx.undecide(f"{t}.{f}", "form"); continue
            if s.get("k") != kind: ctx.violate(f"{t}:kind", f"{f} of {t} is {show_shape(s)}, serde writes a {kind}", program=t, function=f); continue
            if kind != "string" or f in ("type_def", "inline"): continue
            own = {"char": CHARS, "std::net::Ipv4Addr": V4, "std::net::Ipv6Addr": V6, "std::net::IpAddr": V4 + V6}.get(t, everything)
            cs = s.get("checks") or []
            free = own is everything
            # a bound on the length of a free text is decided by a text beyond it
            for x in everything + (["a" * n for k in sorted(bounds(cs)) for n in (k, k + 1)] if free else []):
                try: got = accepts(cs, x)
                except Undecided as e: ctx.undecide(f"{t}.{f}", str(e)); break
                ctx.count("texts decided")
                if got != (free or x in own): ctx.violate(f"{t}:texts", f"{f} of {t} {'accepts' if got else 'rejects'} {json.dumps(x[:60])}, serde {'reads' if free or x in own else 'does not read'} it", program=t, function=f, schema=run.extra[f"{t}|{f}"][1]["text"]); break
            else: ctx.sample({"type": t, "function": f, "checks": s.get("checks"), "texts": len(everything)})
    if not ctx.counts.get("scalars compared"): raise CheckError("no scalar could be read")
    return run


def check_S10(ctx):
    gens, tups = generic_types(), tuple_types()
    types = [g[0] for g in gens] + [t[0] for t in tups] + ["std::marker::PhantomData<zq::T0>"]
    params = sorted({p for g in gens for p in g[2]} | {p for t in tups for p in t[1]})
    fns = ("schema", "type_def", "inline_schema", "inline")
    run = builtin_run(ctx, types + params, fns)
    sh = builtin_shapes(ctx, run, types + params, fns)

    def cmp(t, f, exp):
        got = sh.get((t, f))
        if got is None: return
        ctx.count("compositions compared")
        a, b = norm(got), norm(exp)
        if cmp_key(a) != cmp_key(b):
            if unknowns(a): ctx.undecide(f"{t}.{f}", "form not understood: " + show_shape(a)); return
            ctx.violate(f"{t}:{f}", f"{f} of {t} is {show_shape(a)}, its parameters give {show_shape(b)}", program=t, function=f, text=run.extra[f"{t}|{f}"][1]["text"])
        elif ctx.counts["compositions compared"] % 60 == 1: ctx.sample({"type": t, "function": f, "structure": show_shape(a)})

    def variants(t, exp, ps, f, pf):
        """a parameter may be expanded once or referred to; both are compositions of it"""
        got = sh.get((t, f))
        if got is None: return
        cands = []
        for q in pf:
            try: cands.append(norm(subst(exp, [sh[(p, q)] for p in ps])))
            except KeyError: pass
        if not cands: ctx.undecide(f"{t}.{f}", "parameters not evaluated"); return
        a = norm(got)
        eq = lambda x: cmp_key(unify(x, ""))
        ctx.count("compositions compared")
        if all(eq(a) != eq(c) for c in cands):
            if unknowns(a): ctx.undecide(f"{t}.{f}", "form not understood: " + show_shape(a)); return
            ctx.violate(f"{t}:{f}", f"{f} of {t} is {show_shape(a)}, its parameters give {show_shape(cands[0])}", program=t, function=f, text=run.extra[f"{t}|{f}"][1]["text"])
        elif ctx.counts["compositions compared"] % 60 == 1: ctx.sample({"type": t, "function": f, "structure": show_shape(a)})
    for t, exp, ps in gens:
        own = exp.get("k") == "par"
        for f, pf in (("schema", ("inline_schema", "schema")), ("inline_schema", ("inline_schema", "schema")), ("type_def", ("inline", "type_def")), ("inline", ("inline", "type_def"))):
            variants(t, exp, list(ps), f, pf)
    for t, ps in tups:
        exp = {"k": "tuple", "items": [{"k": "par", "i": i} for i in range(len(ps))]}
        for f, pf in (("schema", ("inline_schema", "schema")), ("inline_schema", ("inline_schema", "schema")), ("type_def", ("inline", "type_def")), ("inline", ("inline", "type_def"))):
            variants(t, exp, ps, f, pf)
    for f in fns: cmp("std::marker::PhantomData<zq::T0>", f, {"k": "null"})
    return run


# ---------------------------------------------------------------------------------------------- references
def refs_in(x, deferred=False):
    if isinstance(x, list):
        for y in x: yield from refs_in(y, deferred)
    elif isinstance(x, dict):
        if x.get("k") == "ref": yield x["v"], deferred
        elif x.get("k") == "lazy": yield from refs_in(x["of"], True)
        else:
            for y in x.values(): yield from refs_in(y, deferred)


def check_S07(ctx):
    conts = ["Vec<{}>", "Option<{}>", "Box<{}>", "std::sync::Arc<{}>", "std::rc::Rc<{}>", "({}, zq::T0)", "(zq::T0, {}, zq::T1)", "Result<{}, zq::T0>", "Result<zq::T0, {}>", "[{}; 2]", "std::collections::HashMap<String, {}>",
             "std::collections::BTreeMap<String, {}>", "std::collections::HashSet<{}>", "std::collections::BTreeSet<{}>", "std::borrow::Cow<'static, {}>", "std::cell::Cell<{}>", "std::cell::RefCell<{}>", "std::sync::Mutex<{}>", "Vec<Option<Box<{}>>>", "({},)"]
    base = {"crate::base::Plain": "Ns.Plain", "crate::base::Renamed": "Ns.OtherBase", "crate::base::InRen": "Other_Name.InRen", "crate::base::New": "Ns.New", "crate::base::En": "Ns.En"}
    types = {c.format(b): r for c in conts for b, r in base.items()}
    types.update(base)
    fns = ("schema", "type_def", "inline_schema", "inline")

    def jobs(i):
        return [(f"{t}|{f}", dict(op="assoc", ty=t, fn=f, trait="zod_core::ZodType", module="corpus")) for t in types for f in fns] if i == 0 else []
    run = DeriveRun(ctx, fns=("schema", "type_def", "inline_schema", "inline"), extra_jobs=jobs, inventory=True)
    run.shapes()
    guard(run, ctx)
    reg = registrations(run, ctx)
    exported = {f"{ns}.{n}" for l in reg.values() for ns, n, *_ in l}
    ctx.counts["exported names"] = len(exported)
    if not exported: raise CheckError("no registrations found")
    for d in run.each():
        sp = d.p.spec
        want = f"{NSNAME[sp.ns]}.{sp.exported()}"
        r = reg.get(d.p.id, [])
        names = {f"{ns}.{n}" for ns, n, *_ in r}
        for f in ("inline_schema", "inline"):
            try: s = val_shape(run, d, f)
            except Undecided as e: ctx.undecide(f"{d.p.id}.{f}", str(e)); continue
            ctx.count("references")
            if f == "inline_schema":
                ok = s.get("k") == "lazy" and s["of"].get("k") == "ref"
                v = s["of"]["v"] if ok else None
                if not ok: ctx.violate(f"{d.p.family}:{f}", f"{d.p.family}: schemas refer to {sp.name} by {show_shape(s)[:200]}, which is no deferred reference", **replay_detail(ctx, d, f)); continue
            else:
                if s.get("k") != "ref": ctx.violate(f"{d.p.family}:{f}", f"{d.p.family}: types refer to {sp.name} by {show_shape(s)[:200]}, which is no reference", **replay_detail(ctx, d, f)); continue
                v = s["v"]
            if names and v not in names or v != want:
                ctx.violate(f"{d.p.family}:{f}:target", f"{d.p.family}: {f} of {sp.name} refers to {v}, it is exported as {sorted(names)[0] if names else want}", **replay_detail(ctx, d, f))
        for f, mode in MODES:
            s = run.shape.get((d.p.id, f))
            if s is None: continue
            for v, deferred in refs_in(s):
                ctx.count("references")
                if v not in exported: ctx.violate(f"{d.p.family}:{f}:unresolved", f"{d.p.family}: {f} of {sp.name} refers to {v}, which is not exported", **replay_detail(ctx, d, f))
                if f == "schema" and not deferred: ctx.violate(f"{d.p.family}:{f}:eager", f"{d.p.family}: the schema of {sp.name} refers to {v} before it may be declared", **replay_detail(ctx, d, f))
    sh = builtin_shapes(ctx, run, list(types), fns)
    for (t, f), s in sh.items():
        rs = list(refs_in(s))
        ctx.count("references", len(rs))
        # wrappers are their parameter
        own = f in ("schema", "type_def") and (t in base or cmp_key(s) == cmp_key(sh.get((types[t] and next(b for b, r in base.items() if r == types[t]), f))))
        if own: continue
        if not any(v == types[t] for v, _ in rs):
            ctx.violate(f"{t}:{f}", f"{f} of {t} does not refer to {types[t]}: {show_shape(s)[:300]}", program=t, function=f)
        for v, deferred in rs:
            if v not in exported: ctx.violate(f"{t}:{f}:unresolved", f"{f} of {t} refers to {v}, which is not exported", program=t)
            if "schema" in f and not deferred: ctx.violate(f"{t}:{f}:eager", f"{f} of {t} refers to {v} before it may be declared", program=t)
    return run


# ---------------------------------------------------------------------------------------------- from / try_from
def check_S12(ctx):
    run = DeriveRun(ctx, select=lambda p: p.family.startswith("from") or bool(p.spec.a.get("from") or p.spec.a.get("try_from")), fns=("schema", "type_def", "inline_schema", "inline"), inventory=True)
    run.shapes()
    guard(run, ctx)
    reg = registrations(run, ctx)
    for d in run.each():
        sp = d.p.spec
        for f, mode in MODES:
            try:
                got = val_shape(run, d, f)
                exp = sp.wire(run.comp_fn(mode), mode)
            except Undecided as e: ctx.undecide(f"{d.p.id}.{f}", str(e)); continue
            ctx.count("conversions compared")
            a, b = norm(unify(got, mode)), norm(unify(exp, mode))
            if cmp_key(a) != cmp_key(b):
                if unknowns(a): ctx.undecide(f"{d.p.id}.{f}", "form"); continue
                ctx.violate(f"{d.p.family}:{f}", f"{d.p.family}: {f} of {sp.name} is {show_shape(a)}, its source type is {show_shape(b)}", **replay_detail(ctx, d, f))
            elif ctx.counts["conversions compared"] % 50 == 1: ctx.sample({"program": rust_of(d), "structure": show_shape(a)})
        want = f"{NSNAME[sp.ns]}.{sp.exported()}"
        names = [f"{r[0]}.{r[1]}" for r in reg.get(d.p.id, [])]
        if names != [want]: ctx.violate(f"{d.p.family}:registered", f"{d.p.family}: {sp.name} is exported as {names}, expected {want}", **replay_detail(ctx, d, "registration"))
        for f in ("inline_schema", "inline"):
            s = run.shape.get((d.p.id, f))
            if s is None: continue
            x = s["of"] if s.get("k") == "lazy" else s
            ctx.count("references")
            src = sp.a.get("from") or sp.a.get("try_from")
            if sp.kind and src and x != {"k": "ref", "v": want}:
                ctx.violate(f"{d.p.family}:{f}", f"{d.p.family}: {sp.name} is referred to as {show_shape(s)}, not by its own name {want}", **replay_detail(ctx, d, f))
    return run


# ---------------------------------------------------------------------------------------------- docs
def check_S13(ctx):
    run = DeriveRun(ctx, select=lambda p: p.family in ("docs", "struct.2", "enum.2", "tuple.2"), fns=("docs",), comps=False)
    jobs, where = [], {}
    for d in run.each():
        v = d.val.get("docs")
        if v is None: ctx.undecide(d.p.id, d.why.get("docs", "?")); continue
        x = v["value"]
        txt = ""
        if isinstance(x, dict) and x.get("variant") == "Some": txt = x["f"]["0"]
        if not isinstance(txt, str): ctx.undecide(d.p.id, "no text"); continue
        where[d.p.id] = (len(jobs), txt)
        jobs.append({"id": len(jobs), "kind": "comment", "text": txt})
    res = ctx.tsjobs({"jobs": jobs}, "docs")["results"]
    for d in run.each():
        if d.p.id not in where: continue
        i, txt = where[d.p.id]
        r = res[i]
        exp = d.p.docs_expected or []
        ctx.count("comments")
        bad = None
        if "error" in r: bad = f"is not only a comment: {r['error']}"
        else:
            cs = r["comments"]
            if not exp:
                if cs: bad = f"has a comment without documentation: {cs}"
            elif len(cs) != 1: bad = f"is {len(cs)} comments"
            elif not cs[0].startswith("/**"): bad = "is no documentation comment"
            else:
                got = [strip_star(l) for l in cs[0][3:-2].split("\n")]
                while got and not got[0]: got.pop(0)
                while got and not got[-1]: got.pop()
                want = [neutral(strip_star(l)) for l in exp]
                got = [neutral(l) for l in got]
                if got != want: bad = f"has the lines {got}, documented are {want}"
        if bad: ctx.violate(f"docs:{d.p.spec.kind}", f"the comment of {d.p.spec.name} {bad}"[:700], **replay_detail(ctx, d, "docs", comment=txt))
        elif ctx.counts["comments"] % 40 == 1: ctx.sample({"docs": d.p.spec.docs, "comment": txt})
    return run


def strip_star(l):
    """the text of a line of a comment; stars in front of it are decoration in block comments"""
    l = l.strip()
    while l.startswith("* ") or l == "*": l = l[1:].strip()
    return l


def neutral(l):
    """`*/` may be written in any way that does not end the comment"""
    for s in ("*\\/", "*​/", "* /", "*&#47;", "&#42;/", "∗/"): l = l.replace(s, "*/")
    return l


# ---------------------------------------------------------------------------------------------- termination
COMPONENT = ("inline_schema", "inline")


def check_S08(ctx):
    """derived code reaches other types only through references, built-in types reach their parameters only through references:
    with that every chain of calls ends at the first derived type"""
    conts = ["Vec<{}>", "Option<{}>", "Box<{}>", "std::sync::Arc<{}>", "std::rc::Rc<{}>", "({},)", "({}, zq::T1)", "(zq::T1, {})", "(zq::T1, {}, zq::T2)", "Result<{}, zq::T1>", "Result<zq::T1, {}>", "[{}; 2]",
             "std::collections::HashMap<zq::T1, {}>", "std::collections::HashMap<{}, zq::T1>", "std::collections::BTreeMap<zq::T1, {}>", "std::collections::BTreeMap<{}, zq::T1>", "std::collections::HashSet<{}>", "std::collections::BTreeSet<{}>",
             "std::borrow::Cow<'static, {}>", "std::cell::Cell<{}>", "std::cell::RefCell<{}>", "std::sync::Mutex<{}>", "std::sync::Weak<{}>"] + \
            ["(" + ", ".join(["zq::T1"] * i + ["{}"] + ["zq::T1"] * (n - 1 - i)) + ",)" for n in (4, 8, 12, 30) for i in (0, n // 2, n - 1)]
    types = [c.format("zq::T0") for c in conts]
    fns = ("schema", "type_def", "inline_schema", "inline")

    def jobs(i):
        if i: return []
        return [(f"{t}|{f}", dict(op="assoc", ty=t, fn=f, trait="zod_core::ZodType", module="corpus")) for t in types for f in fns]
    run = DeriveRun(ctx, fns=fns, extra_jobs=jobs, comps=False)
    guard(run, ctx)

    def reached(effs):
        """(type, method, caller, site) of the calls that reach a derived type"""
        for e in effs:
            if e["kind"] != "zt": continue
            ty, m, caller = e["args"]
            if isinstance(ty, str) and ty.startswith("corpus::"): yield ty, m, caller, e["site"]
    for d in run.each():
        me = f"corpus::{d.p.id}::"
        for f in fns:
            if f in d.why and f not in d.val:
                w = d.why[f]
                if any(x in w for x in ("depth", "steps", "recursion")): ctx.violate(f"{d.p.family}:{f}:diverges", f"{d.p.family}: evaluating {f} of {d.p.spec.name} does not end: {w}", **replay_detail(ctx, d, f))
                else: ctx.undecide(f"{d.p.id}.{f}", w)
                continue
            first = True
            for ty, m, caller, site in reached(d.eff.get(f, [])):
                if first and ty.startswith(me) and m == f: first = False; continue   # the entry itself
                ctx.count("calls")
                own = ty.startswith(me)
                if own:
                    if m == f: ctx.violate(f"{d.p.family}:{f}:self", f"{d.p.family}: {f} of {d.p.spec.name} reaches itself at {site}", **replay_detail(ctx, d, f)); break
                    continue
                if f in COMPONENT:
                    ctx.violate(f"{d.p.family}:{f}", f"{d.p.family}: a reference to {d.p.spec.name} ({f}) expands {ty}::{m} at {site}", **replay_detail(ctx, d, f, path=[d.p.spec.name + "::" + f, caller, ty + "::" + m])); break
                if m not in COMPONENT and m != "docs":
                    ctx.violate(f"{d.p.family}:{f}:{m}", f"{d.p.family}: {f} of {d.p.spec.name} reaches {ty}::{m} at {site} (called from {caller}) instead of referring to it", **replay_detail(ctx, d, f, path=[d.p.spec.name + "::" + f, caller, ty + "::" + m])); break
    for t in types:
        for f in fns:
            e = run.extra.get(f"{t}|{f}")
            if e is None: continue
            r, v, why = e
            if v is None: ctx.undecide(f"{t}.{f}", why); continue
            effs = [x for tr in r["traces"] for x in tr.get("effects", [])]
            hit = [x for x in reached(effs) if x[0] == "corpus::zq::T0"]
            ctx.count("calls", len(hit))
            # only references are reached from derived types (see above): those must not lead out of references
            bad = [x for x in hit if x[1] not in COMPONENT] if f in COMPONENT else []
            if bad: ctx.violate(f"builtin:{t}:{f}", f"{f} of {t} expands its parameter by {bad[0][1]} at {bad[0][3]} (called from {bad[0][2]}): a type that contains itself through it never ends", program=t, function=f, path=[t + "::" + f, bad[0][2], "T0::" + bad[0][1]])
            elif hit: ctx.count("generic functions")
    if ctx.counts.get("generic functions", 0) < 40 and not ctx.viol: raise CheckError("too few built-in functions reach their parameters")
    return run
