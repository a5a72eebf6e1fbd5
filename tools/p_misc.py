"""Properties decided by the compiler's verdict on witness programs, and lints over the source."""
import json, os, re
from common import *
import expand as ex

HEAD = """#![allow(dead_code, unused_variables, unused_imports, unused_mut)]
use futures::Stream;
"""


class Witness:
    def __init__(s, wid, text, accept, why): s.id, s.text, s.accept, s.why = wid, text, accept, why


class Verdicts:
    """type-checks every witness by the compiler, against the current repository"""
    def __init__(s, ctx, ws, cap):
        s.ctx = ctx
        s.meta = {"files": sorted(os.path.relpath(os.path.join(d, f), REPO) for r in ("src", "core/src", "derive/src") for d, _, fs in os.walk(os.path.join(REPO, r)) for f in fs if f.endswith(".rs")), "functions": 0, "visited": set()}
        res = ex.check(REPO, ctx.work, [w.text for w in ws])
        for w, errs in zip(ws, res):
            ctx.count("accepted programs compared" if w.accept else "rejected programs compared")
            if w.accept and errs:
                e = errs[0]
                ctx.violate(f"rejected:{w.id}", f"{w.why}: the program does not compile: {e['message'][:300]}", errors=errs[:3], program=w.text)
            elif not w.accept and not errs:
                ctx.violate(f"accepted:{w.id}", f"{w.why}: the program compiles", program=w.text)
            else: ctx.sample({"witness": w.id, "meant": "accept" if w.accept else "reject", "errors": [e["message"][:160] for e in errs[:2]], "program": w.text[len(HEAD):][:600]})
        ctx.counts["programs"] = len(ws)


# ------------------------------------------------------------------------------------------------ N02
DER = "#[derive(Debug, serde::Serialize, serde::Deserialize, zod::Zod)]"


def ty(name, ns, kind="struct", serde="", body=None, zod=""):
    a = f"#[serde({serde})]\n" if serde else ""
    b = body or {"struct": " { pub a: u8 }", "tuple": "(u8, u16);", "newtype": "(u8);", "enum": " { A, B(u8) }", "tagged": " { A { x: u8 }, B }", "untagged": " { A { x: u8 }, B(u8) }", "generic": ""}[kind]
    if kind == "tagged": a += '#[serde(tag = "t")]\n'
    if kind == "untagged": a += '#[serde(untagged)]\n'
    kw = "enum" if kind in ("enum", "tagged", "untagged") else "struct"
    return f'{DER}\n{a}#[zod(namespace = "{ns}"{zod})]\npub {kw} {name}{b}\n'


def nsp(name, rename=None): return "#[derive(zod::Namespace)]\n" + (f'#[namespace(name = "{rename}")]\n' if rename else "") + f"pub struct {name};\n"


def mods(*parts): return "".join(f"pub mod m{i} {{\nuse super::*;\n{p}}}\n" for i, p in enumerate(parts))


def rpc(ns, *ms): return "#[zod::rpc::namespace]\nimpl " + ns + " {\n" + "".join("    " + m + "\n" for m in (ms or ("pub async fn get(&mut self) -> u8 { 0 }",))) + "}\n"


def n02():
    W = []

    def w(wid, why, accept, *text): W.append(Witness(wid, HEAD + "".join(text), accept, why))
    two = nsp("Na") + nsp("Nb")
    kinds = ["struct", "tuple", "newtype", "enum", "tagged", "untagged"]
    for i, k in enumerate(kinds):
        for k2 in kinds[i:]:
            w(f"same-{k}-{k2}", f"a {k} and a {k2} of one name in one namespace", False, two, mods(ty("X", "Na", k), ty("X", "Na", k2)))
            w(f"apart-{k}-{k2}", f"a {k} and a {k2} of one name in two namespaces", True, two, mods(ty("X", "Na", k), ty("X", "Nb", k2)))
    w("distinct", "two types of different names in one namespace", True, two, mods(ty("X", "Na"), ty("Y", "Na")))
    w("distinct-case", "two types whose names differ in case", True, two, mods(ty("X", "Na"), ty("x", "Na", serde="rename = \"x\"").replace("pub struct x", "#[allow(non_camel_case_types)]\npub struct x")))
    for who, ren in (("rename", 'rename = "Z"'), ("rename-de", 'rename(deserialize = "Z")')):
        w(f"{who}-to-same", "two types renamed to one name in one namespace", False, two, mods(ty("X", "Na", serde=ren), ty("Y", "Na", serde=ren)))
        w(f"{who}-to-other", "a type renamed to the name of another type of its namespace", False, two, mods(ty("X", "Na", serde=ren), ty("Z", "Na")))
        w(f"{who}-other-way", "a type named like the new name of an earlier one", False, two, mods(ty("Z", "Na", "enum"), ty("Y", "Na", "enum", serde=ren)))
        w(f"{who}-apart", "two types renamed to one name in two namespaces", True, two, mods(ty("X", "Na", serde=ren), ty("Y", "Nb", serde=ren)))
        w(f"{who}-frees", "a type that takes the name another one of its namespace was renamed from", True, two, mods(ty("X", "Na", serde=ren), ty("X", "Na")))
    w("ser-rename-only", "two types of one Rust name, one of them renamed for serialization only", False, two, mods(ty("X", "Na", serde='rename(serialize = "Q")'), ty("X", "Na")))
    w("same-renamed-ns", "two types of one name in one renamed namespace", False, nsp("Na", "Other"), mods(ty("X", "Na"), ty("X", "Na")))
    w("paths", "two types of one name whose namespace is written as different paths", False, two, mods(ty("X", "Na"), ty("X", "super::Na")))
    w("paths2", "two types of one name whose namespace is written as different paths", False, "pub mod n {\n" + nsp("Na") + "}\n", mods(ty("X", "crate::n::Na"), ty("X", "super::n::Na")))
    w("paths-apart", "two types of one name in two namespaces of one Rust name in different modules", True, "pub mod n {\n" + nsp("Na") + "}\npub mod q {\n" + nsp("Na") + "}\n", mods(ty("X", "crate::n::Na"), ty("X", "crate::q::Na")))
    w("crate-path", "types of different names in a namespace written with a path", True, "pub mod n {\n" + nsp("Na") + "}\n", mods(ty("X", "crate::n::Na"), ty("Y", "crate::n::Na")))
    w("three", "three types of which the first and the last have one name", False, two, mods(ty("X", "Na"), ty("Y", "Na"), ty("X", "Na", "enum")))
    w("raw", "a type with a raw name and one renamed to it", False, two, mods(ty("r#type", "Na").replace("pub struct r#type", "#[allow(non_camel_case_types)]\npub struct r#type"), ty("Y", "Na", serde='rename = "type"')))
    w("from", "a type converted on deserialization and a plain type of one name", False, two, mods(ty("Src", "Na") + "impl From<Src> for X { fn from(s: Src) -> X { X { a: s.a } } }\n" + ty("X", "Na", serde='from = "Src"'), ty("X", "Na")))
    w("transparent", "a transparent type and a plain type of one name", False, two, mods(ty("X", "Na", serde="transparent"), ty("X", "Na")))
    # exported names that are no Rust identifiers
    for i, (a, b) in enumerate([("a-b", "a_b"), ("a b", "ab"), ("9a", "_9a"), ("a.b", "a-b"), ("ä-b", "a-b"), ("x-", "x"), ("-", "--"), ("a-b", "A-b")]):
        ra, rb = f'rename = "{a}"', f'rename = "{b}"'
        w(f"odd-{i}-same", f"two types renamed to `{a}` in one namespace", False, two, mods(ty("X", "Na", serde=ra), ty("Y", "Na", serde=ra)))
        w(f"odd-{i}-apart", f"two types renamed to `{a}` in two namespaces", True, two, mods(ty("X", "Na", serde=ra), ty("Y", "Nb", serde=ra)))
        w(f"odd-{i}-distinct", f"types renamed to `{a}` and `{b}` in one namespace", True, two, mods(ty("X", "Na", serde=ra), ty("Y", "Na", serde=rb)))
    # RPC implementations
    w("rpc-one", "one RPC implementation", True, nsp("Na"), rpc("Na"))
    w("rpc-two-ns", "RPC implementations of two namespaces with methods of one name", True, two, rpc("Na"), rpc("Nb"))
    w("rpc-twice", "two RPC implementations of one namespace", False, nsp("Na"), rpc("Na"), rpc("Na", "pub async fn set(&mut self, a: u8) {}"))
    w("rpc-twice-mods", "two RPC implementations of one namespace in two modules", False, nsp("Na"), mods(rpc("Na"), rpc("Na", "pub async fn set(&mut self, a: u8) {}")))
    w("rpc-twice-stream", "an RPC implementation with methods and one with streams for one namespace", False, nsp("Na"), rpc("Na"), rpc("Na", "pub fn all(&mut self) -> impl Stream<Item = u8> { futures::stream::iter(vec![1]) }"))
    w("rpc-twice-renamed", "two RPC implementations of one renamed namespace", False, nsp("Na", "Other"), rpc("Na"), rpc("Na", "pub async fn set(&mut self, a: u8) {}"))
    w("rpc-empty-twice", "two RPC implementations, one of them without methods", False, nsp("Na"), rpc("Na"), "#[zod::rpc::namespace]\nimpl Na {}\n")
    w("rpc-plain", "an RPC implementation beside a plain one", True, nsp("Na"), rpc("Na"), "impl Na { pub fn other(&self) -> u8 { 0 } }\n")
    w("rpc-dup-method", "two methods of one name in one implementation", False, nsp("Na"), rpc("Na", "pub async fn get(&mut self) -> u8 { 0 }", "pub async fn get(&mut self, a: u8) -> u8 { 0 }"))
    return W


def check_N02(ctx): return Verdicts(ctx, n02(), "clash")


# ------------------------------------------------------------------------------------------------ R10
def r10():
    W = []
    types = nsp("Na") + ty("Out", "Na") + "#[derive(Debug)]\npub struct NoZod;\n#[derive(Debug, serde::Serialize, serde::Deserialize)]\npub struct NoZod2 { a: u8 }\n"
    it = "futures::stream::iter(vec![1u8])"
    good = "pub async fn fine(&mut self) -> u8 { 0 }"
    goods = f"pub fn fine_stream(&mut self) -> impl Stream<Item = u8> {{ {it} }}"

    def w(wid, why, accept, m, places=("alone",)):
        for p in places:
            ms = {"alone": [m], "last": [good, goods, m], "first": [m, good, goods]}[p]
            W.append(Witness(wid + ("" if p == "alone" else "-" + p), HEAD + types + rpc("Na", *ms), accept, why))
    all_ = ("alone", "last", "first")
    # accepted
    w("async-unit", "an async method without result", True, "async fn m(&mut self) {}", all_)
    w("async-explicit-unit", "an async method with result ()", True, "pub async fn m(&mut self) -> () {}")
    w("async-args", "an async method with arguments", True, "pub async fn m(&mut self, a: u8, b: String, mut c: Vec<Out>) -> Option<Out> { None }", all_)
    w("async-result", "an async method returning a Result", True, "pub async fn m(&mut self) -> Result<Out, String> { Err(String::new()) }")
    w("async-tuple", "an async method returning a tuple", True, "pub async fn m(&mut self, a: (u8, Out)) -> (u8, String) { (0, String::new()) }")
    w("async-vis", "an async method visible in the crate", True, "pub(crate) async fn m(&mut self) -> u8 { 0 }")
    w("async-raw", "an async method with raw names", True, "pub async fn r#type(&mut self, r#in: u8) -> u8 { 0 }")
    w("async-many", "an async method with twelve arguments", True, "pub async fn m(&mut self, " + ", ".join(f"a{i}: u8" for i in range(12)) + ") {}")
    w("stream-impl", "a method returning impl Stream", True, f"pub fn m(&mut self) -> impl Stream<Item = u8> {{ {it} }}", all_)
    w("stream-args", "a method with arguments returning impl Stream", True, f"pub fn m(&mut self, a: u8, b: Vec<Out>) -> impl Stream<Item = u8> {{ {it} }}", all_)
    w("stream-bounds", "a method returning impl Stream with more bounds", True, f"pub fn m(&mut self) -> impl Stream<Item = u8> + Send + 'static {{ {it} }}")
    w("stream-out", "a method returning a stream of derived types", True, "pub fn m(&mut self) -> impl Stream<Item = Out> { futures::stream::iter(vec![]) }")
    w("stream-boxed", "a method returning a boxed stream", True, f"pub fn m(&mut self) -> std::pin::Pin<Box<dyn Stream<Item = u8> + Send>> {{ Box::pin({it}) }}", all_)
    w("stream-alias", "a method returning a BoxStream", True, f"pub fn m(&mut self, a: u8) -> futures::stream::BoxStream<'static, u8> {{ Box::pin({it}) }}")
    w("stream-named", "a method returning a named stream type", True, f"pub fn m(&mut self) -> futures::stream::Iter<std::vec::IntoIter<u8>> {{ {it} }}")
    # receivers
    for kind, sig in (("async", lambda r, g="": f"pub async fn m{g}({r}) -> u8 {{ 0 }}"), ("stream", lambda r, g="": f"pub fn m{g}({r}) -> futures::stream::Iter<std::vec::IntoIter<u8>> {{ {it} }}"), ("impl", lambda r, g="": f"pub fn m{g}({r}) -> impl Stream<Item = u8> {{ {it} }}")):
        pl = all_ if kind != "impl" else ("alone",)
        w(f"{kind}-none", f"{kind}: no receiver", False, sig(""), pl)
        w(f"{kind}-none-arg", f"{kind}: no receiver, one argument", False, sig("a: u8"))
        w(f"{kind}-self", f"{kind}: self by value", False, sig("self"), pl)
        w(f"{kind}-mut-self", f"{kind}: mut self by value", False, sig("mut self"))
        w(f"{kind}-ref", f"{kind}: &self", False, sig("&self"), pl)
        w(f"{kind}-ref-args", f"{kind}: &self with arguments", False, sig("&self, a: u8, b: String"))
        w(f"{kind}-life", f"{kind}: &'a mut self", False, sig("&'a mut self", "<'a>"), pl)
        w(f"{kind}-life-ref", f"{kind}: &'a self", False, sig("&'a self", "<'a>"))
        w(f"{kind}-life-static", f"{kind}: &'static mut self", False, sig("&'static mut self"))
        w(f"{kind}-life-args", f"{kind}: &'a mut self with arguments", False, sig("&'a mut self, a: u8", "<'a>"))
        w(f"{kind}-box", f"{kind}: self: Box<Self>", False, sig("self: Box<Self>"))
        w(f"{kind}-arc", f"{kind}: self: Arc<Self>", False, sig("self: std::sync::Arc<Self>"))
    # returns
    w("async-impl-stream", "an async method returning impl Stream", False, f"pub async fn m(&mut self) -> impl Stream<Item = u8> {{ {it} }}", all_)
    w("async-impl-stream-args", "an async method with arguments returning impl Stream", False, f"pub async fn m(&mut self, a: u8) -> impl Stream<Item = u8> + Send {{ {it} }}")
    w("async-impl-display", "an async method returning impl Trait", False, "pub async fn m(&mut self) -> impl serde::Serialize { 0u8 }")
    w("async-boxed", "an async method returning a boxed stream", False, f"pub async fn m(&mut self) -> std::pin::Pin<Box<dyn Stream<Item = u8> + Send>> {{ Box::pin({it}) }}")
    w("async-named", "an async method returning a named stream type", False, f"pub async fn m(&mut self) -> futures::stream::Iter<std::vec::IntoIter<u8>> {{ {it} }}")
    w("sync-unit", "a synchronous method without result", False, "pub fn m(&mut self) {}", all_)
    w("sync-unit-args", "a synchronous method with arguments and without result", False, "pub fn m(&mut self, a: u8) {}")
    w("sync-explicit-unit", "a synchronous method with result ()", False, "pub fn m(&mut self) -> () {}")
    w("sync-plain", "a synchronous method with a plain result", False, "pub fn m(&mut self) -> u8 { 0 }", all_)
    w("sync-vec", "a synchronous method returning a Vec", False, "pub fn m(&mut self, a: u8) -> Vec<u8> { vec![] }")
    w("sync-option-stream", "a synchronous method returning an optional stream", False, f"pub fn m(&mut self) -> Option<futures::stream::Iter<std::vec::IntoIter<u8>>> {{ None }}")
    w("sync-iter", "a synchronous method returning impl Iterator", False, "pub fn m(&mut self) -> impl Iterator<Item = u8> { vec![1u8].into_iter() }")
    w("sync-future", "a synchronous method returning impl Future", False, "pub fn m(&mut self) -> impl std::future::Future<Output = u8> { async { 0u8 } }")
    # exportable
    for n in ("NoZod", "NoZod2"):
        w(f"async-{n}", f"an async method returning a type that is not exported ({n})", False, f"pub async fn m(&mut self) -> {n} {{ todo!() }}")
        w(f"async-vec-{n}", f"an async method returning a list of a type that is not exported ({n})", False, f"pub async fn m(&mut self) -> Vec<{n}> {{ todo!() }}")
        w(f"stream-{n}", f"a stream of a type that is not exported ({n})", False, f"pub fn m(&mut self) -> futures::stream::Iter<std::vec::IntoIter<{n}>> {{ todo!() }}")
        w(f"impl-{n}", f"an impl Stream of a type that is not exported ({n})", False, f"pub fn m(&mut self) -> impl Stream<Item = {n}> {{ futures::stream::iter(Vec::<{n}>::new()) }}")
        w(f"async-arg-{n}", f"an async method with an argument of a type that is not exported ({n})", False, f"pub async fn m(&mut self, a: u8, b: {n}) -> u8 {{ 0 }}")
        w(f"stream-arg-{n}", f"a stream with an argument of a type that is not exported ({n})", False, f"pub fn m(&mut self, b: {n}) -> impl Stream<Item = u8> {{ {it} }}")
    w("async-ref-arg", "an async method with an argument borrowed from the message", False, "pub async fn m(&mut self, a: &Out) -> u8 { 0 }")
    w("async-tuple-arg", "an async method whose argument is a pattern", False, "pub async fn m(&mut self, (a, b): (u8, u8)) -> u8 { 0 }")
    return W


def check_R10(ctx): return Verdicts(ctx, r10(), "signature")


# ------------------------------------------------------------------------------------------------ S15
def s15():
    W = []
    D, Z = "#[derive(zod::Zod, sattr::Attrs)]\n", '#[zod(namespace = "Na")]\n'
    head = HEAD + nsp("Na") + "pub struct Plain { pub a: u8 }\n#[derive(serde::Serialize, serde::Deserialize)]\npub struct Wire { pub a: u8 }\n" + D + Z + "pub struct Known { pub a: u8 }\n"

    def w(wid, why, accept, text): W.append(Witness(wid, head + text + "\n", accept, why))

    def t(wid, why, accept, body, serde=""): w(wid, why, accept, D + Z + (f"#[serde({serde})]\n" if serde else "") + "pub " + body)
    C = "std::collections::"
    wraps = ["{}", "Vec<{}>", "Option<{}>", "Box<{}>", f"{C}HashMap<String, {{}}>", f"{C}BTreeMap<u8, {{}}>", f"{C}HashMap<{{}}, u8>", f"{C}BTreeMap<{{}}, u8>", f"{C}HashSet<{{}}>", f"{C}BTreeSet<{{}}>", "({}, u8)", "(u8, {})", "({},)", "[{}; 3]", "Result<{}, u8>", "Result<u8, {}>",
             "std::sync::Arc<{}>", "std::rc::Rc<{}>", "std::cell::Cell<{}>", "std::cell::RefCell<{}>", "std::sync::Mutex<{}>", "Vec<Option<{}>>", "Option<Box<(u8, {})>>", f"{C}HashMap<String, Vec<{{}}>>", "(u8, u8, u8, {}, u8)"]
    places = [("field", "struct X {{ a: {t}, b: u8 }}", ""), ("last field", "struct X {{ b: u8, a: {t} }}", ""), ("renamed", 'struct X {{ b: u8, #[serde(rename = "c")] a: {t} }}', ""), ("defaulted", "struct X {{ b: u8, #[serde(default)] a: {t} }}", ""), ("not serialized", "struct X {{ b: u8, #[serde(skip_serializing)] a: {t} }}", ""),
              ("flattened", "struct X {{ b: u8, #[serde(flatten)] a: {t} }}", ""), ("newtype", "struct X({t});", ""), ("position", "struct X({t}, u8);", ""), ("last position", "struct X(u8, {t});", ""), ("transparent", "struct X {{ a: {t} }}", "transparent"),
              ("newtype variant", "enum X {{ A, B({t}) }}", ""), ("first variant", "enum X {{ B({t}), A }}", ""), ("tuple variant", "enum X {{ A, B(u8, {t}) }}", ""), ("struct variant", "enum X {{ A, B {{ a: u8, b: {t} }} }}", ""), ("sole variant", "enum X {{ B {{ a: {t} }} }}", ""),
              ("untagged", "enum X {{ A {{ a: u8 }}, B({t}) }}", "untagged"), ("adjacent", "enum X {{ A, B({t}) }}", 'tag = "t", content = "c"'), ("internal", "enum X {{ A, B({t}) }}", 'tag = "t"'), ("internal struct", "enum X {{ A, B {{ x: {t} }} }}", 'tag = "t"')]
    for i, (p, body, attr) in enumerate(places):
        for j, wr in enumerate(wraps):
            if j and (i * 7 + j) % 5: continue
            for ty, ok in (("Known", 1), ("Plain", 0), ("Wire", 0)):
                if ty == "Wire" and (i + j) % 3: continue
                x = wr.format(ty)
                t(f"{p}:{x}", f"{p}: a component {x} that is {'' if ok else 'not '}exportable", bool(ok), body.format(t=x), attr)
    for p, body, attr in (("skipped field", "struct X {{ b: u8, #[serde({s})] a: {t} }}", ""), ("skipped position", "struct X(u8, #[serde({s})] {t});", ""), ("skipped variant", "enum X {{ A, #[serde({s})] B({t}) }}", ""), ("skipped variant field", "enum X {{ A {{ b: u8, #[serde({s})] a: {t} }} }}", "")):
        for sk in ("skip", "skip_deserializing"):
            for ty in ("Plain", "Wire"): t(f"{p}:{sk}:{ty}", f"{p}: a component that is not exportable and that serde never reads", True, body.format(s=sk, t=ty), attr)
    # sources of from / try_from stand for the type
    for kind, body in (("struct", "struct X {{ a: {} }}"), ("tuple", "struct X({}, u8);"), ("enum", "enum X {{ A({}) }}")):
        for a in ("from", "try_from"):
            for src, ok in (("Known", 1), ("Vec<Known>", 1), ("Plain", 0), ("Vec<Plain>", 0), ("Wire", 0), ("Missing", 0)):
                t(f"{a}:{kind}:{src}", f"a {kind} read from {src}", bool(ok), body.format("u8"), f'{a} = "{src}"')
            t(f"{a}:{kind}:own", f"a {kind} read from an exportable type, with components that are not", True, body.format("Plain"), f'{a} = "Known"')
    # items that have no single description
    t("union", "a union", False, "union X { a: u8, b: u16 }"); t("union-one", "a union of one field", False, "union X { a: u8 }")
    for p, body in (("struct", "struct X{g} {{ a: {t} }}"), ("tuple", "struct X{g}({t}, u8);"), ("newtype", "struct X{g}({t});"), ("enum", "enum X{g} {{ A({t}), B }}"), ("struct variant", "enum X{g} {{ A {{ a: {t} }} }}")):
        t(f"{p}-plain", f"a {p} without parameters", True, body.format(g="", t="u8"))
        for n, g, x in (("type", "<T>", "T"), ("bounded", "<T: zod::ZodType>", "T"), ("in-vec", "<T: zod::ZodType>", "Vec<T>"), ("const", "<const N: usize>", "[u8; N]")):
            t(f"{p}-{n}", f"a {p} with a parameter, which has no one name and description", False, body.format(g=g, t=x))
    # namespaces
    kinds = (("struct", "pub struct X { a: u8 }"), ("tuple", "pub struct X(u8, u8);"), ("newtype", "pub struct X(u8);"), ("enum", "pub enum X { A, B(u8) }"))
    for k, body in kinds:
        w(f"{k}-ns", f"a {k} of a namespace", True, D + Z + body)
        w(f"{k}-ns-path", f"a {k} of a namespace in another module", True, "pub mod inner { " + nsp("Nb") + "}\n" + D + '#[zod(namespace = "inner::Nb")]\n' + body)
        w(f"{k}-no-attr", f"a {k} without namespace", False, D + body)
        for n, a in (("empty", "#[zod()]"), ("missing", '#[zod(namespace = "Nb")]'), ("missing-path", '#[zod(namespace = "inner::Nb")]'), ("a-type", '#[zod(namespace = "Known")]'), ("plain", '#[zod(namespace = "Plain")]'), ("no-path", '#[zod(namespace = "a b")]'), ("empty-text", '#[zod(namespace = "")]'), ("number", "#[zod(namespace = 5)]"),
                     ("word", "#[zod(namespace)]"), ("twice", '#[zod(namespace = "Na", namespace = "Na")]'), ("misspelt", '#[zod(namespce = "Na")]'), ("unknown", '#[zod(namespace = "Na", name = "Y")]'), ("unknown-first", '#[zod(rename = "Y", namespace = "Na")]'), ("unknown-apart", '#[zod(namespace = "Na")]\n#[zod(optional)]')):
            w(f"{k}-ns-{n}", f"a {k} with the attribute {a}", False, D + a + "\n" + body)
    w("ns-struct", "a namespace", True, "#[derive(zod::Namespace)]\npub struct G;"); w("ns-named", "a namespace with a name", True, '#[derive(zod::Namespace)]\n#[namespace(name = "g")]\npub struct G;'); w("ns-fields", "a namespace with state", True, "#[derive(zod::Namespace)]\npub struct G { a: Plain }")
    for n, a in (("misspelt", '#[namespace(nme = "x")]'), ("unknown", '#[namespace(name = "x", prefix = "y")]'), ("number", "#[namespace(name = 5)]"), ("twice", '#[namespace(name = "x", name = "y")]')): w(f"ns-{n}", f"a namespace with the attribute {a}", False, f"#[derive(zod::Namespace)]\n{a}\npub struct G;")
    # backends
    b = rpc("Na") + nsp("Nb") + "#[zod::rpc::namespace]\nimpl Nb { pub async fn b(&mut self, a: u8) {} }\n" + nsp("Silent")
    for n, ok, x in (("one", 1, "struct B(Na);"), ("two", 1, "struct B(Na, Nb);"), ("named", 1, "struct B { a: Na, b: Nb }"), ("enum", 0, "enum B { A(Na) }"), ("union", 0, "union B { a: std::mem::ManuallyDrop<Na> }"), ("plain", 0, "struct B(Plain);"), ("exported", 0, "struct B(Known);"), ("without-rpc", 0, "struct B(Silent);"),
                     ("twice", 0, "struct B(Na, Na);"), ("twice-named", 0, "struct B { a: Na, b: Na }"), ("twice-apart", 0, "struct B(Na, Nb, Na);"), ("mixed", 0, "struct B(Na, u8);"), ("mixed-first", 0, "struct B(Plain, Na);"), ("mixed-named", 0, "struct B { a: Na, b: Nb, c: Silent }"), ("wrapped", 0, "struct B(Option<Na>);")):
        w(f"backend-{n}", f"a backend {x}", bool(ok), b + "#[derive(zod::rpc::Backend)]\npub " + x)
    return W


def check_S15(ctx): return Verdicts(ctx, s15(), "component")


# ------------------------------------------------------------------------------------------------ U01
def check_U01(ctx):
    import subprocess
    p = subprocess.run([ctx.engine(), "unsafe", "--repo", REPO], capture_output=True, text=True, timeout=300)
    if p.returncode != 0: raise CheckError("the sources are not readable: " + p.stderr[-800:])
    r = json.loads(p.stdout)
    if r["errors"]: raise CheckError("sources not readable: " + str(r["errors"])[:500])
    ctx.count("files", len(r["files"])); ctx.count("functions", r["functions"])
    roots = {"src/lib.rs", "core/src/lib.rs", "derive/src/lib.rs"}
    banned = {f for f, a in r["inner_attrs"] if re.search(r"\b(deny|forbid)\b[^]]*\bunsafe_code\b", a) and "doc" not in a.split("=")[0]}
    for f in sorted(roots - banned): ctx.violate(f"lint:{f}", f"{f} does not deny unsafe code")
    for f, line, tok in r["occurrences"]:
        ctx.count("occurrences")
        if tok == "unsafe": ctx.violate(f"unsafe:{f}", f"unsafe code at {f}:{line}")
    for f, line, lv in r["lifted"]: ctx.violate(f"allow:{f}", f"{f}:{line} lifts the ban on unsafe code ({lv})")
    for f, line, s in r["strings"]: ctx.violate(f"string:{f}", f"{f}:{line}: a text with the word unsafe ends up in generated code: {s[:120]}")
    # generated code, in programs that forbid unsafe code; the same programs without the ban are known to compile
    ws = [w for w in n02() + r10() if w.accept]
    all_ = nsp("Na") + nsp("Nb", "Renamed") + "pub mod kinds {\nuse super::*;\n" + "".join(ty(f"K{i}", "Na", k) for i, k in enumerate(["struct", "tuple", "newtype", "enum", "tagged", "untagged"])) + "}\n" + rpc("Na") \
        + rpc("Nb", "pub async fn get(&mut self, a: kinds::K0, b: Vec<kinds::K3>) -> Option<kinds::K1> { None }", "pub fn all(&mut self, a: u8) -> impl Stream<Item = kinds::K5> { futures::stream::iter(vec![]) }") \
        + "#[derive(zod::rpc::Backend)]\npub struct B(Na, Nb);\n#[derive(zod::rpc::Backend)]\npub struct C { a: Na }\n"
    ws.append(Witness("kinds", HEAD + all_, True, "every kind of derived type, RPC methods and streams, and backends"))
    for w, errs in zip(ws, ex.check(REPO, ctx.work, ["#![forbid(unsafe_code)]\n" + w.text for w in ws], "forbid")):
        ctx.count("programs forbidding unsafe code")
        bad = [e for e in errs if "unsafe" in e["message"]]
        if bad: ctx.violate("generated", f"{w.why}: generated code does not compile where unsafe code is forbidden: {bad[0]['message'][:300]}", program=w.text)
        elif errs: ctx.undecide(w.id, errs[0]["message"][:200])
    if len(ctx.undecided) == len(ws): raise CheckError("no witness program compiles: " + str(ctx.undecided[0])[:400])
    ctx.counts["programs"] = len(ws)
    ctx.sample({"files": r["files"], "crate roots denying unsafe code": sorted(roots & banned)})

    class Run: meta = {"files": r["files"], "functions": r["functions"], "visited": set()}
    return Run
