"""Witness programs with namespaces, RPC implementations and backends."""
import random
from spec import Spec, Field, Variant, unraw, rs
import corpus


class Method:
    def __init__(s, name, args=(), ret=None, kind="method", form=None):
        """args: [(name, type)]; ret: result / item type; form: how the return type is written"""
        s.name, s.args, s.ret, s.kind, s.form = name, list(args), ret, kind, form

    def rust(s):
        a = "".join(f", {n}: {t}" for n, t in s.args)
        b = f"((self, {rs(unraw(s.name))}, " + "".join(f"{n}, " for n, _ in s.args) + "))"
        if s.kind == "method":
            return f"pub async fn {s.name}(&mut self{a})" + (f" -> {s.ret}" if s.ret is not None else "") + " { crate::zq::user_method" + b + " }"
        forms = {None: "impl ::futures::Stream<Item = {}>", "pin": "::std::pin::Pin<::std::boxed::Box<dyn ::futures::Stream<Item = {}> + Send>>",
                 "boxs": "::futures::stream::BoxStream<'static, {}>", "impl+": "impl ::futures::Stream<Item = {}> + Send + 'static"}
        return f"pub fn {s.name}(&mut self{a}) -> " + forms[s.form].format(s.ret) + " { crate::zq::user_stream" + b + " }"

    def result(s): return s.ret if s.ret is not None else "()"


class Ns:
    def __init__(s, ident, methods=(), types=(), name=None, path=None, impl=True):
        s.ident, s.methods, s.types, s.rename, s.path, s.impl = ident, list(methods), list(types), name, path, impl

    def name(s): return s.rename if s.rename is not None else unraw(s.ident)
    def ty(s): return f"{s.path}::{s.ident}" if s.path else s.ident

    def rust(s):
        o = "#[derive(::zod::Namespace)] "
        if s.rename is not None: o += f"#[namespace(name = {rs(s.rename)})] "
        o += f"pub struct {s.ident};\n"
        if s.impl: o += f"#[::zod::rpc::namespace]\nimpl {s.ident} {{\n" + "".join(m.rust() + "\n" for m in s.methods) + "}\n"
        return o


class Backend:
    def __init__(s, ident, fields):
        """fields: [(name or None, Ns)]"""
        s.ident, s.fields = ident, fields

    def rust(s):
        if s.fields and s.fields[0][0] is None: return f"#[derive(::zod::rpc::Backend)] pub struct {s.ident}(" + ", ".join("pub " + n.ty() for _, n in s.fields) + ");\n"
        return f"#[derive(::zod::rpc::Backend)] pub struct {s.ident} {{ " + ", ".join(f"pub {f}: {n.ty()}" for f, n in s.fields) + " }\n"


class World:
    def __init__(s, wid, namespaces, backends): s.id, s.namespaces, s.backends, s.base = wid, namespaces, backends, 0

    def render(s):
        o = ["#![allow(warnings)]\n", "pub mod zq { " + " ".join(f"pub struct T{i};" for i in range(120)) + " pub fn user_method<A, R>(_: A) -> R { todo!() } pub fn user_stream<A, R>(_: A) -> R { todo!() } }\n"]
        # namespaces
        paths = {}
        for n in s.namespaces: paths.setdefault(n.path, []).append(n)
        for p, l in paths.items():
            txt = "".join(n.rust() for n in l)
            if p:
                for seg in reversed(p.split("::")): txt = f"pub mod {seg} {{ use super::*;\n{txt}}}\n"
            o.append(txt)
        k = s.base
        for n in s.namespaces:
            for sp in n.types:
                sp.ns = ("crate::" + n.ty()) if n.path else "super::" + n.ident
                sp.module = f"ty{k}"
                o.append(f"pub mod ty{k} {{ use super::*;\n{sp.rust()}}}\n"); k += 1
        for b in s.backends: o.append(b.rust())
        return "".join(o)


T = lambda i: f"zq::T{i}"


def tdoc(i): return f"/// doc of {i}"


def worlds(thorough=False, seed=1):
    W = []
    types = lambda pre: [Spec("struct", pre + "Obj", [Field(T(0), "a"), Field(T(1), "b", default=True)]),
                         Spec("tuple", pre + "Tup", [Field(T(2)), Field(T(3))], docs="/// A tuple\n/// with docs"),
                         Spec("tuple", pre + "New", [Field(T(4))]),
                         Spec("enum", pre + "Enum", variants=[Variant("A", "unit"), Variant("B", "tuple", [Field(T(5))]), Variant("C", "struct", [Field(T(6), "x")])], tag="type", content="c"),
                         Spec("struct", pre + "Ren", [Field(T(7), "a")], rename=pre + "Renamed", docs="/// only line"),
                         Spec("struct", pre + "Conv", [Field(T(7), "a")], **{"from": f"Vec<{T(8)}>"}),
                         Spec("struct", pre + "SplitName", [Field(T(7), "a")], rename={"ser": pre + "Out", "de": pre + "In"})]
    m = [Method("no_args"), Method("no_args_ret", [], T(10)), Method("one", [("a", T(11))], T(12)), Method("two", [("first", T(13)), ("second", T(14))], T(15)),
         Method("three", [("x", T(16)), ("y", T(17)), ("zed", T(18))], f"Vec<{T(19)}>"), Method("six", [(f"a{i}", T(20 + i)) for i in range(6)], f"Option<{T(26)}>"),
         Method("twelve", [(f"q{i}", T(30 + i)) for i in range(12)], f"Result<{T(42)}, {T(43)}>"), Method("unit_ret", [("a", T(44))], "()"),
         Method("r#type", [("r#in", T(45)), ("r#fn", T(46))], T(47)), Method("camelCase", [("argName", T(48))], T(49)), Method("with_opt", [("a", f"Option<{T(50)}>"), ("b", f"Box<{T(51)}>")], f"({T(52)}, {T(53)})"),
         Method("same_types", [("a", T(54)), ("b", T(54)), ("c", T(54))], T(54))]
    st = [Method("s_none", [], T(60), "stream"), Method("s_one", [("n", T(61))], T(62), "stream"), Method("s_two", [("n", T(63)), ("m", T(64))], f"Vec<{T(65)}>", "stream", "impl+"),
          Method("s_pin", [("n", T(66))], T(67), "stream", "pin"), Method("s_box", [("n", T(68)), ("o", T(69)), ("p", T(70))], T(71), "stream", "boxs"), Method("r#async", [("a", T(72))], T(73), "stream")]
    odd = [Method("odd1", [("args", T(80)), ("z", T(81)), ("request", T(82)), ("subscribe", T(83))], T(84)), Method("odd2", [("arguments", T(85)), ("default", T(86)), ("z_", T(87)), ("z", T(88))], T(89)),
           Method("odd3", [("class", T(90)), ("function", T(91)), ("this", T(92)), ("new", T(93)), ("undefined", T(94)), ("Promise", T(95)), ("Store", T(96))], T(97)),
           Method("odd4", [("request", T(80)), ("request_", T(81))], T(84), "stream"), Method("odd5", [("id", T(80)), ("method", T(81)), ("namespace", T(82)), ("value", T(83)), ("data", T(84)), ("error", T(85)), ("res", T(86))], T(84)),
           Method("odd6", [("ctx", T(80)), ("sender", T(81)), ("id", T(82)), ("s", T(83)), ("args", T(84)), ("st", T(85)), ("evt", T(86))], T(84)),
           Method("odd7", [("ctx", T(80)), ("sender", T(81)), ("id", T(82)), ("s", T(83)), ("args", T(84)), ("st", T(85)), ("evt", T(86))], T(84), "stream"),
           Method("odd8", [("eval", T(80)), ("r#await", T(81)), ("r#yield", T(82)), ("r#let", T(83)), ("r#static", T(84)), ("package", T(85)), ("interface", T(86))], T(87)),
           Method("odd9", [("export", T(80)), ("import", T(81)), ("var", T(82)), ("void", T(83)), ("with", T(84)), ("delete", T(85)), ("debugger", T(86))], T(87)),
           Method("odd10", [("null", T(80)), ("throw", T(81)), ("catch", T(82)), ("finally", T(83)), ("instanceof", T(84)), ("switch", T(85)), ("case", T(86)), ("_case", T(87)), ("case_", T(88))], T(89)),
           Method("odd11", [("r#typeof", T(80)), ("r#try", T(81)), ("r#if", T(82)), ("r#else", T(83)), ("r#for", T(84)), ("r#while", T(85)), ("r#do", T(86)), ("r#return", T(87)), ("r#break", T(88)), ("r#continue", T(89)), ("r#const", T(90)), ("r#enum", T(91))], T(92), "stream"),
           Method("odd12", [("implements", T(80)), ("private", T(81)), ("protected", T(82)), ("public", T(83)), ("extends", T(84)), ("r#false", T(85)), ("r#true", T(86))] if False else [("implements", T(80)), ("private", T(81)), ("protected", T(82)), ("public", T(83)), ("extends", T(84))], T(92))]
    a = Ns("Alpha", m[:6] + st[:2], types("Al"))
    b = Ns("Beta", m[2:4] + st[1:4], types("Be"), name="BetaWire")
    g = Ns("Gamma", [], types("Ga"))
    d = Ns("Delta", m[6:] + st[3:], [])
    e = Ns("Empty", [], [])
    f = Ns("Inner", m[1:3] + st[:1], types("In"), path="deep::er")
    o = Ns("Outside", m[:3] + st[:2], types("Ou"))
    swap1, swap2 = Ns("Swap1", [Method("only", [("a", T(1))], T(2))], [], name="Swap2"), Ns("Swap2", [Method("only", [("a", T(3))], T(4))], [], name="Swap1")
    prefix = Ns("Alph", [Method("no_args", [], T(9)), Method("one", [("a", T(8))], T(7))], [Spec("struct", "AlObj", [Field(T(9), "z9")])])
    noimpl = Ns("NoImpl", [], types("Ni"), impl=True)
    lower = Ns("lower_case", [Method("m", [("a", T(5))], T(6))], [Spec("struct", "Low", [Field(T(9), "z9")])])
    W.append(World("w0", [a, b, g, d, e, f, o, prefix, swap1, swap2, lower],
                   [Backend("All", [("alpha", a), ("beta", b), ("gamma", g), ("delta", d), ("empty", e), ("inner", f), ("sw1", swap1), ("sw2", swap2)]),
                    Backend("One", [(None, a)]), Backend("Tup", [(None, b), (None, d)]), Backend("Tup4", [(None, d), (None, g), (None, b), (None, a)]), Backend("Rev", [("d", d), ("c", g), ("b", b), ("a", a)]),
                    Backend("Deep", [("r#type", f), ("id", prefix), ("req", o)]), Backend("OnlyEmpty", [("e", e)]), Backend("Swapped", [(None, swap2), (None, swap1)]),
                    Backend("Pre", [(None, prefix)]), Backend("Low", [("low", lower), ("backend", a), ("sender", g)])]))
    n1 = Ns("Odd", odd, [])
    W.append(World("w1", [n1], [Backend("B", [("odd", n1)])]))
    # argument counts
    n2 = Ns("Counts", [Method(f"m{i}", [(f"a{j}", T(j)) for j in range(i)], T(i)) for i in range(0, 13)] + [Method(f"s{i}", [(f"a{j}", T(j)) for j in range(i)], T(i), "stream") for i in range(0, 13)], [])
    W.append(World("w2", [n2], [Backend("B", [(None, n2)])]))
    # references between namespaces and many types
    l, r = Ns("Left", [], []), Ns("Right", [], [], name="RightSide")
    l.types = [Spec("struct", f"L{i}", [Field(f"crate::{'ty' + str(40 + (i + 1) % 40)}::R{(i + 1) % 40}", "next"), Field(T(i), "own")]) for i in range(40)]
    r.types = [Spec("struct", f"R{i}", [Field(f"Option<Box<crate::ty{i}::L{i}>>", "back"), Field(f"Vec<crate::ty{40 + i}::R{i}>", "me")]) for i in range(40)]
    l.methods = [Method("get", [("key", "crate::ty40::R0")], "crate::ty0::L0"), Method("all", [], "Vec<crate::ty41::R1>", "stream")]
    W.append(World("w3", [l, r], [Backend("B", [("l", l), ("r", r)]), Backend("BL", [(None, l)]), Backend("BR", [(None, r)])]))
    # names that mean something in TypeScript or in the generated code
    res = ["delete", "new", "default", "function", "class", "var", "void", "switch", "case", "import", "export", "with", "throw", "null", "instanceof", "finally", "catch", "debugger", "interface", "package", "arguments", "eval",
           "request", "subscribe", "z", "r#type", "r#await", "r#yield", "r#let", "r#static", "r#enum", "r#typeof", "r#try", "r#if", "r#in", "r#const", "private", "public", "protected", "implements", "extends", "r#true", "r#false", "r#do", "r#for",
           "r#while", "r#return", "r#break", "r#continue", "r#else", "undefined", "Promise", "Store", "Array", "constructor", "prototype", "name", "length", "then", "execute", "CONNECTION", "WS_ADDR", "websocketStore", "Answer", "req_id", "r#async", "of", "get", "set", "declare", "namespace", "module",
           "any", "string", "number", "globalThis", "window", "r#abstract", "r#final", "toString", "hasOwnProperty", "NaN", "Infinity"]
    user = Ns("UserNs", [Method("update", [("user", "crate::ty80::LowUser"), ("status", "crate::ty81::LowStatus")], "crate::ty80::LowUser"), Method("watch", [("status", "Vec<crate::ty81::LowStatus>"), ("user_", T(3))], "crate::ty81::LowStatus", "stream"),
                         Method("all", [("z", "crate::ty80::LowUser"), ("request", T(4)), ("subscribe", T(5)), ("arguments", T(6)), ("status_", T(7)), ("status", T(8))], "Vec<crate::ty80::LowUser>")], [], name="user")
    status = Ns("StatusNs", [Method("set", [("user", "Option<crate::ty80::LowUser>"), ("status", T(2))], "Result<crate::ty80::LowUser, crate::ty81::LowStatus>")], [], name="status")
    user.types = [Spec("struct", "LowUser", [Field("crate::ty81::LowStatus", "status"), Field("Vec<crate::ty80::LowUser>", "friends")])]
    status.types = [Spec("enum", "LowStatus", variants=[Variant("On", "unit"), Variant("By", "tuple", [Field("Box<crate::ty80::LowUser>")])])]
    k = lambda n: Ns(n, [Method(x, [("a", T(i % 100))], T((i + 1) % 100)) for i, x in enumerate(res)], [])
    reserved = k("Reserved")
    reserved2 = Ns("Reserved2", [Method(x, [("a", T(i % 100))], T((i + 1) % 100), "stream") for i, x in enumerate(res)] + [Method("delete_", [("b", T(5))], T(6)), Method("request_", [], T(7), "stream"), Method("request__", [], T(8))], [])
    w4 = World("w4", [reserved, reserved2, user, status], [Backend("B", [(None, reserved), (None, reserved2)]), Backend("U", [("user", user), ("status", status)])])
    fix_modules(w4, 80)
    W.append(w4)
    # names beyond plain identifiers that TypeScript takes
    nn = [named("NsUnicode", "Größe", "Typ"), named("r#type", None, "TypeUser"), named("r#fn", None, "r#match"), named("NsAny", "any", "TypeAny"), named("NsString", "string", "TypeString"), named("NsReq", "request", "TypeReq"),
          named("_Under", None, "_Leading"), named("Dollar", "$dollar", "Dollars"), named("NsUni2", None, "Größe", meth="größe", arg="ärger"), named("ns", "Ns_1", "T_1_", meth="_m1", arg="_a")]
    # names that differ only in case or by a character more
    for ident, names in (("Kase", ["Item", "item", "ITEM", "Item_", "Item1"]), ("kase", ["Item", "Items", "MyItem", "iTem"]), ("KASE", ["item"])):
        n = Ns(ident, [Method(m, [("arg", T(i)), ("Arg", T(i + 1))], T(i + 2), k, "pin" if k == "stream" else None) for i, (m, k) in enumerate([("get", "method"), ("Get", "method"), ("GET", "stream"), ("get_", "method"), ("get1", "stream"), ("get_get", "method")][:len(names) + 1])], [])
        n.types = [Spec("struct", x, [Field(T(i), "a"), Field(T(i + 1), "A")]) for i, x in enumerate(names)]
        n.place = lambda k: None
        nn.append(n)
    w6 = World("w6", nn, [Backend("All", [(f"f{i}", n) for i, n in enumerate(nn)])] + [Backend(f"B{i}", [(None, n)]) for i, n in enumerate(nn)])
    w6.base = 90
    for i, n in enumerate(nn): n.place(90 + i)
    W.append(w6)
    # every kind of built-in type
    ts = std_types()
    full = Ns("Full", [Method(f"m{i}", [("a", t), ("b", f"Vec<{t}>")], t if "static" not in t else "String") for i, t in enumerate(ts)] + [Method(f"s{i}", [("a", t)], t, "stream", "boxs") for i, t in enumerate(ts) if "static" not in t], [])
    full.types = [Spec("struct", f"F{i}", [Field(t, "f"), Field(f"Option<{t}>", "o"), Field(f"Vec<{t}>", "v"), Field(t, "d", default=True)]) for i, t in enumerate(ts)]
    full.types += [Spec("tuple", f"G{i}", [Field(t), Field(f"({t}, {t})")]) for i, t in enumerate(ts)]
    full.types += [Spec("enum", f"H{i}", variants=[Variant("A", "tuple", [Field(t)]), Variant("B", "struct", [Field(t, "x")])]) for i, t in enumerate(ts)]
    full.types += [Spec("tuple", f"N{i}", [Field(t)]) for i, t in enumerate(ts)]
    full.std = True
    W.append(World("w5", [full], [Backend("B", [("full", full)])]))
    return W


def fix_modules(w, base):
    """module numbers of the types of a world begin at `base`"""
    w.base = base


def named(ident, name, ty, rename=None, meth="m", arg="a"):
    """a namespace with a recursive type and a method that uses it, with the names given"""
    n = Ns(ident, [Method(meth, [(arg, "?")], "?"), Method("all", [(arg, "?")], "?", "stream")], [], name=name)

    def place(k):
        me = f"crate::ty{k}::{ty}"
        n.types = [Spec("struct", ty, [Field(T(0), "x"), Field(f"Option<Box<{me}>>", "again")], **({"rename": rename} if rename else {}))]
        for m in n.methods: m.args, m.ret = [(arg, me)], f"Vec<{me}>"
    n.place = place
    return n


def misnamed():
    """names TypeScript does not take where generated code puts them: recorded findings"""
    l = [("namespace with a dash", named("Na", "my-ns", "Tp")), ("namespace class", named("Nb", "class", "Tp")), ("namespace without a name", named("Nc", "", "Tp")), ("namespace with a dot", named("Nd", "a.b", "Tp")),
         ("namespace z", named("Ne", "z", "Tp")), ("namespace Map", named("Nf", "Map", "Tp")), ("namespace Promise", named("Ng", "Promise", "Tp")), ("namespace CONNECTION", named("Nh", "CONNECTION", "Tp")),
         ("namespace undefined", named("Ni", "undefined", "Tp")), ("type with a dash", named("Nj", None, "Tp", "my-type")), ("type class", named("Nk", None, "class")), ("type any", named("Nl", None, "any")),
         ("type string", named("Nm", None, "string")), ("type undefined", named("Nn", None, "undefined"))]
    for i, (_, n) in enumerate(l): n.place(i)
    return World("m0", [n for _, n in l], [Backend(f"B{i}", [(None, n)]) for i, (_, n) in enumerate(l)]), {f"B{i}": x for i, (x, _) in enumerate(l)}


def same_named():
    """namespaces of one name that are served by different backends: recorded finding"""
    a = Ns("Twin", [Method("first", [("a", T(0))], T(1))], [Spec("struct", "One", [Field(T(0), "x")])], path="left")
    b = Ns("Twin", [Method("second", [("b", T(2))], T(3), "stream")], [Spec("struct", "Two", [Field(T(1), "y")])], path="right")
    c = Ns("Third", [Method("third", [], T(4))], [Spec("struct", "Three", [Field(T(2), "z")])], name="Twin")
    return World("m1", [a, b, c], [Backend("Bl", [(None, a)]), Backend("Br", [(None, b)]), Backend("Bc", [(None, c)])])


def captures():
    """names chosen by the user that hide a name generated code refers to: recorded findings"""
    W = []
    person = Ns("Person", [Method("get", [], "crate::ty0::Person_")], [Spec("struct", "Person_", [Field("Vec<crate::ty0::Person_>", "friends")], rename="Person")])
    W.append(("type named like the namespace", World("k0", [person], [Backend("B", [(None, person)])])))
    status = Ns("Status", [Method("status", [], T(1))], [Spec("struct", "Info", [Field("Vec<crate::ty0::Info>", "old")])], name="status")
    W.append(("method named like the namespace", World("k1", [status], [Backend("B", [(None, status)])])))
    for i, n in enumerate(["Array", "Map", "Set", "Promise", "Store"]):
        ns = Ns("Names", [Method("m", [], T(1)), Method("s", [], T(1), "stream")],
                [Spec("struct", f"My{n}", [Field(T(0), "x")], rename=n), Spec("struct", "Other", [Field(f"Vec<{T(1)}>", "a"), Field(f"std::collections::HashMap<String, {T(1)}>", "b"), Field(f"std::collections::HashSet<{T(1)}>", "c")])])
        W.append((f"type named {n}", World(f"k{2 + i}", [ns], [Backend("B", [(None, ns)])])))
    zt = Ns("Names", [Method("m", [("a", T(0))], T(1))], [Spec("struct", "Zed", [Field(T(0), "x")], rename="z")])
    W.append(("type named z", World("k7", [zt], [Backend("B", [(None, zt)])])))
    rq = Ns("Names", [Method("m", [("a", T(0))], T(1))], [Spec("struct", "Rq", [Field(T(0), "x")], rename="request")])
    W.append(("type named request", World("k8", [rq], [Backend("B", [(None, rq)])])))
    return W


def std_types():
    """argument and result types as users write them: for type-checking a whole SDK"""
    ts = ["String", "u8", "i64", "f32", "bool", "char", "()", "Vec<String>", "Option<u8>", "std::collections::HashMap<String, u16>", "std::collections::BTreeMap<u8, String>", "std::collections::HashSet<String>",
          "std::collections::BTreeSet<i8>", "(u8, String)", "(u8,)", "[u8; 4]", "Box<u8>", "std::sync::Arc<String>", "Result<u8, String>", "Vec<Option<u8>>", "Option<Vec<u8>>", "Option<Option<bool>>", "std::rc::Rc<u64>",
          "usize", "isize", "u128", "i128", "f64", "&'static str", "std::borrow::Cow<'static, u32>", "std::cell::Cell<u8>", "std::cell::RefCell<i16>", "std::sync::Mutex<u32>", "std::net::Ipv4Addr", "Option<(u8, Vec<String>)>",
          "(u8, u16, u32, u64, i8, i16, i32, i64)", "std::marker::PhantomData<u8>"]
    return ts
