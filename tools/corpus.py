"""The witness program: families of derived types written in Rust, expanded by the compiler."""
import itertools, random, re, os, hashlib
from spec import *

T = lambda i: f"zq::T{i}"

ODD_FIELDS = ["foo", "foo_bar", "fooBar", "FooBar", "FOO_BAR", "_foo", "foo_", "foo__bar", "a", "a1_b2", "b2b",
              "r#type", "r#fn", "id", "name", "value", "tag", "inner", "data", "args", "z", "request", "kind", "content",
              "arguments", "default", "constructor", "ns", "items_list", "x_y_z", "ab_c_def_ghij", "straße_größe"]
ODD_VARIANTS = ["A", "Foo", "FooBar", "FOO", "Foo_Bar", "HTTPServer", "fooBar", "X1", "ABc", "None", "Some", "Ok", "Err",
                "Other", "Null", "V2Beta", "r#Type"]
ODD_NAMES = ["with space", "kebab-case", "1st", "quo'te", "dot.ted", "$dollar", "ünïcode", "emoji🦀", "class", "", "a\"b",
             "back\\slash", "{brace}", "{0}", "{}", "new\nline", "z", "-", "9", "a/b", "*/", "`tick`", "${x}"]


def mined(repo):
    """boundary values taken from the analysed source: string literals usable as names and small integers"""
    strs, ints = set(), set()
    for base in ("derive/src", "core/src"):
        for dp, _, fs in os.walk(os.path.join(repo, base)):
            for f in sorted(fs):
                if not f.endswith(".rs"): continue
                t = open(os.path.join(dp, f), encoding="utf8", errors="replace").read()
                t = re.sub(r"//[^\n]*", "", t)
                for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', t):
                    x = m.group(1)
                    if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]{0,40}", x): strs.add(x)
                for m in re.finditer(r"'(\\?[^'\\])'", t):
                    pass
                if base == "derive/src":
                    for m in re.finditer(r"(?<![\w.])(\d{1,2})(?:usize|u8|u32)?(?![\w.])", re.sub(r'"(?:[^"\\]|\\.)*"', "", t)):
                        ints.add(int(m.group(1)))
    return sorted(strs), sorted(ints)


class Probe:
    def __init__(s, spec, family, rejected_ok=False, docs_expected=None, tags=()):
        s.spec, s.family, s.rejected_ok, s.docs_expected, s.tags = spec, family, rejected_ok, docs_expected, set(tags)
        s.id = None


def build(repo, thorough=False, seed=1):
    P = []
    cnt = itertools.count()

    def nm(): return f"P{next(cnt)}"

    def add(fam, spec, **k):
        P.append(Probe(spec, fam, **k)); return spec
    strs, ints = mined(repo)
    sizes = sorted(set(list(range(1, 13)) + [n + d for n in ints if n <= 40 for d in (-1, 0, 1) if 1 <= n + d <= 41] + [16, 33]))

    # ------------------------------------------------------------- named structs
    for n in sizes:
        add("struct.size", Spec("struct", nm(), [Field(T(i), f"f{i}") for i in range(n)]))
        add("struct.size.default", Spec("struct", nm(), [Field(T(i), f"f{i}", default=(i % 3 == 1)) for i in range(n)]))
        add("struct.size.skip", Spec("struct", nm(), [Field(T(i), f"f{i}", skip=(i % 2 == 0)) for i in range(n + 1)]))
    fs = {
        "plain": {}, "skip": dict(skip=True), "skipde": dict(skip_de=True), "skipser": dict(skip_ser=True),
        "default": dict(default=True), "path": dict(default="super::mk"), "rename": dict(rename="renamedX"),
        "de": dict(rename={"ser": "onSer", "de": "onDe"}), "ser": dict(rename={"ser": "onSer"}),
        "flatten": dict(flatten=True), "option": {}, "skipdef": dict(skip=True, default=True),
        "rendef": dict(rename="renDef", default=True), "alias": dict(alias="otherName"), "skipif": dict(skip_if=True),
        "flatdef": dict(flatten=True, default=True), "skipdedef": dict(skip_de=True, default="super::mk"),
        "skipren": dict(skip=True, rename="skippedName"), "desersplit": dict(skip_ser=True, default=True, rename={"de": "inOnly"}),
    }

    def mkfield(st, i, named=True):
        a = dict(fs[st])
        if "rename" in a:
            r = a["rename"]
            a["rename"] = f"{r}{i}" if isinstance(r, str) else {k: f"{v}{i}" for k, v in r.items()}
        ty = f"Option<{T(i)}>" if st == "option" else T(i)
        return Field(ty, f"my_f{i}" if named else None, **a)
    tagset = lambda c: [x for x in ("flatten", "flatdef") if x in c]
    for st in fs: add("struct.1", Spec("struct", nm(), [mkfield(st, 0)]), tags=tagset([st]))
    for c in itertools.product(fs, repeat=2):
        add("struct.2", Spec("struct", nm(), [mkfield(x, i) for i, x in enumerate(c)], style=len(P) % 2), tags=tagset(c))
    for c in itertools.product(["plain", "skipde", "default", "flatten", "rename", "option"], repeat=3):
        add("struct.3", Spec("struct", nm(), [mkfield(x, i) for i, x in enumerate(c)]), tags=tagset(c))
    flat_of = [f"Option<{T(1)}>", f"Result<{T(1)}, {T(2)}>", f"Box<Result<{T(1)}, {T(2)}>>", f"Option<Result<{T(1)}, {T(2)}>>", f"std::collections::HashMap<String, {T(1)}>", f"Box<{T(1)}>", f"Option<Box<{T(1)}>>",
               "crate::base::Plain", "crate::base::Renamed", "crate::base::En", "Option<crate::base::Plain>", "Result<crate::base::Plain, crate::base::En>"]
    for t in flat_of:
        for c in (["flat"], ["plain", "flat"], ["flat", "plain"], ["plain", "flat", "flat2"]):
            add("struct.flatten_of", Spec("struct", nm(), [Field(t, f"in{i}", flatten=True) if x != "plain" else mkfield(x, i) for i, x in enumerate(c)]), tags=["flatten"])
    for c in itertools.product(["plain", "skip", "default"], repeat=4):
        add("struct.4", Spec("struct", nm(), [mkfield(x, i) for i, x in enumerate(c)]))
    # container attributes
    for case in CASES:
        for ra in (case, {"ser": "UPPERCASE" if case != "UPPERCASE" else "kebab-case", "de": case}, {"ser": case}):
            names = ODD_FIELDS if ra == case else ODD_FIELDS[:8]
            add("struct.rename_all", Spec("struct", nm(), [Field(T(i), f) for i, f in enumerate(names)], rename_all=ra))
            add("struct.rename_all.mixed", Spec("struct", nm(), [mkfield(x, i) for i, x in enumerate(["plain", "rename", "skip", "de", "ser", "default", "option", "plain"])], rename_all=ra))
            add("struct.rename_all.flat", Spec("struct", nm(), [mkfield(x, i) for i, x in enumerate(["plain", "flatten", "plain"])], rename_all=ra), tags=["flatten"])
    for f in ODD_FIELDS + [x for x in strs if re.fullmatch(r"[a-z_][a-z0-9_]*", x) and x not in ODD_FIELDS]:
        f2 = f if f not in KEYWORDS else "r#" + f
        if f2 in ("_", "r#self", "r#crate", "r#super", "self", "super", "crate"): continue
        add("struct.field_name", Spec("struct", nm(), [Field(T(0), f2), Field(T(1), "other")]))
        add("struct.field_name", Spec("struct", nm(), [Field(T(1), "other"), Field(T(0), f2, default=True)]))
    for o in ODD_NAMES + [x for x in strs]:
        add("struct.odd_rename", Spec("struct", nm(), [Field(T(0), "a", rename=o), Field(T(1), "b")]), tags=["oddname"] if o in ODD_NAMES else [])
        add("struct.odd_rename", Spec("struct", nm(), [Field(T(1), "b", default=True), Field(T(0), "a", rename={"de": o, "ser": "zzz"})]), tags=["oddname"] if o in ODD_NAMES else [])
    for d in (True, "super::mk"):
        for n in (1, 2, 3, 5):
            add("struct.container_default", Spec("struct", nm(), [Field(T(i), f"f{i}") for i in range(n)], default=d))
        add("struct.container_default", Spec("struct", nm(), [mkfield(x, i) for i, x in enumerate(["plain", "default", "skip", "rename", "option"])], default=d))
        add("struct.container_default", Spec("struct", nm(), [mkfield(x, i) for i, x in enumerate(["plain", "plain", "rename"])], default=d, rename_all="camelCase"))
    add("struct.deny", Spec("struct", nm(), [mkfield(x, i) for i, x in enumerate(["plain", "default"])], deny=True))
    add("struct.tag", Spec("struct", nm(), [mkfield(x, i) for i, x in enumerate(["plain", "default"])], tag="type"))
    add("struct.empty", Spec("struct", nm(), []))
    add("struct.allskip", Spec("struct", nm(), [Field(T(0), "a", skip=True)]))
    add("struct.allskip", Spec("struct", nm(), [Field(T(0), "a", skip=True), Field(T(1), "b", skip_de=True)]))
    # derived type names
    for r in ("Renamed", {"ser": "SerName"}, {"ser": "SerN", "de": "DeName"}, "lower", "Typ_1"):
        add("struct.name", Spec("struct", nm(), [Field(T(0), "a"), Field(T(1), "b")], rename=(r + str(len(P))) if isinstance(r, str) else {k: v + str(len(P)) for k, v in r.items()}))
        add("tuple.name", Spec("tuple", nm(), [Field(T(0)), Field(T(1))], rename=(r + str(len(P))) if isinstance(r, str) else {k: v + str(len(P)) for k, v in r.items()}))
        add("enum.name", Spec("enum", nm(), variants=[Variant("A", "unit"), Variant("B", "tuple", [Field(T(0))])], rename=(r + str(len(P))) if isinstance(r, str) else {k: v + str(len(P)) for k, v in r.items()}))
    for ns in ("NsRen", "crate::deep::NsDeep", "super::Ns"):
        add("struct.ns", Spec("struct", nm(), [Field(T(0), "a"), Field(T(1), "b")], ns=ns))
        add("enum.ns", Spec("enum", nm(), variants=[Variant("A", "unit"), Variant("B", "tuple", [Field(T(0))])], ns=ns))
        add("tuple.ns", Spec("tuple", nm(), [Field(T(0))], ns=ns))
        add("from.ns", Spec("struct", nm(), [Field(T(0), "a")], ns=ns, **{"from": T(3)}))
        add("from.ns", Spec("enum", nm(), variants=[Variant("A", "unit")], ns=ns, try_from=T(3)))
    for d in ("r#Type", "lowercase_type", "X", "Vec_", "Struct1", "r#Self_"):
        add("struct.ident", Spec("struct", d if d != "X" else "X" , [Field(T(0), "a"), Field(T(1), "b")]))
    # field types other than opaque ones
    TYS = ["String", "&'static str", "u8", "i64", "f32", "bool", "char", "()", f"Vec<{T(0)}>", f"Option<{T(0)}>", f"Option<Option<{T(0)}>>",
           f"Vec<Option<{T(0)}>>", f"Option<Vec<{T(0)}>>", f"std::collections::HashMap<String, {T(0)}>", f"std::collections::BTreeMap<{T(0)}, {T(1)}>",
           f"std::collections::HashSet<{T(0)}>", f"std::collections::BTreeSet<{T(0)}>", f"Box<{T(0)}>", f"std::sync::Arc<{T(0)}>", f"std::rc::Rc<{T(0)}>",
           f"Result<{T(0)}, {T(1)}>", f"({T(0)}, {T(1)})", f"({T(0)},)", f"[{T(0)}; 3]", f"std::option::Option<{T(0)}>", f"core::option::Option<{T(0)}>",
           f"Box<Option<{T(0)}>>", f"std::borrow::Cow<'static, {T(0)}>", "crate::base::Plain", "crate::base::Renamed", "crate::base::InRen", "crate::base::En",
           "crate::base::New", "Vec<crate::base::Renamed>", "Option<crate::base::InRen>", f"std::vec::Vec<Box<{T(0)}>>"]
    for t in TYS:
        add("struct.field_type", Spec("struct", nm(), [Field(t, "a"), Field(T(9), "b")]))
        add("struct.field_type", Spec("struct", nm(), [Field(T(9), "b"), Field(t, "a", default=True)]))
        add("tuple.field_type", Spec("tuple", nm(), [Field(t)]))
        add("tuple.field_type", Spec("tuple", nm(), [Field(T(9)), Field(t)]))
        add("tuple.field_type", Spec("tuple", nm(), [Field(t, default=True)]))
        for tag in TAGS:
            add("enum.field_type", Spec("enum", nm(), variants=[Variant("A", "struct", [Field(t, "x"), Field(T(8), "y", default=True)]), Variant("B", "struct", [Field(T(9), "w")])], **tag))
            add("enum.field_type", Spec("enum", nm(), variants=[Variant("A", "tuple", [Field(t)]), Variant("B", "struct", [Field(T(9), "w")])], **tag), tags=["internal_newtype"] if "tag" in tag and "content" not in tag else [])
    # transparent
    for st in ("struct", "tuple"):
        named = (lambda i: f"my_f{i}") if st == "struct" else (lambda i: None)
        for t in (T(0), f"Option<{T(0)}>", f"Vec<{T(0)}>", "crate::base::Plain"):
            add(st + ".transparent", Spec(st, nm(), [Field(t, named(0))], transparent=True))
        PH = f"std::marker::PhantomData<{T(7)}>"
        for k in range(3):
            for at in (dict(skip=True), dict(skip_de=True), dict(default=True)):
                fl = [Field(T(5), named(0), **at), Field(T(6), named(1), **at)]
                fl.insert(k, Field(T(0), named(2)))
                add(st + ".transparent.multi", Spec(st, nm(), fl, transparent=True))
            fl = [Field(PH, named(0)), Field(T(6), named(1), skip=True)]
            fl.insert(k, Field(T(0), named(2)))
            add(st + ".transparent.phantom", Spec(st, nm(), fl, transparent=True))
        add(st + ".transparent", Spec(st, nm(), [Field(T(0), named(0))], transparent=True, rename_all="camelCase"))
    # ------------------------------------------------------------- tuple structs
    for n in sizes:
        add("tuple.size", Spec("tuple", nm(), [Field(T(i)) for i in range(n)]))
        if n > 1: add("tuple.size.default", Spec("tuple", nm(), [Field(T(i), default=(i >= n // 2)) for i in range(n)]))
        add("tuple.size.skip", Spec("tuple", nm(), [Field(T(i), skip=(i == n // 2)) for i in range(n + 1)]))
    ts = ["plain", "skip", "skipde", "skipser", "default", "path", "option", "skipdef"]

    def tup_ok(c):
        seen = False
        for x in c:
            if x in ("skip", "skipde", "skipdef"): continue
            if x in ("default", "path"): seen = True
            elif seen: return False
        return any(x not in ("skip", "skipde", "skipdef") for x in c)
    for n in (1, 2, 3):
        for c in itertools.product(ts if n < 3 else ["plain", "skip", "default", "skipde", "option"], repeat=n):
            add(f"tuple.{n}", Spec("tuple", nm(), [mkfield(x, i, False) for i, x in enumerate(c)], style=len(P) % 2), rejected_ok=not tup_ok(c),
                tags=[] if tup_ok(c) else ["nondefault_after_default" if any(x not in ("skip", "skipde", "skipdef") for x in c) else "allskip"])
    for c in itertools.product(["plain", "skip", "default"], repeat=4):
        add("tuple.4", Spec("tuple", nm(), [mkfield(x, i, False) for i, x in enumerate(c)]), rejected_ok=not tup_ok(c),
            tags=[] if tup_ok(c) else ["nondefault_after_default" if any(x != "skip" for x in c) else "allskip"])
    # ------------------------------------------------------------- enums
    kinds = {
        "u": lambda n, b: Variant(n, "unit"),
        "n": lambda n, b: Variant(n, "tuple", [Field(T(b))]),
        "t2": lambda n, b: Variant(n, "tuple", [Field(T(b)), Field(T(b + 1))]),
        "t3": lambda n, b: Variant(n, "tuple", [Field(T(b + i)) for i in range(3)]),
        "s1": lambda n, b: Variant(n, "struct", [Field(T(b), "one_field")]),
        "s2": lambda n, b: Variant(n, "struct", [Field(T(b), "one_field"), Field(T(b + 1), "two_field")]),
        "s3": lambda n, b: Variant(n, "struct", [Field(T(b + i), f"fld_{i}") for i in range(3)]),
    }

    def inv(tag, vs):
        """invalid for serde: internally tagged tuple variants"""
        return "tag" in tag and "content" not in tag and any(v.style == "tuple" and len(v.fields) != 1 for v in vs)

    def etags(tag, vs):
        o = []
        if "tag" in tag and "content" not in tag and any(v.style == "tuple" and len(v.fields) == 1 and not v.skipped() and not v.fields[0].skipped() for v in vs): o.append("internal_newtype")
        if any(f.a.get("flatten") for v in vs for f in v.fields): o.append("variant_flatten")
        return o

    def enum(fam, vs, tag, **k):
        vs = [Variant(v.name, v.style, v.fields, **v.a) for v in vs]
        if inv(tag, [v for v in vs]): return
        rj = k.pop("rejected_ok", False)
        add(fam, Spec("enum", nm(), variants=vs, **tag, **k), rejected_ok=rj, tags=etags(tag, vs))
    for tag in TAGS:
        for k in kinds: enum("enum.1", [kinds[k]("Va", 0)], tag)
        enum("enum.empty_tuple", [Variant("Va", "tuple", []), kinds["u"]("Vb", 0)], tag)
        for c in itertools.product(kinds, repeat=2):
            enum("enum.2", [kinds[k](f"V{chr(97 + i)}", 4 * i) for i, k in enumerate(c)], tag)
        for c in itertools.product(["u", "n", "t2", "s2"], repeat=3):
            enum("enum.3", [kinds[k](f"V{chr(97 + i)}", 4 * i) for i, k in enumerate(c)], tag)
        for n in sizes:
            if n < 4 and n != 3: continue
            cyc = ["u", "s1", "t2", "n", "s2"] if not ("tag" in tag and "content" not in tag) else ["u", "s1", "s2"]
            enum("enum.size", [kinds[cyc[i % len(cyc)]](f"Variant{i}", 2 * i) for i in range(n)], tag)
            enum("enum.size.unit", [kinds["u"](f"Variant{i}", 0) for i in range(n)], tag)
            enum("enum.size.fields", [Variant("Aa", "struct", [Field(T(i), f"f{i}") for i in range(n)]), kinds["u"]("Bb", 0)], tag)
            enum("enum.size.fields", [Variant("Aa", "tuple", [Field(T(i)) for i in range(n)]), kinds["u"]("Bb", 0)], tag)
        # skipped variants
        for n in (2, 3, 4, 5):
            for mask in range(1, 2 ** n - 1):
                if n > 3 and bin(mask).count("1") > 2: continue
                cyc = ["u", "s2", "n", "s1", "t2"] if not ("tag" in tag and "content" not in tag) else ["u", "s2", "s1", "s3", "u"]
                vs = []
                for i in range(n):
                    v = kinds[cyc[i % len(cyc)]](f"V{chr(97 + i)}", 4 * i)
                    if mask >> i & 1: v.a["skip" if (i + mask) % 2 else "skip_de"] = True
                    vs.append(v)
                enum("enum.skip", vs, tag)
        vs = [kinds["u"]("Va", 0), kinds["s1"]("Vb", 1), kinds["u"]("Vc", 0)]
        vs[1].a["skip_ser"] = True
        enum("enum.skip_ser", vs, tag)
        # variant field states
        for c in itertools.product(["plain", "skip", "default", "option", "skipde"], repeat=2):
            if all(x in ("skip", "skipde") for x in c):
                if tag.get("tag") and not tag.get("content"): continue
                enum("enum.tuple_allskip", [Variant("Va", "tuple", [mkfield(x, i, False) for i, x in enumerate(c)]), kinds["u"]("Vb", 0)], tag)
                continue
            enum("enum.tuple_fields", [Variant("Va", "tuple", [mkfield(x, i, False) for i, x in enumerate(c)]), kinds["u"]("Vb", 0)], tag)
        for x in ("skip", "skipde", "default", "path", "option", "skipser"):
            enum("enum.newtype_fields", [Variant("Va", "tuple", [mkfield(x, 0, False)]), kinds["u"]("Vb", 0)], tag)
        for c in itertools.product(["plain", "skip", "default", "rename", "de", "option", "skipde", "ser", "path"], repeat=2):
            vs = [Variant("Va", "struct", [mkfield(x, i) for i, x in enumerate(c)]), kinds["s1"]("Vb", 8)]
            enum("enum.struct_fields", vs, tag, rejected_ok=all(x in ("skip", "skipde") for x in c))
        for c in itertools.product(["plain", "skip", "default"], repeat=3):
            enum("enum.struct_fields", [kinds["u"]("Va", 8), Variant("Vb", "struct", [mkfield(x, i) for i, x in enumerate(c)])], tag, rejected_ok=all(x in ("skip", "skipde") for x in c))
        for c in itertools.product(["plain", "skip", "skipde"], repeat=4):
            if all(x != "plain" for x in c): continue
            enum("enum.tuple_fields4", [Variant("Va", "tuple", [mkfield(x, i, False) for i, x in enumerate(c)]), kinds["u"]("Vb", 0)], tag)
        for fl in (["flatten", "plain"], ["plain", "flatten"], ["flatten"]):
            enum("enum.flatten", [Variant("Va", "struct", [mkfield(x, i) for i, x in enumerate(fl)]), kinds["u"]("Vb", 0)], tag)
        for t in flat_of:
            enum("enum.flatten_of", [Variant("Va", "struct", [Field(t, "inner", flatten=True), mkfield("plain", 0)]), kinds["u"]("Vb", 0)], tag)
        # renames
        for case in CASES:
            enum("enum.rename_all", [Variant(v, "unit") for v in ODD_VARIANTS], tag, rename_all=case)
            enum("enum.rename_all", [Variant("FooBar", "struct", [Field(T(0), "foo_bar"), Field(T(1), "BazQux")], rename_all=CASES[(CASES.index(case) + 3) % 8]),
                                     Variant("BarBaz", "struct", [Field(T(2), "foo_bar")]), Variant("UnitV", "unit")], tag, rename_all=case)
            enum("enum.rename_all", [Variant("FooBar", "struct", [Field(T(0), f) for f in ODD_FIELDS[:14]], rename_all={"ser": "UPPERCASE", "de": case}), Variant("UnitV", "unit")], tag,
                 rename_all={"ser": case, "de": CASES[(CASES.index(case) + 1) % 8]})
            enum("enum.rename_all", [Variant("FooBar", "struct", [Field(T(0), "foo_bar")]), Variant("NewT", "unit", rename={"ser": "Zz"}), Variant("RenV", "unit", rename="renV")], tag, rename_all=case)
        for r in ("ren", {"ser": "S", "de": "D"}, {"ser": "S"}, {"de": "D"}):
            for k in ("u", "n", "t2", "s2"):
                v = kinds[k]("Va", 0); v.a["rename"] = r
                enum("enum.rename", [v, kinds["u"]("Vb", 5)], tag)
                v = kinds[k]("Va", 0); v.a["rename"] = r
                enum("enum.rename", [v], tag)
        for o in ODD_NAMES + ["type", "Type"] + strs[:]:
            odd = o in ODD_NAMES
            for k in ("u", "s1", "t2", "n"):
                if "tag" in tag and "content" not in tag and k in ("t2", "n"): continue
                if not odd and k != "u": continue
                v = kinds[k]("Va", 0); v.a["rename"] = o
                enum("enum.odd_rename" + (".odd" if odd else ""), [v, kinds["u"]("Vb", 5)], tag)
            enum("enum.odd_field" + (".odd" if odd else ""), [Variant("Va", "struct", [Field(T(0), "f", rename=o), Field(T(1), "g")]), kinds["u"]("Vb", 5)], tag)
    for o in ODD_NAMES + ["type", "kind", "t", "id"] + strs:
        odd = ".odd" if o in ODD_NAMES else ""
        if o == "": continue
        vs = lambda: [kinds["u"]("Va", 0), kinds["s2"]("Vb", 3)]
        add("enum.odd_tag" + odd, Spec("enum", nm(), variants=vs(), tag=o))
        add("enum.odd_tag" + odd, Spec("enum", nm(), variants=vs() + [kinds["t2"]("Vc", 6)], tag=o, content="c_" + o))
        add("enum.odd_tag" + odd, Spec("enum", nm(), variants=vs() + [kinds["n"]("Vc", 6)], tag="t_" + o, content=o))
        add("enum.odd_tag" + odd, Spec("enum", nm(), variants=[kinds["s2"]("Vb", 3)], tag=o))
    # ------------------------------------------------------------- conversions
    SRC = [T(5), f"Vec<{T(5)}>", f"Option<{T(5)}>", "String", f"({T(5)}, {T(6)})", f"Box<{T(5)}>", "crate::base::Plain", "crate::base::Renamed", "crate::base::New", "crate::base::En"]
    for key in ("from", "try_from"):
        for src in SRC:
            k = {key: src}
            add("from.struct", Spec("struct", nm(), [Field(T(0), "a")], **k))
            add("from.struct", Spec("struct", nm(), [Field(T(0), "a"), Field(T(1), "b", default=True)], rename_all="camelCase", **k))
            add("from.tuple", Spec("tuple", nm(), [Field(T(0))], **k))
            add("from.tuple", Spec("tuple", nm(), [Field(T(0)), Field(T(1))], **k))
            add("from.enum", Spec("enum", nm(), variants=[kinds["u"]("Va", 0)], **k))
            add("from.enum", Spec("enum", nm(), variants=[kinds["u"]("Va", 0), kinds["n"]("Vb", 1)], **k))
            add("from.renamed", Spec("struct", nm(), [Field(T(0), "a")], rename=f"FromRen{len(P)}", **k))
            add("from.renamed", Spec("enum", nm(), variants=[kinds["u"]("Va", 0), kinds["n"]("Vb", 1)], rename=f"FromRen{len(P)}", **k))
        add("from.into", Spec("struct", nm(), [Field(T(0), "a")], into=T(8), **{key: T(5)}))
    # conversions beside every other attribute
    for key in ("from", "try_from"):
        k = lambda: {key: ["crate::base::Plain", T(5), "crate::base::Renamed"][len(P) % 3]}
        for x in fs: add("from.fields", Spec("struct", nm(), [mkfield(x, 0), mkfield("plain", 1)], **k()), tags=tagset([x]))
        for x in ("plain", "skip", "skipde", "default", "option"):
            add("from.fields", Spec("struct", nm(), [mkfield(x, 0)], **k()))
            if "skip" not in x: add("from.fields", Spec("tuple", nm(), [mkfield(x, 0, False)], **k()))
            add("from.fields", Spec("tuple", nm(), [mkfield("plain", 1, False), mkfield(x, 0, False)], **k()))
        for ca in (dict(default=True), dict(default="super::mk"), dict(deny=True), dict(tag="type"), dict(rename_all="SCREAMING-KEBAB-CASE"), dict(into=T(8)), dict(expecting="x"), {"crate": "::serde"}, dict(bound="")):
            add("from.container", Spec("struct", nm(), [mkfield("plain", 0), mkfield("plain", 1)], **ca, **k()))
            if not {"tag", "rename_all", "default"} & set(ca): add("from.container", Spec("tuple", nm(), [mkfield("plain", 0, False), mkfield("plain", 1, False)], **ca, **k()))
        for tag in TAGS:
            for vs in ([kinds["u"]("Va", 0)], [kinds["s2"]("Va", 0)], [kinds["n"]("Va", 0)], [kinds["u"]("Va", 0), kinds["u"]("Vb", 1)], [kinds["u"]("Va", 0), kinds["s1"]("Vb", 1)], [kinds["u"]("Va", 0), kinds["n"]("Vb", 1), kinds["t2"]("Vc", 2)],
                       [kinds["s1"]("Va", 0), kinds["s2"]("Vb", 1)], [kinds["u"]("Va", 0), Variant("Vb", "unit", skip=True)], [Variant("Va", "unit", rename="vA"), kinds["s1"]("Vb", 1)]):
                enum("from.tagging", vs, tag, **k())
            enum("from.tagging", [kinds["u"]("FirstOne", 0), kinds["s1"]("SecondOne", 1)], tag, rename_all="snake_case", **k())
            enum("from.tagging", [kinds["u"]("FirstOne", 0), kinds["s1"]("SecondOne", 1)], tag, deny=True, rename=f"FromTag{len(P)}", **k())
    add("from.into_only", Spec("struct", nm(), [Field(T(0), "a")], into=T(8)))
    add("from.into_only", Spec("enum", nm(), variants=[kinds["u"]("Va", 0), kinds["n"]("Vb", 1)], into=T(8)))
    # ------------------------------------------------------------- attributes that do not change what is read
    INERT_F = [dict(ser_with="super::mk"), {"alias": "aka"}, dict(skip_if=True), dict(bound=""), dict(skip_if=True, default=True), dict(ser_with="super::mk", rename={"de": "inOnly", "ser": "outOnly"})]
    INERT_C = [dict(deny=True), dict(expecting="a thing"), {"crate": "::serde"}, dict(bound=""), dict(into=T(8))]
    for a in INERT_F:
        for named in (True, False):
            fl = [Field(T(0), "my_f0" if named else None, **a), Field(T(1), "my_f1" if named else None)]
            if a.get("default"): fl.reverse()
            if not named and a.get("rename"): continue
            add("inert.field", Spec("struct" if named else "tuple", nm(), fl))
            add("inert.field", Spec("struct" if named else "tuple", nm(), fl[:1] if not a.get("default") else fl[1:], style=1))
            for tag in TAGS: enum("inert.field", [Variant("Va", "struct" if named else "tuple", fl), kinds["u"]("Vb", 0)], tag)
    for a in INERT_C:
        add("inert.container", Spec("struct", nm(), [mkfield("plain", 0), mkfield("default", 1)], **a))
        add("inert.container", Spec("tuple", nm(), [mkfield("plain", 0, False)], **a))
        for tag in TAGS: enum("inert.container", [kinds["u"]("Va", 0), kinds["s2"]("Vb", 1)], tag, **a)
    for a in (dict(bound=""), {"alias": "aka"}, dict(ser_with="super::mk")):
        for k in ("u", "n", "s2"):
            if "ser_with" in a and k == "u": continue
            for tag in TAGS:
                v = kinds[k]("Va", 0); v.a.update(a)
                enum("inert.variant", [v, kinds["u"]("Vb", 5)], tag)
    # ------------------------------------------------------------- documentation
    for i, (src, exp, dt) in enumerate(DOCS):
        shapes = [lambda d: Spec("struct", nm(), [Field(T(0), "a"), Field(T(1), "b")], docs=d),
                  lambda d: Spec("tuple", nm(), [Field(T(0))], docs=d), lambda d: Spec("tuple", nm(), [Field(T(0)), Field(T(1))], docs=d),
                  lambda d: Spec("enum", nm(), variants=[kinds["u"]("Va", 0), kinds["n"]("Vb", 1)], docs=d),
                  lambda d: Spec("enum", nm(), variants=[kinds["s2"]("Va", 0)], docs=d),
                  lambda d: Spec("struct", nm(), [Field(T(0), "a")], docs=d, **{"from": T(5)}),
                  lambda d: Spec("enum", nm(), variants=[kinds["u"]("Va", 0)], docs=d, try_from=T(5)),
                  lambda d: Spec("struct", nm(), [Field(T(0), "a")], docs=d, transparent=True)]
        for mk in shapes: add("docs", mk(src), docs_expected=doc_lines(exp), tags=dt)
    # ------------------------------------------------------------- random combinations
    rng = random.Random(seed if thorough else 1)
    for _ in range(2500 if thorough else 250):
        kind = rng.choice(["struct", "tuple", "enum"])
        ca = {}
        if rng.random() < .4: ca["rename_all"] = rng.choice(CASES)
        if rng.random() < .2: ca["rename"] = f"Rn{len(P)}"
        if rng.random() < .12: ca[rng.choice(["from", "try_from"])] = rng.choice(["crate::base::Plain", "crate::base::Renamed", "crate::base::InRen", T(90), f"Vec<{T(90)}>"])
        if rng.random() < .1: ca["into"] = T(91)
        if rng.random() < .1: ca["deny"] = True
        if rng.random() < .2: ca["ns"] = rng.choice(["NsRen", "crate::deep::NsDeep"])
        ty = lambda i: rng.choice([T(i), T(i), T(i), f"Option<{T(i)}>", f"Vec<{T(i)}>", f"Box<{T(i)}>", "crate::base::Renamed"])

        def rfield(i, named, states):
            a = dict(fs[rng.choice(states)])
            if "rename" in a:
                r = a["rename"]
                a["rename"] = f"{r}{i}" if isinstance(r, str) else {k: f"{v}{i}" for k, v in r.items()}
            return Field(ty(i), (rng.choice(["f", "my_f", "F", "fO", "_f"]) + str(i)) if named else None, **a)
        ST = ["plain", "plain", "skip", "skipde", "skipser", "default", "rename", "de", "ser", "rendef", "alias", "path"]
        if kind == "struct":
            if rng.random() < .15: ca["default"] = True
            add("random", Spec("struct", nm(), [rfield(i, True, ST) for i in range(rng.randint(1, 9))], **ca))
        elif kind == "tuple":
            n = rng.randint(1, 8)
            cut = rng.randint(1, n)
            flds = [rfield(i, False, ["plain", "plain", "skip", "skipde"] if i < cut else ["default", "path", "skip"]) for i in range(n)]
            if not any(not f.skipped() for f in flds): continue
            ca.pop("rename_all", None)
            add("random", Spec("tuple", nm(), flds, **ca))
        else:
            tag = rng.choice(TAGS)
            vs, b = [], 0
            for i in range(rng.randint(1, 8)):
                vn = rng.choice(["V", "Foo", "fooBar", "FOO", "X_y"]) + str(i)
                st = rng.choice(["unit", "tuple", "struct"])
                internal = "tag" in tag and "content" not in tag
                if internal and st == "tuple": st = "struct"
                flds = [] if st == "unit" else [rfield(b + j, st == "struct", ST if st == "struct" else ["plain", "plain", "skip", "default", "skipde"]) for j in range(rng.randint(1, 4))]
                b += len(flds)
                if st == "struct" and all(f.skipped() for f in flds): flds.append(Field(T(b), "kept")); b += 1
                if st == "tuple" and len(flds) > 1 and all(f.skipped() for f in flds): flds.append(Field(T(b))); b += 1
                va = {}
                r = rng.random()
                if r < .15: va["skip"] = True
                elif r < .25: va["rename"] = f"rv{i}"
                elif r < .35: va["rename"] = {"ser": f"sv{i}", "de": f"dv{i}"}
                if st == "struct" and rng.random() < .3: va["rename_all"] = rng.choice(CASES)
                vs.append(Variant(vn, st, flds, **va))
            if all(v.skipped() for v in vs): continue
            add("random", Spec("enum", nm(), variants=vs, **tag, **ca))
    for i, p in enumerate(P): p.id = f"t{i}"
    return P


KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv try typeof unsized virtual yield gen".split())
TAGS = [{}, {"tag": "tg"}, {"tag": "tg", "content": "ct"}, {"untagged": True}]
DOCS = [
    ("", [], []),
    ("/// One line", ["One line"], []),
    ("/// First\n/// Second", ["First", "Second"], []),
    ("/// First\n///\n/// Third", ["First", "", "Third"], []),
    ("///\n/// After an empty line\n///", ["", "After an empty line", ""], []),
    ("/// a\n/// b\n/// c\n/// d\n/// e\n/// f\n/// g\n/// h\n/// i\n/// j\n/// k\n/// l", list("abcdefghijkl"), []),
    ("///    indented\n///\t tab", ["indented", "tab"], []),
    ("/** block */", ["block"], []),
    ("/** first\n * second\n */", ["first\n * second\n"], []),
    ('#[doc = "attribute"]', ["attribute"], []),
    ('/// mixed\n#[doc = "attribute"]\n/// end', ["mixed", "attribute", "end"], []),
    ('/// before\n#[allow(dead_code)]\n/// after', ["before", "after"], []),
    ('#[doc(hidden)]\n/// visible', ["visible"], []),
    ('/// braces {} {name} {0:?} %s', ["braces {} {name} {0:?} %s"], []),
    ('/// "quotes" and \\ backslash \\n', ['"quotes" and \\ backslash \\n'], []),
    ('/// ünïcödé 🦀 ∀x', ['ünïcödé 🦀 ∀x'], []),
    ('/// same\n/// same\n/// same', ['same', 'same', 'same'], []),
    ('/// * starred\n/// ** twice\n/// # Heading\n/// - item', ['* starred', '** twice', '# Heading', '- item'], []),
    ('/// // slashes // and /* open', ['// slashes // and /* open'], []),
    ('/// ends */ early', ['ends */ early'], ["docend"]),
    ('/// a */ b */ c\n/// **/', ['a */ b */ c', '**/'], ["docend"]),
    ('/// /', ['/'], ["docend"]),
    ('#[doc = "x\\ny\\nz"]', ["x\ny\nz"], []),
    ('#[doc = "x\\r\\ny"]', ["x\ny"], []),
    ('/// ' + "long " * 60, [("long " * 60).strip()], []),
    ('/// x', ["x"], []), ('/// 1', ["1"], []), ('/// ```rust\n/// let x = 1;\n/// ```', ["```rust", "let x = 1;", "```"], []),
]

HEADER = """#![allow(warnings)]
pub mod zq { %s }
#[derive(::zod::Namespace)] pub struct Ns;
#[derive(::zod::Namespace)] #[namespace(name = "Other_Name")] pub struct NsRen;
pub mod deep { #[derive(::zod::Namespace)] pub struct NsDeep; }
pub fn mk<T>() -> T { todo!() }
pub fn never<T>(_: &T) -> bool { false }
pub mod base { use super::*;
#[derive(::zod::Zod)] #[zod(namespace = "Ns")] pub struct Plain { pub b0: zq::T30, pub b1: zq::T31 }
#[derive(::zod::Zod, ::sattr::Attrs)] #[zod(namespace = "Ns")] #[serde(rename = "OtherBase")] pub struct Renamed { pub b2: zq::T32, pub b3: zq::T33 }
#[derive(::zod::Zod)] #[zod(namespace = "NsRen")] pub struct InRen { pub b4: zq::T34, pub b5: zq::T35 }
#[derive(::zod::Zod)] #[zod(namespace = "Ns")] pub struct New(pub zq::T36);
#[derive(::zod::Zod)] #[zod(namespace = "Ns")] pub enum En { A, B(zq::T37), C { c: zq::T38 } }
}
"""


def render(probes):
    """source text and the line range of every probe"""
    out = HEADER % " ".join(f"pub struct T{i};" for i in range(120))
    line = out.count("\n") + 1
    lines = {}
    parts = [out]
    for p in probes:
        t = f"pub mod {p.id} {{ use super::*;\n{p.spec.rust()}}}\n"
        n = t.count("\n")
        lines[p.id] = (line, line + n - 1)
        line += n
        parts.append(t)
    return "".join(parts), lines
