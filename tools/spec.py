"""Specification of probe types: how they are written in Rust, and what serde says about their wire form.

Nothing in here looks at the analysed repository; it is the oracle the evaluated code is compared with."""
import itertools, json

CASES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case",
         "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]


def ascii_lower(s): return "".join(c.lower() if c.isascii() else c for c in s)
def ascii_upper(s): return "".join(c.upper() if c.isascii() else c for c in s)


def rule_variant(rule, v):
    if rule in (None, "PascalCase"): return v
    if rule == "lowercase": return ascii_lower(v)
    if rule == "UPPERCASE": return ascii_upper(v)
    if rule == "camelCase": return ascii_lower(v[:1]) + v[1:]
    snake = ""
    for i, c in enumerate(v):
        if i and c.isupper(): snake += "_"
        snake += ascii_lower(c)
    if rule == "snake_case": return snake
    if rule == "SCREAMING_SNAKE_CASE": return ascii_upper(snake)
    if rule == "kebab-case": return snake.replace("_", "-")
    if rule == "SCREAMING-KEBAB-CASE": return ascii_upper(snake).replace("_", "-")
    raise ValueError(rule)


def rule_field(rule, f):
    if rule in (None, "lowercase", "snake_case"): return f
    if rule == "UPPERCASE": return ascii_upper(f)
    pascal, cap = "", True
    for c in f:
        if c == "_": cap = True
        elif cap: pascal += ascii_upper(c); cap = False
        else: pascal += c
    if rule == "PascalCase": return pascal
    if rule == "camelCase": return ascii_lower(pascal[:1]) + pascal[1:]
    if rule == "SCREAMING_SNAKE_CASE": return ascii_upper(f)
    if rule == "kebab-case": return f.replace("_", "-")
    if rule == "SCREAMING-KEBAB-CASE": return ascii_upper(f).replace("_", "-")
    raise ValueError(rule)


def unraw(x): return x[2:] if x.startswith("r#") else x


def rs(x):
    """Rust string literal"""
    return '"' + x.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'


# ---------------------------------------------------------------- attributes
# field attributes (keys): skip, skip_de, skip_ser, default (True or path), rename (str or {"de":..,"ser":..}),
#   flatten, alias, with
# container: rename, rename_all (str or dict), default, transparent, tag, content, untagged, from, try_from, deny

def de_name(r):
    if r is None: return None
    if isinstance(r, str): return r
    return r.get("de")


def ren(key, r):
    if isinstance(r, str): return f"{key} = {rs(r)}"
    inner = []
    for k in r:
        if k == "ser": inner.append(f"serialize = {rs(r[k])}")
        if k == "de": inner.append(f"deserialize = {rs(r[k])}")
    return f"{key}({', '.join(inner)})"


ORDER = ["rename", "rename_all", "tag", "content", "untagged", "transparent", "from", "try_from", "deny",
         "skip", "skip_de", "skip_ser", "flatten", "default", "alias", "skip_if", "bound", "into", "with", "de_with", "ser_with", "getter", "expecting", "crate", "other", "borrow"]


def serde_attr(a, style=0):
    parts = []
    for k in ORDER:
        if k not in a or a[k] is None or a[k] is False: continue
        v = a[k]
        if k in ("rename", "rename_all"): parts.append(ren(k, v))
        elif k in ("tag", "content", "from", "try_from", "alias", "bound", "into"): parts.append(f"{k} = {rs(v)}")
        elif k in ("with", "expecting", "crate", "getter"): parts.append(f"{k} = {rs(v)}")
        elif k in ("de_with", "ser_with"): parts.append(f"{dict(de_with='deserialize_with', ser_with='serialize_with')[k]} = {rs(v)}")
        elif k == "deny": parts.append("deny_unknown_fields")
        elif k == "skip": parts.append("skip")
        elif k == "skip_de": parts.append("skip_deserializing")
        elif k == "skip_ser": parts.append("skip_serializing")
        elif k == "skip_if": parts.append('skip_serializing_if = "super::never"')
        elif k == "default": parts.append("default" if v is True else f"default = {rs(v)}")
        else: parts.append(k)
    if not parts: return ""
    if style == 1:
        return "".join(f"#[serde({p})]\n" for p in reversed(parts))
    return f"#[serde({', '.join(parts)})]\n"


class Field:
    def __init__(s, ty, name=None, **a): s.ty, s.name, s.a = ty, name, a
    def skipped(s): return bool(s.a.get("skip") or s.a.get("skip_de"))
    def optional(s): return bool(s.a.get("default"))
    def wire(s, rule):
        d = de_name(s.a.get("rename"))
        return d if d is not None else rule_field(rule, unraw(s.name))


class Variant:
    def __init__(s, name, style, fields=(), **a): s.name, s.style, s.fields, s.a = name, style, list(fields), a
    def skipped(s): return bool(s.a.get("skip") or s.a.get("skip_de"))
    def wire(s, rule):
        d = de_name(s.a.get("rename"))
        return d if d is not None else rule_variant(rule, unraw(s.name))


class Spec:
    """kind: struct (named), tuple, enum"""
    def __init__(s, kind, name, fields=(), variants=(), ns="Ns", docs=None, derive="", style=0, vis="pub ", **a):
        s.kind, s.name, s.fields, s.variants, s.ns, s.docs, s.a = kind, name, list(fields), list(variants), ns, docs, a
        s.style, s.vis, s.derive = style, vis, derive

    def exported(s):
        d = de_name(s.a.get("rename"))
        return d if d is not None else unraw(s.name)

    def rust(s):
        o = ""
        if s.docs: o += s.docs if s.docs.endswith("\n") else s.docs + "\n"
        o += f"#[derive(::zod::Zod, ::sattr::Attrs)]\n#[zod(namespace = {rs(s.ns)})]\n"
        o += serde_attr(s.a, s.style)
        o += s.derive

        def fl(f, v=""):
            at = serde_attr(f.a, s.style)
            return at + (f"{v}{f.name}: {f.ty}" if f.name else f"{v}{f.ty}")
        if s.kind == "struct":
            o += f"{s.vis}struct {s.name} {{\n" + "".join(fl(f, "pub ") + ",\n" for f in s.fields) + "}\n"
        elif s.kind == "tuple":
            o += f"{s.vis}struct {s.name}(" + ", ".join(fl(f, "pub ") for f in s.fields) + ");\n"
        else:
            o += f"{s.vis}enum {s.name} {{\n"
            for v in s.variants:
                o += serde_attr(v.a, s.style)
                if v.style == "unit": o += f"{v.name},\n"
                elif v.style == "tuple": o += f"{v.name}(" + ", ".join(fl(f) for f in v.fields) + "),\n"
                else: o += f"{v.name} {{ " + ", ".join(fl(f) for f in v.fields) + " },\n"
            o += "}\n"
        return o

    # ------------------------------------------------------------ serde's wire shape
    # comp(ty) is the shape of a component type as produced by its own implementation
    def wire(s, comp, mode):
        """mode: 'schema' or 'type' (only the component shapes differ)"""
        a = s.a
        src = a.get("from") or a.get("try_from")
        if src: return comp(src)
        if s.kind in ("struct", "tuple"):
            if a.get("transparent"):
                # serde: the one field that is not skipped / defaulted
                return field_shape(s.transparent_field(), comp)
            rule = de_name(a.get("rename_all"))
            if s.kind == "struct": return obj_shape(s.fields, rule, comp, bool(a.get("default")))
            return tuple_shape(s.fields, comp, bool(a.get("default")))
        rule = de_name(a.get("rename_all"))
        alts = [variant_shape(s, v, rule, comp) for v in s.variants if not v.skipped()]
        if len(alts) == 1: return alts[0]
        return {"k": "union", "alts": alts}

    def transparent_field(s):
        kept = [f for f in s.fields if not f.skipped() and not f.optional()
                and not f.ty.split("<")[0].split("::")[-1].strip() == "PhantomData"]
        assert len(kept) == 1
        return kept[0]

    def kept_components(s):
        """component types in the order serde reads them"""
        src = s.a.get("from") or s.a.get("try_from")
        if src: return [src]
        if s.kind == "enum":
            return [f.ty for v in s.variants if not v.skipped() for f in v.fields if not f.skipped()]
        if s.a.get("transparent"): return [s.transparent_field().ty]
        fs = [f for f in s.fields if not f.skipped()]
        return [f.ty for f in fs]

    def component_types(s):
        out = [f.ty for f in s.fields] + [f.ty for v in s.variants for f in v.fields]
        for k in ("from", "try_from"):
            if s.a.get(k): out.append(s.a[k])
        return out


def opt(x): return x if x.get("k") == "opt" else {"k": "opt", "of": x}


def field_shape(f, comp, container_default=False):
    c = comp(f.ty)
    return opt(c) if f.optional() or container_default else c


def obj_shape(fields, rule, comp, container_default=False, extra=()):
    props, flat = list(extra), []
    for f in fields:
        if f.skipped(): continue
        if f.a.get("flatten"):
            flat.append(field_shape(f, comp))
        else:
            props.append([f.wire(rule), field_shape(f, comp, container_default)])
    o = {"k": "obj", "props": props}
    if flat: o["flat"] = flat
    return o


def tuple_shape(fields, comp, container_default=False):
    kept = [f for f in fields if not f.skipped()]
    if len(fields) == 1 and len(kept) == 1:
        return field_shape(kept[0], comp, container_default)
    return {"k": "tuple", "items": [field_shape(f, comp, container_default) for f in kept]}


def variant_shape(s, v, rule, comp):
    name = v.wire(rule)
    frule = de_name(v.a.get("rename_all"))
    tag, content = s.a.get("tag"), s.a.get("content")
    style = v.style
    if style == "tuple" and len(v.fields) == 1 and v.fields[0].skipped(): style = "unit"
    if style == "unit":
        if s.a.get("untagged"): return {"k": "null"}
        if tag: return {"k": "obj", "props": [[tag, lit(name)]]}
        return lit(name)
    if style == "tuple": inner = tuple_shape(v.fields, comp)
    else: inner = obj_shape(v.fields, frule, comp)
    if s.a.get("untagged"): return inner
    if tag and content: return {"k": "obj", "props": [[tag, lit(name)], [content, inner]]}
    if tag:
        if style == "struct":
            o = {"k": "obj", "props": [[tag, lit(name)]] + inner["props"]}
            if inner.get("flat"): o["flat"] = inner["flat"]
            return o
        return {"k": "obj", "props": [[tag, lit(name)]], "flat": [inner]}
    return {"k": "obj", "props": [[name, inner]]}


def lit(x): return {"k": "lit", "v": x}


# ---------------------------------------------------------------- docs
def doc_lines(rust_docs):
    """expected lines for documentation given as a list of attribute texts"""
    lines = []
    for t in rust_docs: lines += [x.strip() for x in t.strip().split("\n")] if t.strip() else [""]
    while lines and not lines[0]: lines.pop(0)
    while lines and not lines[-1]: lines.pop()
    return lines
