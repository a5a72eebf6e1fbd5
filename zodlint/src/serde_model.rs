//! serde's data model for JSON, over abstract values.
//!
//! A JSON value is `serde_json::Value` with its variants (`Object` holds a map, `Array` a list) or a
//! symbol of that type. Program types are read and written the way serde_derive documents it.
use crate::interp::*;
use crate::load::*;
use crate::value::*;
use std::rc::Rc;

pub const JV: &str = "serde_json::Value";

pub fn jnull() -> V {
    adt(JV, Some("Null"), vec![])
}
pub fn jbool(b: bool) -> V {
    adt(JV, Some("Bool"), vec![("0", V::Bool(b))])
}
pub fn jnum(v: V) -> V {
    adt(JV, Some("Number"), vec![("0", v)])
}
pub fn jstr(v: V) -> V {
    adt(JV, Some("String"), vec![("0", v)])
}
pub fn jarr(v: Vec<V>) -> V {
    adt(JV, Some("Array"), vec![("0", list(v))])
}
pub fn jobj(v: Vec<(V, V)>) -> V {
    adt(JV, Some("Object"), vec![("0", V::Map(Rc::new(v), true))])
}
pub fn is_json(v: &V) -> bool {
    match v {
        V::Adt(a) => a.ty == JV,
        V::Sym(x) => x.ty == JV,
        _ => false,
    }
}

#[derive(Default, Clone, Debug)]
pub struct Attrs {
    rename: (Option<String>, Option<String>),
    rename_all: (Option<String>, Option<String>),
    rename_all_fields: (Option<String>, Option<String>),
    tag: Option<String>,
    content: Option<String>,
    untagged: bool,
    default: bool,
    skip: (bool, bool),
    flatten: bool,
    alias: Vec<String>,
    other: bool,
    deny: bool,
    with: (Option<String>, Option<String>),
    from: Option<String>,
    into: Option<String>,
    transparent: bool,
    skip_if: bool,
}

fn lit(m: &syn::meta::ParseNestedMeta) -> syn::Result<String> {
    let l: syn::Lit = m.value()?.parse()?;
    Ok(match l {
        syn::Lit::Str(s) => s.value(),
        o => quote::quote!(#o).to_string(),
    })
}

pub fn attrs(a: &[syn::Attribute]) -> Attrs {
    let mut o = Attrs::default();
    for x in a {
        if !x.path().is_ident("serde") {
            continue;
        }
        let _ = x.parse_nested_meta(|m| {
            let n = m.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
            let pair = |m: &syn::meta::ParseNestedMeta| -> syn::Result<(Option<String>, Option<String>)> {
                if m.input.peek(syn::Token![=]) {
                    let l = lit(m)?;
                    return Ok((Some(l.clone()), Some(l)));
                }
                let mut r = (None, None);
                m.parse_nested_meta(|k| {
                    let l = lit(&k)?;
                    if k.path.is_ident("serialize") {
                        r.0 = Some(l)
                    } else {
                        r.1 = Some(l)
                    }
                    Ok(())
                })?;
                Ok(r)
            };
            match n.as_str() {
                "rename" => o.rename = pair(&m)?,
                "rename_all" => o.rename_all = pair(&m)?,
                "rename_all_fields" => o.rename_all_fields = pair(&m)?,
                "tag" => o.tag = Some(lit(&m)?),
                "content" => o.content = Some(lit(&m)?),
                "untagged" => o.untagged = true,
                "default" => {
                    o.default = true;
                    if m.input.peek(syn::Token![=]) {
                        lit(&m)?;
                    }
                }
                "skip" => o.skip = (true, true),
                "skip_serializing" => o.skip.0 = true,
                "skip_deserializing" => o.skip.1 = true,
                "flatten" => o.flatten = true,
                "alias" => o.alias.push(lit(&m)?),
                "other" => o.other = true,
                "deny_unknown_fields" => o.deny = true,
                "transparent" => o.transparent = true,
                "with" => {
                    let l = lit(&m)?;
                    o.with = (Some(l.clone()), Some(l));
                }
                "serialize_with" => o.with.0 = Some(lit(&m)?),
                "deserialize_with" => o.with.1 = Some(lit(&m)?),
                "skip_serializing_if" => {
                    o.skip_if = true;
                    lit(&m)?;
                }
                "from" | "try_from" => o.from = Some(lit(&m)?),
                "into" => o.into = Some(lit(&m)?),
                _ => {
                    if m.input.peek(syn::Token![=]) {
                        lit(&m)?;
                    } else if m.input.peek(syn::token::Paren) {
                        let c;
                        syn::parenthesized!(c in m.input);
                        let _: proc_macro2::TokenStream = c.parse()?;
                    }
                }
            }
            Ok(())
        });
    }
    o
}

/// words of an identifier in its customary case
fn words(n: &str, variant: bool) -> Vec<String> {
    if variant {
        let mut w: Vec<String> = vec![];
        for c in n.chars() {
            if c.is_uppercase() || w.is_empty() {
                w.push(c.to_lowercase().collect());
            } else {
                w.last_mut().unwrap().push(c);
            }
        }
        w
    } else {
        n.split('_').map(|x| x.to_string()).collect()
    }
}
fn cap(w: &str) -> String {
    let mut c = w.chars();
    match c.next() {
        Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
        None => String::new(),
    }
}
pub fn rule(r: &str, n: &str, variant: bool) -> String {
    let w = words(n, variant);
    match r {
        "lowercase" => {
            if variant {
                n.to_lowercase()
            } else {
                n.into()
            }
        }
        "UPPERCASE" => n.to_uppercase(),
        "PascalCase" => {
            if variant {
                n.into()
            } else {
                w.iter().map(|x| cap(x)).collect()
            }
        }
        "camelCase" => {
            let p: String = if variant { n.into() } else { w.iter().map(|x| cap(x)).collect() };
            let mut c = p.chars();
            match c.next() {
                Some(f) => f.to_lowercase().collect::<String>() + c.as_str(),
                None => p,
            }
        }
        "snake_case" => w.join("_"),
        "SCREAMING_SNAKE_CASE" => w.join("_").to_uppercase(),
        "kebab-case" => w.join("-"),
        "SCREAMING-KEBAB-CASE" => w.join("-").to_uppercase(),
        _ => n.into(),
    }
}
fn unraw(i: &syn::Ident) -> String {
    let t = decode_ident(&i.to_string());
    t.strip_prefix("r#").map(|x| x.to_string()).unwrap_or(t)
}

type DR = R<Result<V, String>>;

fn get<'a>(m: &'a [(V, V)], k: &str) -> Option<&'a V> {
    m.iter().find(|(x, _)| matches!(x, V::Str(t) if &**t == k)).map(|(_, v)| v)
}
fn obj(v: &V) -> Option<Rc<Vec<(V, V)>>> {
    match v {
        V::Adt(a) if a.ty == JV && a.variant.as_deref() == Some("Object") => match &a.fields[0].1 {
            V::Map(m, _) => Some(m.clone()),
            _ => None,
        },
        _ => None,
    }
}
fn arr(v: &V) -> Option<Rc<Vec<V>>> {
    match v {
        V::Adt(a) if a.ty == JV && a.variant.as_deref() == Some("Array") => match &a.fields[0].1 {
            V::List(m) => Some(m.clone()),
            _ => None,
        },
        _ => None,
    }
}
fn kind(v: &V) -> &str {
    match v {
        V::Adt(a) if a.ty == JV => a.variant.as_deref().unwrap_or(""),
        _ => "",
    }
}
fn inner(v: &V) -> V {
    match v {
        V::Adt(a) => a.fields.first().map(|x| x.1.clone()).unwrap_or(V::Unit),
        _ => v.clone(),
    }
}
fn without(m: &[(V, V)], k: &[String]) -> Vec<(V, V)> {
    m.iter().filter(|(x, _)| !matches!(x, V::Str(t) if k.iter().any(|y| **y == **t))).cloned().collect()
}

/// an opaque JSON value read as an opaque type
fn fits(ip: &mut Interp, v: &V, ty: &Ty) -> DR {
    let t = ty.show();
    let k = match v {
        V::Sym(x) => x.key.clone(),
        o => dbg(o),
    };
    if ip.decide(&format!("{k} fits {t}"), &["yes", "no"])? == 0 {
        let tn = match ty {
            Ty::Adt(p, _) => p.clone(),
            _ => t.clone(),
        };
        let key = format!("{k} as {t}");
        Ok(Ok(match tn.as_str() {
            "std::string::String" | "str" => sym_str(key),
            _ => symv(key, &tn),
        }))
    } else {
        Ok(Err(format!("{k} is no {t}")))
    }
}

fn derived(ip: &Interp, path: &str, tr: &str, a: &[syn::Attribute]) -> bool {
    for x in a {
        if x.path().is_ident("derive") {
            if quote::quote!(#x).to_string().contains(tr) {
                return true;
            }
        }
    }
    // an expanded derive leaves an impl marked as derived
    let impls = ip.prog.borrow().impls.clone();
    let ty = Ty::Adt(path.to_string(), vec![]);
    for im in impls.iter() {
        if let Some((t, _)) = &im.trait_ {
            if t.rsplit("::").next() == Some(tr) && ip.match_impl(im, &ty).is_some() {
                return im.attrs.iter().any(|a| a.path().is_ident("automatically_derived"));
            }
        }
    }
    false
}

fn fields_of(f: &syn::Fields) -> Vec<syn::Field> {
    f.iter().cloned().collect()
}

pub fn decode(ip: &mut Interp, ty: &Ty, v: &V) -> DR {
    ip.tick()?;
    let v = &ip.strip(v.clone())?;
    if let V::Ref(_) = v {
        return top("json behind a reference");
    }
    let last = ty.last().to_string();
    let a = ty.args().to_vec();
    match ty {
        Ty::Ref(t, _) => return decode(ip, t, v),
        Ty::Adt(p, _) if p == JV || p.ends_with("serde_json::Value") || p.ends_with("value::Value") => return Ok(Ok(v.clone())),
        Ty::Infer => return top("deserialization into an unknown type"),
        _ => {}
    }
    // structures
    match ty {
        Ty::Tuple(ts) if ts.is_empty() => {
            return match v {
                V::Sym(_) => fits(ip, v, ty),
                _ if kind(v) == "Null" => Ok(Ok(V::Unit)),
                _ => Ok(Err("expected unit".into())),
            }
        }
        Ty::Tuple(ts) => {
            let items = match arr(v) {
                Some(x) => x,
                None if matches!(v, V::Sym(_)) => return fits(ip, v, ty),
                None => return Ok(Err(format!("expected a tuple of size {}", ts.len()))),
            };
            if items.len() != ts.len() {
                return Ok(Err(format!("invalid length {}, expected a tuple of size {}", items.len(), ts.len())));
            }
            let mut out = vec![];
            for (t, x) in ts.iter().zip(items.iter()) {
                match decode(ip, t, x)? {
                    Ok(v) => out.push(v),
                    Err(e) => return Ok(Err(e)),
                }
            }
            return Ok(Ok(tuple(out)));
        }
        Ty::Array(t, n) => {
            let items = match arr(v) {
                Some(x) => x,
                None if matches!(v, V::Sym(_)) => return fits(ip, v, ty),
                None => return Ok(Err("expected an array".into())),
            };
            let n: usize = match n.trim_matches(|c: char| !c.is_ascii_digit()).parse() {
                Ok(n) => n,
                Err(_) => return top(format!("array length {n}")),
            };
            if items.len() != n {
                return Ok(Err(format!("invalid length {}, expected an array of length {n}", items.len())));
            }
            let mut out = vec![];
            for x in items.iter() {
                match decode(ip, t, x)? {
                    Ok(v) => out.push(v),
                    Err(e) => return Ok(Err(e)),
                }
            }
            return Ok(Ok(list(out)));
        }
        Ty::Adt(p, _) => {
            let d = ip.prog.borrow().defs.get(p).cloned();
            let opaque = p.starts_with("corpus::zq::");
            match d {
                Some(Def::Struct(st, m)) if !opaque => {
                    if !derived(ip, p, "Deserialize", &st.attrs) {
                        if matches!(v, V::Sym(_)) {
                            return fits(ip, v, ty);
                        }
                        return top(format!("hand-written Deserialize of {p}"));
                    }
                    if matches!(v, V::Sym(_)) {
                        return fits(ip, v, ty);
                    }
                    let ca = attrs(&st.attrs);
                    if ca.from.is_some() {
                        return top("from");
                    }
                    return de_fields(ip, p, None, &fields_of(&st.fields), matches!(st.fields, syn::Fields::Named(_)), &ca, ca.rename_all.1.clone(), &m, v, ca.transparent);
                }
                Some(Def::Enum(en, m)) if !opaque => {
                    if !derived(ip, p, "Deserialize", &en.attrs) {
                        if matches!(v, V::Sym(_)) {
                            return fits(ip, v, ty);
                        }
                        return top(format!("hand-written Deserialize of {p}"));
                    }
                    if matches!(v, V::Sym(_)) {
                        return fits(ip, v, ty);
                    }
                    return de_enum(ip, p, &en, &m, v);
                }
                _ => {}
            }
        }
        _ => {}
    }
    let path = match ty {
        Ty::Adt(p, _) => p.clone(),
        _ => ty.show(),
    };
    let std = !path.starts_with("corpus::") && !path.starts_with("zod");
    match last.as_str() {
        "Option" if std => {
            if kind(v) == "Null" {
                return Ok(Ok(none()));
            }
            if matches!(v, V::Sym(_)) {
                return fits(ip, v, ty);
            }
            return Ok(decode(ip, &a[0], v)?.map(some));
        }
        "Box" | "Arc" | "Rc" | "Cow" if std && a.len() == 1 => return decode(ip, &a[0], v),
        "Vec" | "VecDeque" if std && a.len() == 1 => {
            if let Some(items) = arr(v) {
                let mut out = vec![];
                for x in items.iter() {
                    match decode(ip, &a[0], x)? {
                        Ok(v) => out.push(v),
                        Err(e) => return Ok(Err(e)),
                    }
                }
                return Ok(Ok(list(out)));
            }
            if matches!(v, V::Sym(_)) {
                return fits(ip, v, ty);
            }
            return Ok(Err("expected a sequence".into()));
        }
        "String" | "str" => match kind(v) {
            "String" => return Ok(Ok(inner(v))),
            "" => {}
            _ => return Ok(Err("expected a string".into())),
        },
        "usize" | "u64" | "u32" | "u16" | "u8" | "isize" | "i64" | "i32" | "i16" | "i8" | "u128" | "i128" | "f64" | "f32" => match kind(v) {
            "Number" => return Ok(Ok(inner(v))),
            "" => {}
            _ => return Ok(Err("expected a number".into())),
        },
        "bool" => match kind(v) {
            "Bool" => return Ok(Ok(inner(v))),
            "" => {}
            _ => return Ok(Err("expected a boolean".into())),
        },
        _ => {}
    }
    fits(ip, v, ty)
}

#[allow(clippy::too_many_arguments)]
fn de_fields(ip: &mut Interp, path: &str, variant: Option<&str>, fields: &[syn::Field], named: bool, ca: &Attrs, rename_all: Option<String>, module: &str, v: &V, transparent: bool) -> DR {
    let fr = ip.mod_frame(module);
    let build = |f: Vec<(String, V)>| V::Adt(Rc::new(AdtV { ty: path.into(), variant: variant.map(|x| x.to_string()), fields: f }));
    let fname = |i: usize, f: &syn::Field| f.ident.as_ref().map(|i| decode_ident(&i.to_string())).unwrap_or(i.to_string());
    if fields.is_empty() && !named {
        return Ok(if kind(v) == "Null" { Ok(build(vec![])) } else { Err("expected unit".into()) });
    }
    if (fields.len() == 1 && !named) || transparent {
        let f = match fields.iter().find(|f| !attrs(&f.attrs).skip.1) {
            Some(f) => f,
            None => return top("transparent"),
        };
        if fields.len() != 1 || attrs(&f.attrs).with.1.is_some() {
            return top("transparent with several fields");
        }
        let ty = ip.ty_of(&f.ty, &fr);
        return Ok(decode(ip, &ty, v)?.map(|x| build(vec![(fname(0, f), x)])));
    }
    if !named {
        let items = match arr(v) {
            Some(x) => x,
            None => return Ok(Err("expected a sequence".into())),
        };
        let mut out = vec![];
        let mut k = 0;
        for (i, f) in fields.iter().enumerate() {
            let fa = attrs(&f.attrs);
            let ty = ip.ty_of(&f.ty, &fr);
            if fa.skip.1 {
                out.push((fname(i, f), ip.default_of(&ty)?));
                continue;
            }
            match items.get(k) {
                Some(x) => match decode(ip, &ty, x)? {
                    Ok(v) => out.push((fname(i, f), v)),
                    Err(e) => return Ok(Err(e)),
                },
                None if fa.default || ca.default => out.push((fname(i, f), ip.default_of(&ty)?)),
                None => return Ok(Err(format!("invalid length {}", items.len()))),
            }
            k += 1;
        }
        if items.len() > k {
            return Ok(Err("too many elements".into()));
        }
        return Ok(Ok(build(out)));
    }
    let m = match obj(v) {
        Some(m) => m,
        None => {
            // serde also reads a struct from a sequence; nobody sends one
            if let Some(items) = arr(v) {
                let kept: Vec<&syn::Field> = fields.iter().filter(|f| !attrs(&f.attrs).skip.1).collect();
                if kept.len() == items.len() && fields.iter().all(|f| !attrs(&f.attrs).flatten) {
                    return top("struct read from a sequence");
                }
            }
            return Ok(Err("expected a map".into()));
        }
    };
    let mut used: Vec<String> = vec![];
    let mut plan = vec![];
    for f in fields {
        let fa = attrs(&f.attrs);
        let id = unraw(f.ident.as_ref().unwrap());
        let n = fa.rename.1.clone().unwrap_or_else(|| match &rename_all {
            Some(r) => rule(r, &id, false),
            None => id,
        });
        if !fa.flatten && !fa.skip.1 {
            used.push(n.clone());
            used.extend(fa.alias.clone());
        }
        plan.push((f, fa, n));
    }
    let rest = without(&m, &used);
    let flat = plan.iter().any(|p| p.1.flatten);
    if ca.deny && !flat && !rest.is_empty() {
        return Ok(Err("unknown field".into()));
    }
    let mut out = vec![];
    for (i, (f, fa, n)) in plan.iter().enumerate() {
        let ty = ip.ty_of(&f.ty, &fr);
        let name = fname(i, f);
        if fa.skip.1 {
            out.push((name, ip.default_of(&ty)?));
            continue;
        }
        if fa.flatten {
            match decode(ip, &ty, &jobj(rest.clone()))? {
                Ok(v) => out.push((name, v)),
                Err(e) => return Ok(Err(e)),
            }
            continue;
        }
        if fa.with.1.is_some() {
            return top("deserialize_with");
        }
        let present: Vec<&V> = std::iter::once(n).chain(fa.alias.iter()).filter_map(|k| get(&m, k)).collect();
        match present[..] {
            [x] => match decode(ip, &ty, x)? {
                Ok(v) => out.push((name, v)),
                Err(e) => return Ok(Err(e)),
            },
            [] if fa.default || ca.default => out.push((name, ip.default_of(&ty)?)),
            [] if ty.last() == "Option" => out.push((name, none())),
            [] => return Ok(Err(format!("missing field {n}"))),
            _ => return Ok(Err(format!("duplicate field {n}"))),
        }
    }
    Ok(Ok(build(out)))
}

fn de_enum(ip: &mut Interp, path: &str, en: &syn::ItemEnum, module: &str, v: &V) -> DR {
    let ca = attrs(&en.attrs);
    if ca.from.is_some() {
        return top("from");
    }
    let vars: Vec<(&syn::Variant, Attrs, String)> = en
        .variants
        .iter()
        .map(|x| {
            let a = attrs(&x.attrs);
            let id = unraw(&x.ident);
            let n = a.rename.1.clone().unwrap_or_else(|| match &ca.rename_all.1 {
                Some(r) => rule(r, &id, true),
                None => id,
            });
            (x, a, n)
        })
        .filter(|(_, a, _)| !a.skip.1)
        .collect();
    let content = |ip: &mut Interp, x: &syn::Variant, a: &Attrs, c: Option<&V>, internal: bool| -> DR {
        let name = decode_ident(&x.ident.to_string());
        let ra = a.rename_all.1.clone().or(ca.rename_all_fields.1.clone());
        let unit = || adt(path, Some(&name), vec![]);
        match (&x.fields, c) {
            (syn::Fields::Unit, None) => Ok(Ok(unit())),
            (syn::Fields::Unit, Some(c)) => {
                if internal || kind(c) == "Null" {
                    Ok(Ok(unit()))
                } else {
                    Ok(Err("expected unit variant".into()))
                }
            }
            (f, Some(c)) => {
                let fa = Attrs { deny: ca.deny, ..Default::default() };
                de_fields(ip, path, Some(&name), &fields_of(f), matches!(f, syn::Fields::Named(_)), &fa, ra, module, c, false)
            }
            (_, None) => Ok(Err("missing content".into())),
        }
    };
    let find = |t: &str| vars.iter().find(|(_, a, n)| n == t || a.alias.iter().any(|x| x == t)).or_else(|| vars.iter().find(|(_, a, _)| a.other));
    if ca.untagged {
        for (x, a, _) in &vars {
            let r = content(ip, x, a, Some(v), false)?;
            if r.is_ok() {
                return Ok(r);
            }
        }
        return Ok(Err("data did not match any variant".into()));
    }
    if let Some(tag) = &ca.tag {
        let m = match obj(v) {
            Some(m) => m,
            None => return if arr(v).is_some() { top("tagged enum read from a sequence") } else { Ok(Err("expected a map".into())) },
        };
        let t = match get(&m, tag) {
            Some(t) => t.clone(),
            None => return Ok(Err(format!("missing field {tag}"))),
        };
        let t = match (kind(&t), inner(&t)) {
            ("String", V::Str(t)) if !has_sym(&t) => t,
            ("String", _) | ("", _) => {
                let k = dbg(&t);
                let mut labels: Vec<&str> = vars.iter().map(|x| x.2.as_str()).collect();
                labels.push("unknown");
                let c = ip.decide(&format!("{k} is"), &labels)?;
                if c == labels.len() - 1 && !vars.iter().any(|x| x.1.other) {
                    return Ok(Err("unknown variant".into()));
                }
                Rc::from(labels[c])
            }
            _ => return Ok(Err(format!("invalid type for {tag}"))),
        };
        let (x, a, _) = match find(&t) {
            Some(x) => x,
            None => return Ok(Err(format!("unknown variant {t}"))),
        };
        if let Some(c) = &ca.content {
            let c = get(&m, c).cloned();
            return content(ip, x, a, c.as_ref(), false);
        }
        let rest = jobj(without(&m, &[tag.clone()]));
        return content(ip, x, a, Some(&rest), true);
    }
    // externally tagged
    match kind(v) {
        "String" => {
            let t = match inner(v) {
                V::Str(t) if !has_sym(&t) => t,
                _ => return top("variant name unknown"),
            };
            match find(&t) {
                Some((x, a, _)) => content(ip, x, a, None, false),
                None => Ok(Err(format!("unknown variant {t}"))),
            }
        }
        "Object" => {
            let m = obj(v).unwrap();
            if m.len() != 1 {
                return Ok(Err("expected map with a single key".into()));
            }
            let t = match &m[0].0 {
                V::Str(t) if !has_sym(t) => t.clone(),
                _ => return top("variant name unknown"),
            };
            match find(&t) {
                Some((x, a, _)) => content(ip, x, a, Some(&m[0].1), false),
                None => Ok(Err(format!("unknown variant {t}"))),
            }
        }
        _ => Ok(Err("expected string or map".into())),
    }
}

/// JSON of a value and whether writing it can fail
pub fn encode(ip: &mut Interp, v: &V) -> R<(V, bool)> {
    ip.tick()?;
    let v = ip.strip(v.clone())?;
    Ok(match &v {
        V::Unit => (jnull(), false),
        V::Bool(b) => (jbool(*b), false),
        V::Int(_) | V::Float(_) => (jnum(v.clone()), false),
        V::Str(_) => (jstr(v.clone()), false),
        V::Char(c) => (jstr(s(c.to_string())), false),
        V::Cell(c) => {
            let x = c.try_borrow().map_err(|_| Ctl::Top("cell busy".into()))?.clone();
            return encode(ip, &x);
        }
        V::List(l) | V::Tuple(l) | V::Set(l, _) => {
            let (mut o, mut f) = (vec![], false);
            for x in l.iter() {
                let (y, g) = encode(ip, x)?;
                o.push(y);
                f |= g;
            }
            (jarr(o), f)
        }
        V::Map(m, _) => {
            let (mut o, mut f) = (vec![], false);
            for (k, x) in m.iter() {
                let (y, g) = encode(ip, x)?;
                let k = ip.strip(k.clone())?;
                o.push((s(ip.display(&k)?), y));
                f |= g;
            }
            (jobj(o), f)
        }
        V::Sym(x) => {
            let t = x.ty.rsplit("::").next().unwrap_or("").to_string();
            let plain = ["usize", "u64", "u32", "u16", "u8", "i64", "i32", "isize", "bool", "Value"].contains(&t.as_str());
            let fails = !plain && ser_fails(ip, &x.ty, 0)?;
            (symv(if plain { x.key.clone() } else { format!("json of {}", x.key) }, JV), fails)
        }
        V::Adt(a) if a.ty == JV => (v.clone(), false),
        V::Adt(a) if a.ty == "std::option::Option" => match a.variant.as_deref() {
            Some("Some") => return encode(ip, &a.fields[0].1.clone()),
            _ => (jnull(), false),
        },
        V::Adt(a) if a.ty == "std::result::Result" => {
            let (x, f) = encode(ip, &a.fields[0].1.clone())?;
            (jobj(vec![(s(a.variant.clone().unwrap_or_default()), x)]), f)
        }
        V::Adt(a) => {
            let d = ip.prog.borrow().defs.get(&a.ty).cloned();
            match d {
                Some(Def::Struct(st, _)) => {
                    if !derived(ip, &a.ty, "Serialize", &st.attrs) {
                        return top(format!("hand-written Serialize of {}", a.ty));
                    }
                    let ca = attrs(&st.attrs);
                    if ca.into.is_some() {
                        return top("into");
                    }
                    ser_fields(ip, a, &fields_of(&st.fields), matches!(st.fields, syn::Fields::Named(_)), ca.rename_all.0.clone(), ca.transparent, None)?
                }
                Some(Def::Enum(en, _)) => {
                    if !derived(ip, &a.ty, "Serialize", &en.attrs) {
                        return top(format!("hand-written Serialize of {}", a.ty));
                    }
                    let ca = attrs(&en.attrs);
                    if ca.into.is_some() {
                        return top("into");
                    }
                    let vn = a.variant.clone().unwrap_or_default();
                    let x = match en.variants.iter().find(|x| decode_ident(&x.ident.to_string()) == vn) {
                        Some(x) => x.clone(),
                        None => return top(format!("variant {vn}")),
                    };
                    let va = attrs(&x.attrs);
                    let id = unraw(&x.ident);
                    let n = va.rename.0.clone().unwrap_or_else(|| match &ca.rename_all.0 {
                        Some(r) => rule(r, &id, true),
                        None => id,
                    });
                    let unit = matches!(x.fields, syn::Fields::Unit);
                    let ra = va.rename_all.0.clone().or(ca.rename_all_fields.0.clone());
                    let (c, f) = if unit { (jnull(), false) } else { ser_fields(ip, a, &fields_of(&x.fields), matches!(x.fields, syn::Fields::Named(_)), ra, false, va.with.0.clone())? };
                    if ca.untagged {
                        (c, f)
                    } else if let Some(t) = &ca.tag {
                        let tag = (s(t), jstr(s(&n)));
                        match &ca.content {
                            Some(k) => (jobj(if unit { vec![tag] } else { vec![tag, (s(k), c)] }), f),
                            None if unit => (jobj(vec![tag]), f),
                            None => match obj(&c) {
                                Some(m) => {
                                    let mut o = vec![tag];
                                    o.extend(m.iter().cloned());
                                    (jobj(o), f)
                                }
                                None => return top("internally tagged value is no object"),
                            },
                        }
                    } else if unit {
                        (jstr(s(&n)), f)
                    } else {
                        (jobj(vec![(s(&n), c)]), f)
                    }
                }
                _ if a.ty == "@jsontext" => (a.fields[0].1.clone(), false),
                _ => return top(format!("JSON of {}", a.ty)),
            }
        }
        o => return top(format!("JSON of {}", dbg(o))),
    })
}

/// can the serialisation of some value of this type fail?
fn ser_fails(ip: &mut Interp, ty: &str, depth: usize) -> R<bool> {
    if depth > 8 {
        return Ok(true);
    }
    let Ok(syn::Type::Path(p)) = syn::parse_str::<syn::Type>(ty.trim_start_matches('&')) else { return Ok(true) };
    let Some(last) = p.path.segments.last() else { return Ok(true) };
    let args: Vec<String> = match &last.arguments {
        syn::PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| if let syn::GenericArgument::Type(t) = x { Some(quote::quote!(#t).to_string().replace(' ', "")) } else { None }).collect(),
        _ => vec![],
    };
    let n = last.ident.to_string();
    match n.as_str() {
        "usize" | "u64" | "u32" | "u16" | "u8" | "i64" | "i32" | "i16" | "i8" | "isize" | "bool" | "String" | "str" | "char" | "Value" | "f32" | "f64" => return Ok(false),
        "Option" | "Vec" | "Box" | "Arc" | "Rc" | "HashSet" | "BTreeSet" => {
            return match args.first() {
                Some(a) => ser_fails(ip, a, depth + 1),
                None => Ok(true),
            }
        }
        _ => {}
    }
    let path = path_segs(&p.path).join("::");
    let d = ip.prog.borrow().defs.get(&path).cloned();
    let (variants, m) = match d {
        Some(Def::Struct(s, m)) => (vec![(None, s.fields.clone())], m),
        Some(Def::Enum(e, m)) => (e.variants.iter().map(|v| (Some(decode_ident(&v.ident.to_string())), v.fields.clone())).collect(), m),
        _ => return Ok(true),
    };
    let fr = ip.mod_frame(&m);
    for (vn, fs) in variants {
        let fields = fields_of(&fs)
            .iter()
            .enumerate()
            .map(|(i, f)| {
                let t = ip.ty_of(&f.ty, &fr).show();
                (f.ident.as_ref().map(unraw).unwrap_or(i.to_string()), symv(format!("{path}.{i}"), &t))
            })
            .collect();
        let v = V::Adt(Rc::new(AdtV { ty: path.clone(), variant: vn, fields }));
        match encode(ip, &v) {
            Ok((_, false)) => {}
            Ok(_) => return Ok(true),
            Err(Ctl::Top(_)) => return Ok(true),
            Err(e) => return Err(e),
        }
    }
    Ok(false)
}

fn ser_fields(ip: &mut Interp, a: &Rc<AdtV>, fields: &[syn::Field], named: bool, rename_all: Option<String>, transparent: bool, with: Option<String>) -> R<(V, bool)> {
    let one = |ip: &mut Interp, x: &V, w: &Option<String>| -> R<(V, bool)> {
        match w {
            // a text of the value; what it says is not followed
            Some(_) => {
                let x = ip.strip(x.clone())?;
                Ok((symv(format!("text of {}", dbg(&x)), JV), false))
            }
            None => encode(ip, x),
        }
    };
    if fields.is_empty() && !named {
        return Ok((jnull(), false));
    }
    if (fields.len() == 1 && !named) || transparent {
        let f = &fields[0];
        let w = with.or(attrs(&f.attrs).with.0);
        return one(ip, &a.fields[0].1.clone(), &w);
    }
    let (mut o, mut l, mut fail) = (vec![], vec![], false);
    for (i, f) in fields.iter().enumerate() {
        let fa = attrs(&f.attrs);
        let raw = f.ident.as_ref().map(|x| decode_ident(&x.to_string())).unwrap_or(i.to_string());
        if fa.skip.0 {
            continue;
        }
        let x = match a.fields.iter().find(|(k, _)| *k == raw) {
            Some((_, x)) => x.clone(),
            None => return top(format!("field {raw}")),
        };
        if fa.skip_if {
            match ip.as_option(&x) {
                Ok(None) => continue,
                Ok(Some(_)) => {}
                _ => return top("skip_serializing_if"),
            }
        }
        let (y, g) = one(ip, &x, &fa.with.0)?;
        fail |= g;
        if !named {
            l.push(y);
            continue;
        }
        if fa.flatten {
            match obj(&y) {
                Some(m) => o.extend(m.iter().cloned()),
                None => return top("flattened value is no object"),
            }
            continue;
        }
        let id = unraw(f.ident.as_ref().unwrap());
        let n = fa.rename.0.clone().unwrap_or_else(|| match &rename_all {
            Some(r) => rule(r, &id, false),
            None => id,
        });
        o.push((s(n), y));
    }
    Ok(if named { (jobj(o), fail) } else { (jarr(l), fail) })
}

/// methods of `serde_json::Value`
pub fn json_method(ip: &mut Interp, v: &V, name: &str, args: &[V]) -> R<Option<V>> {
    let key = match v {
        V::Sym(x) => x.key.clone(),
        _ => String::new(),
    };
    let sym = matches!(v, V::Sym(_));
    Ok(Some(match name {
        "get" | "pointer" => {
            let k = ip.strip(args[0].clone())?;
            let k = match (name, &k) {
                ("pointer", V::Str(p)) if p.starts_with('/') && !p[1..].contains('/') => s(&p[1..]),
                ("pointer", _) => return top("pointer"),
                _ => k,
            };
            match &k {
                V::Str(k) if !has_sym(k) => {
                    if sym {
                        return Ok(Some(if ip.decide(&format!("{key} has {k}"), &["yes", "no"])? == 0 { some(symv(format!("{key}.{k}"), JV)) } else { none() }));
                    }
                    opt(obj(v).and_then(|m| get(&m, k).cloned()))
                }
                V::Int(i) if !sym => opt(arr(v).and_then(|l| l.get(*i as usize).cloned())),
                _ => return top("Value::get"),
            }
        }
        "as_str" if sym => {
            if ip.decide(&format!("{key} is a string"), &["yes", "no"])? == 0 {
                some(sym_str(format!("{key}")))
            } else {
                none()
            }
        }
        "as_str" => opt(if kind(v) == "String" { Some(inner(v)) } else { None }),
        "as_array" | "as_object" | "as_bool" | "as_u64" | "as_i64" | "as_f64" | "is_string" | "is_array" | "is_object" | "is_null" | "is_number" | "is_boolean" | "as_null" => {
            let want = match &name[3..] {
                "array" => "Array",
                "object" => "Object",
                "bool" | "boolean" => "Bool",
                "string" => "String",
                "null" => "Null",
                _ => "Number",
            };
            let is = if sym { ip.decide(&format!("{key} is {want}"), &["yes", "no"])? == 0 } else { kind(v) == want };
            if name.starts_with("is_") {
                V::Bool(is)
            } else if sym && is {
                some(symv(format!("{key}"), JV))
            } else if is {
                some(inner(v))
            } else {
                none()
            }
        }
        "clone" | "to_owned" | "take" | "as_ref" | "borrow" => v.clone(),
        "to_string" => adt("@jsontext", None, vec![("of", v.clone())]),
        _ => return Ok(None),
    }))
}
