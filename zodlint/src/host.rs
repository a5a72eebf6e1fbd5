//! The environment of an evaluated entry point: opaque component types and argument values.
use crate::interp::*;
use crate::value::*;
use serde_json::Value;
use std::rc::Rc;

pub struct ZHost {
    _job: Value,
}

impl ZHost {
    pub fn new(j: &Value) -> ZHost {
        ZHost { _job: j.clone() }
    }
}

/// opaque types of the witness program: members of module `zq`
pub fn atom_name(ty: &Ty) -> Option<String> {
    match ty {
        Ty::Adt(p, _) => p.strip_prefix("corpus::zq::").map(|x| x.to_string()),
        Ty::Atom(a) => Some(show(a)),
        _ => None,
    }
}

const ZOD_FNS: &[&str] = &["schema", "inline_schema", "type_def", "inline", "docs"];

impl Host for ZHost {
    fn assoc_call(&self, ip: &mut Interp, ty: &Ty, tr: Option<&str>, name: &str, _args: &[V], site: &str) -> R<Option<V>> {
        let zod = tr.map(|t| t.ends_with("ZodType")).unwrap_or(true) && ZOD_FNS.contains(&name);
        if zod && ip.record_calls {
            let caller = ip.stack.last().map(|x| x.0.clone()).unwrap_or_default();
            ip.effect("zt", vec![s(ty.show()), s(name), s(caller)], site);
        }
        if let Some(a) = atom_name(ty) {
            if zod {
                return Ok(Some(match name {
                    "schema" | "inline_schema" => sym_str(format!("{a}.{name}")),
                    "type_def" => symv(format!("{a}.type_def"), "zod_core::TsTypeDef"),
                    "inline" => symv(format!("{a}.inline"), "zod_core::InlinedType"),
                    _ => {
                        if ip.decide(&format!("{a} has docs"), &["no", "yes"])? == 1 {
                            some(sym_str(format!("{a}.docs")))
                        } else {
                            none()
                        }
                    }
                }));
            }
        }
        Ok(None)
    }

    fn call(&self, ip: &mut Interp, path: &str, _targs: &[Ty], args: &[V], site: &str) -> R<Option<V>> {
        // the bodies of the user's RPC methods
        let stream = path.ends_with("zq::user_stream");
        if (stream || path.ends_with("zq::user_method")) && args.len() == 1 {
            if let V::Tuple(t) = ip.strip(args[0].clone())? {
                let mut v = vec![];
                for x in t.iter() {
                    v.push(ip.strip(x.clone())?);
                }
                let who = match &v[0] {
                    V::Sym(x) => x.key.clone(),
                    o => dbg(o),
                };
                let name = ip.display(&v[1])?;
                ip.effect("user", vec![s(&who), s(&name), list(v[2..].to_vec())], site);
                return Ok(Some(if stream { symv(format!("stream of {who}.{name}"), "UserStream") } else { symv(format!("result of {who}.{name}"), "@userres") }));
            }
        }
        Ok(None)
    }

    fn sym_variant(&self, ip: &mut Interp, sym: &SymV, path: &str) -> R<Option<Option<V>>> {
        let last = path.rsplit("::").next().unwrap_or("");
        if sym.ty == "zod_core::TsTypeDef" {
            let labels = ["Type", "Interface"];
            let c = ip.decide(&format!("{} is", sym.key), &labels)?;
            if labels[c] == last {
                return Ok(Some(Some(adt("zod_core::TsTypeDef", Some(last), vec![("0", sym_str(&sym.key))]))));
            }
            return Ok(Some(None));
        }
        if sym.ty == "zod_core::InlinedType" {
            let labels = ["Literal", "Ref"];
            let c = ip.decide(&format!("{} is", sym.key), &labels)?;
            if labels[c] == last {
                return Ok(Some(Some(if last == "Literal" {
                    adt("zod_core::InlinedType", Some(last), vec![("0", sym_str(&sym.key))])
                } else {
                    adt("zod_core::InlinedType", Some(last), vec![("ns_name", sym_str(format!("{}.ns", sym.key))), ("name", sym_str(format!("{}.name", sym.key)))])
                })));
            }
            return Ok(Some(None));
        }
        Ok(None)
    }
}

/// argument of an entry point, described in JSON
pub fn arg(ip: &mut Interp, a: &Value) -> R<V> {
    if let Some(x) = a.as_str() {
        return Ok(s(x));
    }
    if let Some(x) = a.as_i64() {
        return Ok(V::Int(x as i128));
    }
    if let Some(x) = a.as_bool() {
        return Ok(V::Bool(x));
    }
    if let Some(k) = a.get("sym") {
        return Ok(symv(k.as_str().unwrap_or(""), a["ty"].as_str().unwrap_or("")));
    }
    if let Some(k) = a.get("symstr") {
        return Ok(sym_str(k.as_str().unwrap_or("")));
    }
    if let Some(j) = a.get("json") {
        return json(j);
    }
    if let Some(t) = a.get("adt") {
        let mut f = vec![];
        if let Some(o) = a["f"].as_object() {
            for (k, v) in o {
                f.push((k.clone(), arg(ip, v)?));
            }
        }
        return Ok(V::Adt(Rc::new(AdtV { ty: t.as_str().unwrap_or("").into(), variant: a["variant"].as_str().map(|x| x.to_string()), fields: f })));
    }
    if let Some(c) = a.get("cell") {
        let v = arg(ip, c)?;
        return Ok(V::Cell(Rc::new(std::cell::RefCell::new(v))));
    }
    if let Some(c) = a.get("refmut") {
        let v = arg(ip, c)?;
        return Ok(V::Ref(ip.temp(v)));
    }
    if let Some(c) = a.get("map") {
        let mut m = vec![];
        for e in c.as_array().unwrap_or(&vec![]) {
            m.push((arg(ip, &e[0])?, arg(ip, &e[1])?));
        }
        return Ok(V::Map(Rc::new(m), false));
    }
    if let Some(c) = a.get("expr") {
        let e: syn::Expr = syn::parse_str(c.as_str().unwrap_or("")).map_err(|e| Ctl::Top(format!("{e}")))?;
        let fr = Rc::new(ip.mod_frame(a["module"].as_str().unwrap_or("corpus")));
        return ip.eval(&e, &new_env(None), &fr, None);
    }
    top("argument")
}

/// a JSON value with opaque parts: `{"$": "key"}`
fn json(j: &Value) -> R<V> {
    use crate::serde_model as m;
    Ok(match j {
        Value::Null => m::jnull(),
        Value::Bool(b) => m::jbool(*b),
        Value::Number(n) => m::jnum(V::Int(n.as_i64().unwrap_or(0) as i128)),
        Value::String(x) => m::jstr(s(x)),
        Value::Array(l) => {
            let mut o = vec![];
            for x in l {
                o.push(json(x)?);
            }
            m::jarr(o)
        }
        Value::Object(x) => {
            if let Some(k) = x.get("$") {
                return Ok(symv(k.as_str().unwrap_or(""), m::JV));
            }
            let mut o = vec![];
            for (k, v) in x {
                o.push((s(k), json(v)?));
            }
            m::jobj(o)
        }
    })
}
