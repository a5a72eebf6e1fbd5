//! Models of the standard library and of the few other crates the analysed code calls.
//! Everything not modelled is `Top`: the analysis then has no opinion.
use crate::interp::*;
use crate::iter::{self, wrap, It};
use crate::load::*;
use crate::value::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

fn cell(v: V) -> V {
    V::Cell(Rc::new(RefCell::new(v)))
}
fn cell_place(c: &Rc<RefCell<V>>) -> Place {
    Place { cell: c.clone(), proj: vec![] }
}
pub fn ready(v: V) -> V {
    V::Fut(Rc::new(RefCell::new(Some(Thunk {
        body: ThunkBody::Ready(v),
        env: new_env(None),
        frame: Rc::new(Frame { module: String::new(), file: String::new(), fn_name: String::new(), self_ty: None, generics: Default::default(), ret: None, is_async: true }),
    }))))
}
pub fn sub_place(p: &Place, x: Proj) -> V {
    let mut pr = p.proj.clone();
    pr.push(x);
    V::Ref(Place { cell: p.cell.clone(), proj: pr })
}
fn str_of(ip: &mut Interp, v: &V) -> R<Rc<str>> {
    match ip.strip(v.clone())? {
        V::Str(x) => Ok(x),
        V::Char(c) => Ok(Rc::from(c.to_string())),
        V::Cell(c) => {
            let v = c.borrow().clone();
            str_of(ip, &v)
        }
        V::Sym(x) if x.ty == "@default" => Ok(Rc::from("")),
        V::Sym(x) => Ok(Rc::from(mark(&x.key))),
        V::Toks(t) => Ok(Rc::from(toks_text(&t))),
        V::Unit => Ok(Rc::from("")),
        o => top(format!("string expected, got {}", dbg(&o))),
    }
}
fn int_of(ip: &mut Interp, v: &V) -> R<i128> {
    match ip.strip(v.clone())? {
        V::Int(i) => Ok(i),
        V::Cell(c) => {
            let v = c.borrow().clone();
            int_of(ip, &v)
        }
        o => top(format!("integer expected, got {}", dbg(&o))),
    }
}

fn min_max(t: &str, name: &str) -> Option<V> {
    let (lo, hi): (i128, i128) = match t {
        "i8" => (i8::MIN as i128, i8::MAX as i128),
        "i16" => (i16::MIN as i128, i16::MAX as i128),
        "i32" => (i32::MIN as i128, i32::MAX as i128),
        "i64" | "isize" => (i64::MIN as i128, i64::MAX as i128),
        "i128" => (i128::MIN, i128::MAX),
        "u8" => (0, u8::MAX as i128),
        "u16" => (0, u16::MAX as i128),
        "u32" => (0, u32::MAX as i128),
        "u64" | "usize" => (0, u64::MAX as i128),
        "u128" => {
            return match name {
                "MIN" => Some(V::Int(0)),
                "MAX" => Some(s(u128::MAX.to_string())),
                "BITS" => Some(V::Int(128)),
                _ => None,
            }
        }
        "f32" => {
            return match name {
                "MIN" => Some(V::Float(f32::MIN as f64)),
                "MAX" => Some(V::Float(f32::MAX as f64)),
                _ => None,
            }
        }
        "f64" => {
            return match name {
                "MIN" => Some(V::Float(f64::MIN)),
                "MAX" => Some(V::Float(f64::MAX)),
                _ => None,
            }
        }
        _ => return None,
    };
    let bits = match t {
        "i8" | "u8" => 8,
        "i16" | "u16" => 16,
        "i32" | "u32" => 32,
        "i128" => 128,
        _ => 64,
    };
    match name {
        "MIN" => Some(V::Int(lo)),
        "MAX" => Some(V::Int(hi)),
        "BITS" => Some(V::Int(bits)),
        _ => None,
    }
}

/// `core::num::NonZeroU8` and friends
fn nonzero(t: &str, name: &str) -> Option<V> {
    let inner = t.strip_prefix("NonZero")?.to_lowercase();
    let v = min_max(&inner, name)?;
    if name == "MIN" && inner.starts_with('u') {
        return Some(V::Int(1));
    }
    Some(v)
}

pub fn assoc_const(ty: &Ty, name: &str) -> Option<V> {
    let t = ty.last();
    min_max(t, name).or_else(|| nonzero(t, name))
}

pub fn const_path(ip: &mut Interp, name: &str) -> Option<V> {
    let _ = ip;
    let n = norm_std(name);
    let (t, c) = n.rsplit_once("::")?;
    if let Some(v) = min_max(t, c) {
        return Some(v);
    }
    match n.as_str() {
        "marker::PhantomData" => Some(V::Unit),
        "fmt::Error" => Some(adt("std::fmt::Error", None, vec![])),
        "Ordering::SeqCst" | "Ordering::Relaxed" | "Ordering::AcqRel" | "Ordering::Acquire" | "Ordering::Release" => Some(V::Unit),
        "Value::Null" => Some(adt("serde_json::Value", Some("Null"), vec![])),
        _ => None,
    }
}

pub fn call_path(ip: &mut Interp, name: &str, targs: &[Ty], args: Vec<V>, hint: Option<&Ty>, site: &str) -> R<V> {
    if let Some(v) = ip.host.clone().call(ip, name, targs, &args, site)? {
        return Ok(v);
    }
    let n = norm_std(name);
    if let Some(v) = lib(ip, &n, targs, &args, hint, site)? {
        return Ok(v);
    }
    // Trait::method(receiver, ..)
    let (pre, last) = name.rsplit_once("::").unwrap_or(("", name));
    let is_trait = matches!(ip.prog.borrow().defs.get(pre), Some(Def::Trait(_)));
    if is_trait {
        if let Some(a) = args.first() {
            return ip.method_site(a.clone(), last, args[1..].to_vec(), targs, hint, site);
        }
        if let Some(h) = hint {
            let h = h.clone();
            return ip.assoc(&h, Some(pre), last, targs, args, hint, site);
        }
    }
    let std_traits = [
        "Clone", "ToString", "ToOwned", "Into", "TryInto", "AsRef", "AsMut", "Borrow", "Iterator", "IntoIterator", "Option", "Result", "Vec", "String", "str", "HashMap", "BTreeMap", "HashSet",
        "BTreeSet", "Arc", "Rc", "Extend", "Write", "Display", "Debug", "PartialEq", "Eq", "Ord", "PartialOrd", "Deref", "DerefMut", "StreamExt", "Stream", "SinkExt", "Sink", "Future", "FutureExt",
        "Drop", "Hash", "Pin", "Mutex", "RefCell", "VecDeque", "Value", "slice", "Add", "Index", "UnboundedSender", "Sender", "JoinHandle", "AtomicUsize", "AtomicU64", "char", "DoubleEndedIterator", "ExactSizeIterator",
    ];
    let tn = pre.rsplit("::").next().unwrap_or(pre);
    if std_traits.contains(&tn) {
        if let Some(a) = args.first() {
            return ip.method_site(a.clone(), last, args[1..].to_vec(), targs, hint, site);
        }
    }
    // a variant of a foreign enum
    let cap = |x: &str| x.chars().next().map_or(false, |c| c.is_uppercase()) && x.chars().any(|c| c.is_lowercase());
    if last == "Extension" && args.len() == 1 {
        return Ok(adt("axum::Extension", None, vec![("0", args[0].clone())]));
    }
    if cap(last) && cap(tn) && pre.contains("::") {
        return Ok(V::Adt(Rc::new(AdtV { ty: pre.to_string(), variant: Some(last.to_string()), fields: args.into_iter().enumerate().map(|(i, a)| (i.to_string(), a)).collect() })));
    }
    top(format!("call of {name} at {site}"))
}

pub fn assoc_path(ip: &mut Interp, ty: &Ty, name: &str, targs: &[Ty], args: &[V], hint: Option<&Ty>, site: &str) -> R<Option<V>> {
    let full = match ty {
        Ty::Adt(p, _) => format!("{p}::{name}"),
        _ => name.to_string(),
    };
    if let Ty::Adt(..) = ty {
        if let Some(v) = ip.host.clone().call(ip, &full, targs, args, site)? {
            return Ok(Some(v));
        }
    }
    let key = format!("{}::{name}", ty.last());
    let h = if hint.is_none() || matches!(hint, Some(Ty::Infer)) { Some(ty) } else { hint };
    if name == "from" && args.len() == 1 {
        return Ok(Some(convert_into(ip, args[0].clone(), ty)?));
    }
    if name == "from_iter" && args.len() == 1 {
        let it = ip.into_it(args[0].clone())?;
        return Ok(Some(collect(ip, it, Some(ty))?));
    }
    let ta = if targs.is_empty() { ty.args().to_vec() } else { targs.to_vec() };
    lib(ip, &key, &ta, args, h, site)
}

fn de(ip: &mut Interp, n: &str, ty: Option<Ty>, v: V, site: &str) -> R<V> {
    let t = ty.as_ref().map(|t| t.show()).unwrap_or_default();
    let a = dbg(&v);
    ip.effect("deserialize", vec![s(&t), s(&a)], site);
    // the JSON behind a text
    let json = match &v {
        V::Adt(x) if x.ty == "@jsontext" => Some(x.fields[0].1.clone()),
        x if crate::serde_model::is_json(x) => Some(x.clone()),
        _ => None,
    };
    if let (Some(j), Some(t)) = (&json, &ty) {
        return Ok(match crate::serde_model::decode(ip, t, j)? {
            Ok(v) => ok(v),
            Err(e) => err(symv(format!("error: {e}"), "serde_json::Error")),
        });
    }
    let key = format!("{}::<{t}>({a})", n.rsplit("::").next().unwrap());
    Ok(if ip.decide(&format!("{key} succeeds"), &["no", "yes"])? == 1 {
        ok(symv(format!("{key}.ok"), &ty_path(&t)))
    } else {
        err(symv(format!("{key}.err"), "serde_json::Error"))
    })
}

/// library functions by their last two path segments
fn lib(ip: &mut Interp, n: &str, targs: &[Ty], args: &[V], hint: Option<&Ty>, site: &str) -> R<Option<V>> {
    let a0 = args.first().cloned();
    Ok(Some(match n {
        "String::new" | "String::with_capacity" | "String::default" => s(""),
        "Vec::new" | "Vec::with_capacity" | "VecDeque::new" | "VecDeque::with_capacity" | "Vec::default" => list(vec![]),
        "HashMap::new" | "HashMap::with_capacity" | "HashMap::default" | "IndexMap::new" => V::Map(Rc::new(vec![]), false),
        "BTreeMap::new" | "BTreeMap::default" => V::Map(Rc::new(vec![]), true),
        "HashSet::new" | "HashSet::with_capacity" | "HashSet::default" => V::Set(Rc::new(vec![]), false),
        "BTreeSet::new" | "BTreeSet::default" => V::Set(Rc::new(vec![]), true),
        "Box::new" | "Box::pin" | "Pin::new" | "Pin::new_unchecked" | "Cow::Borrowed" | "Cow::Owned" | "mem::ManuallyDrop" | "Box::from" | "Reverse::new" | "convert::identity" | "future::ready"
        | "hint::black_box" | "Wrapping::new" | "Pin::into_inner" | "Pin::get_mut" | "Pin::as_mut" | "pin::pin" | "Box::leak" | "hint::must_use" | "__export::must_use" => {
            if n == "future::ready" {
                ready(a0.unwrap_or(V::Unit))
            } else {
                a0.unwrap_or(V::Unit)
            }
        }
        "boxed::box_assume_init_into_vec_unsafe" | "slice::into_vec" => a0.unwrap_or(V::Unit),
        "intrinsics::write_box_via_move" => args.get(1).cloned().unwrap_or(V::Unit),
        "boxed::box_new" => a0.unwrap_or(V::Unit),
        "Box::new_uninit" => V::Unit,
        "vec::from_elem" => {
            let k = int_of(ip, &args[1])?;
            list(vec![args[0].clone(); k as usize])
        }
        "fmt::format" | "string::format" => {
            let t = ip.display(&a0.unwrap_or(s("")))?;
            s(t)
        }
        "io::_print" | "io::_eprint" => V::Unit,
        "panicking::panic" | "panicking::panic_fmt" | "panicking::panic_str_literal" | "rt::begin_panic" | "panicking::panic_display" | "panicking::unreachable_display" | "option::unwrap_failed"
        | "option::expect_failed" | "panicking::panic_str_2015" | "panicking::panic_explicit" => {
            let m = match &a0 {
                Some(v) => ip.display(v).unwrap_or_default(),
                None => String::new(),
            };
            return Err(Ctl::Panic(format!("panic at {site}: {m}")));
        }
        "Arc::new" | "Rc::new" => match a0 {
            Some(V::Cell(c)) => V::Cell(c),
            Some(V::Sym(x)) => V::Sym(x),
            Some(v) => cell(v),
            None => return top("Arc::new"),
        },
        "Mutex::new" | "RwLock::new" | "RefCell::new" | "Cell::new" | "AtomicUsize::new" | "AtomicU64::new" | "AtomicU32::new" | "AtomicBool::new" | "AtomicI64::new" | "OnceCell::new_with" => {
            cell(a0.unwrap_or(V::Unit))
        }
        "Arc::clone" | "Rc::clone" | "Clone::clone" => {
            let v = a0.unwrap();
            return Ok(Some(ip.method_site(v, "clone", vec![], targs, hint, site)?));
        }
        "Arc::ptr_eq" | "Rc::ptr_eq" => match (ip.strip(args[0].clone())?, ip.strip(args[1].clone())?) {
            (V::Cell(a), V::Cell(b)) => V::Bool(Rc::ptr_eq(&a, &b)),
            (V::Sym(a), V::Sym(b)) => V::Bool(a.key == b.key),
            _ => return top("ptr_eq"),
        },
        "mem::take" => {
            let (old, p) = ip.deref_all(a0.unwrap())?;
            let p = p.ok_or_else(|| Ctl::Top("mem::take".into()))?;
            let def = match &old {
                V::Str(_) => s(""),
                V::List(_) => list(vec![]),
                V::Map(_, b) => V::Map(Rc::new(vec![]), *b),
                V::Set(_, b) => V::Set(Rc::new(vec![]), *b),
                V::Int(_) => V::Int(0),
                V::Bool(_) => V::Bool(false),
                V::Adt(a) if a.ty == "std::option::Option" => none(),
                V::Adt(a) => ip.default_of(&Ty::Adt(a.ty.clone(), vec![]))?,
                _ => return top("mem::take"),
            };
            ip.write(&p, def)?;
            old
        }
        "mem::replace" => {
            let (old, p) = ip.deref_all(a0.unwrap())?;
            let p = p.ok_or_else(|| Ctl::Top("mem::replace".into()))?;
            ip.write(&p, args[1].clone())?;
            old
        }
        "mem::swap" => {
            let (x, p) = ip.deref_all(args[0].clone())?;
            let (y, q) = ip.deref_all(args[1].clone())?;
            match (p, q) {
                (Some(p), Some(q)) => {
                    ip.write(&p, y)?;
                    ip.write(&q, x)?;
                    V::Unit
                }
                _ => return top("mem::swap"),
            }
        }
        "mem::drop" => {
            let v = a0.unwrap();
            ip.drop_value(v, site)?;
            V::Unit
        }
        "mem::forget" => {
            let v = ip.strip(a0.unwrap())?;
            ip.effect("forget", vec![v], site);
            V::Unit
        }
        "any::type_name" => match targs.first() {
            Some(t) => sym_str(format!("type_name({})", t.show())),
            None => return top("type_name"),
        },
        "mem::size_of" => match targs.first().map(|t| t.last().to_string()).as_deref() {
            Some("u8") | Some("i8") => V::Int(1),
            Some("u16") | Some("i16") => V::Int(2),
            Some("u32") | Some("i32") => V::Int(4),
            Some("u64") | Some("i64") | Some("usize") | Some("isize") => V::Int(8),
            Some("u128") | Some("i128") => V::Int(16),
            _ => return top("size_of"),
        },
        "Default::default" => match hint {
            Some(t) => {
                let t = t.clone();
                ip.default_of(&t)?
            }
            None => symv("default", "@default"),
        },
        "From::from" | "Into::into" => match hint {
            Some(t) => {
                let t = t.clone();
                convert_into(ip, a0.unwrap(), &t)?
            }
            None => a0.unwrap(),
        },
        "iter::once" => wrap(It::buf(vec![a0.unwrap()])),
        "iter::empty" => wrap(It::buf(vec![])),
        "iter::repeat" => wrap(It::Repeat(a0.unwrap())),
        "iter::repeat_n" => {
            let k = int_of(ip, &args[1])?;
            wrap(It::buf(vec![args[0].clone(); k as usize]))
        }
        "iter::from_fn" => wrap(It::FromFn(a0.unwrap())),
        "iter::successors" => {
            let f = ip.as_option(&args[0])?;
            wrap(It::Successors(f, args[1].clone()))
        }
        "iter::zip" => {
            let a = ip.into_it(args[0].clone())?;
            let b = ip.into_it(args[1].clone())?;
            wrap(It::Zip(Box::new(a), Box::new(b)))
        }
        "cmp::max" | "cmp::min" => {
            let o = ip.cmp(&args[0], &args[1])?;
            let first = (o == std::cmp::Ordering::Greater) == (n == "cmp::max");
            args[if first { 0 } else { 1 }].clone()
        }
        "char::from_u32" | "char::from_digit" => {
            let k = int_of(ip, &args[0])?;
            let c = if n == "char::from_u32" { char::from_u32(k as u32) } else { char::from_digit(k as u32, int_of(ip, &args[1])? as u32) };
            opt(c.map(V::Char))
        }
        "char::from" => match ip.strip(a0.unwrap())? {
            V::Int(i) => V::Char(char::from_u32(i as u32).unwrap_or('?')),
            v => v,
        },
        "str::from_utf8" | "String::from_utf8" => ok(a0.unwrap()),
        "String::from_iter" => {
            let it = ip.into_it(a0.unwrap())?;
            collect(ip, it, Some(&Ty::Adt("std::string::String".into(), vec![])))?
        }
        "String::from" | "CompactString::from" | "SmolStr::from" | "SmolStr::new" => {
            let v = ip.strip(a0.unwrap())?;
            match v {
                V::Str(_) | V::Sym(_) => v,
                V::Char(c) => s(c.to_string()),
                o => s(ip.display(&o)?),
            }
        }
        "Vec::from" | "VecDeque::from" => {
            let it = ip.into_it(a0.unwrap())?;
            collect(ip, it, None)?
        }
        "HashMap::from" | "BTreeMap::from" | "HashSet::from" | "BTreeSet::from" => {
            let it = ip.into_it(a0.unwrap())?;
            let t = Ty::Adt(n.split("::").next().unwrap().to_string(), vec![]);
            collect(ip, it, Some(&t))?
        }
        "Duration::from_millis" | "Duration::from_secs" => symv("duration", "std::time::Duration"),
        // channels
        "mpsc::unbounded" | "mpsc::unbounded_channel" | "mpsc::channel" => {
            let k = ip.fresh_key("chan");
            let kind = if n.ends_with("mpsc::channel") { "bounded" } else { "unbounded" };
            ip.effect("channel", vec![symv(&k, "chan"), s(kind)], site);
            if ip.closed {
                ip.chans.insert(format!("{k}.rx"), Default::default());
            }
            if let Some(t) = targs.first().filter(|t| !matches!(t, Ty::Infer)) {
                ip.chan_ty.insert(k.clone(), t.show());
            }
            tuple(vec![symv(format!("{k}.tx"), "UnboundedSender"), symv(format!("{k}.rx"), "UnboundedReceiver")])
        }
        "oneshot::channel" => {
            let k = ip.fresh_key("chan");
            ip.effect("channel", vec![symv(&k, "chan")], site);
            tuple(vec![symv(format!("{k}.tx"), "Sender"), symv(format!("{k}.rx"), "OneshotReceiver")])
        }
        "future::select" | "future::join" | "future::try_join" => {
            let sel = n.ends_with("select");
            ip.effect(if sel { "select" } else { "join" }, vec![V::Int(2)], site);
            let mut out = vec![];
            for (i, f) in args.iter().enumerate() {
                let (r, _) = crate::toks::arm(ip, i, site, |ip| ip.await_(f.clone(), site));
                out.push(r?);
            }
            if !sel {
                return Ok(Some(ready(tuple(out))));
            }
            let k = ip.fresh_key(&format!("select at {site}"));
            let c = ip.decide(&k, &["arm 0", "arm 1"])?;
            ready(adt("futures::future::Either", Some(if c == 0 { "Left" } else { "Right" }), vec![("0", tuple(vec![out[c].clone(), symv("rest of select", "")]))]))
        }
        "tokio::spawn" | "task::spawn" | "task::spawn_local" => {
            let id = ip.next_task;
            ip.next_task += 1;
            ip.effect("spawn", vec![V::Int(id as i128)], site);
            if ip.no_spawn > 0 {
                ip.no_spawn -= 1;
            } else if ip.closed {
                ip.deferred.push((id, a0.unwrap(), site.to_string()));
            } else {
                ip.run_task(id, a0.unwrap(), site)?;
            }
            symv(format!("task{id}"), "JoinHandle")
        }
        "serde_json::from_value" | "serde_json::from_str" | "serde_json::from_slice" | "de::from_str" | "value::from_value" => {
            let ty = targs.first().cloned().filter(|t| !matches!(t, Ty::Infer)).or_else(|| match hint {
                Some(Ty::Adt(p, a)) if p.ends_with("Result") => a.first().cloned(),
                _ => None,
            });
            let v = ip.strip(a0.unwrap())?;
            de(ip, n, ty, v, site)?
        }
        "serde_json::to_value" | "serde_json::to_string" | "value::to_value" | "ser::to_string" | "serde_json::to_vec" | "serde_json::to_string_pretty" => {
            let a = ip.strip(a0.unwrap())?;
            ip.effect("serialize", vec![a.clone()], site);
            let text = !n.ends_with("to_value");
            let key = format!("{}({})", n.rsplit("::").next().unwrap(), dbg(&a));
            let (j, fallible) = match crate::serde_model::encode(ip, &a) {
                Ok(x) => x,
                Err(Ctl::Top(_)) => (symv(format!("json of {}", dbg(&a)), crate::serde_model::JV), true),
                Err(e) => return Err(e),
            };
            // serialisation of the protocol's own types cannot fail; of user values it can
            if !fallible || ip.decide(&format!("{key} succeeds"), &["yes", "no"])? == 0 {
                ok(if text { adt("@jsontext", None, vec![("of", j)]) } else { j })
            } else {
                err(symv(format!("{key}.err"), "serde_json::Error"))
            }
        }
        _ if n.ends_with("Error::custom") || n.ends_with("Error::missing_field") || n.ends_with("Error::unknown_variant") || n.ends_with("Error::unknown_field") || n.ends_with("Error::invalid_value") => {
            let m = match &a0 {
                Some(v) => ip.display(v).unwrap_or_default(),
                None => String::new(),
            };
            symv(format!("error: {}", show(&m)), "serde_json::Error")
        }
        "inventory::iter" => match targs.first() {
            Some(t) => {
                let key = t.show();
                let v = ip.inventory.get(&key).cloned();
                match v {
                    Some(v) => wrap(It::buf(v)),
                    None if ip.inventory_known => wrap(It::buf(vec![])),
                    None => wrap(It::Open(format!("inventory of {key}"), String::new(), 0, 3)),
                }
            }
            None => return top("inventory::iter"),
        },
        _ => {
            let _ = site;
            return Ok(None);
        }
    }))
}

fn ty_path(t: &str) -> String {
    t.split('<').next().unwrap_or(t).to_string()
}

pub fn collect(ip: &mut Interp, mut it: It, ty: Option<&Ty>) -> R<V> {
    let last = ty.map(|t| t.last().to_string()).unwrap_or_default();
    match last.as_str() {
        "Result" | "Option" => {
            let inner = ty.and_then(|t| t.args().first().cloned());
            let mut out = vec![];
            while let Some(x) = iter::next(ip, &mut it)? {
                match ip.strip(x)? {
                    V::Adt(a) => match a.variant.as_deref() {
                        Some("Some") | Some("Ok") => out.push(a.fields[0].1.clone()),
                        Some("None") => return Ok(none()),
                        Some("Err") => return Ok(err(a.fields[0].1.clone())),
                        _ => return top("collect"),
                    },
                    o => return top(format!("collect of {}", dbg(&o))),
                }
            }
            let v = collect(ip, It::buf(out), inner.as_ref())?;
            Ok(if last == "Result" { ok(v) } else { some(v) })
        }
        _ => {
            let items = iter::drain(ip, &mut it)?;
            match last.as_str() {
                "String" | "CompactString" => {
                    let mut o = String::new();
                    for x in &items {
                        o.push_str(&ip.display(x)?);
                    }
                    Ok(s(o))
                }
                "HashMap" | "BTreeMap" | "IndexMap" => {
                    let p = ip.temp(V::Map(Rc::new(vec![]), last == "BTreeMap"));
                    for x in items {
                        let x = ip.strip(x)?;
                        match (x.field("0"), x.field("1")) {
                            (Some(k), Some(v)) => {
                                map_insert(ip, &p, k, v)?;
                            }
                            _ => return top("collect into map"),
                        }
                    }
                    ip.read(&p)
                }
                "HashSet" | "BTreeSet" => {
                    let p = ip.temp(V::Set(Rc::new(vec![]), last == "BTreeSet"));
                    for x in items {
                        set_insert(ip, &p, x)?;
                    }
                    ip.read(&p)
                }
                _ => Ok(list(items)),
            }
        }
    }
}

fn map_find(ip: &mut Interp, m: &[(V, V)], k: &V) -> R<Option<usize>> {
    for (i, (x, _)) in m.iter().enumerate() {
        if ip.eq(x, k)? {
            return Ok(Some(i));
        }
    }
    Ok(None)
}

fn map_insert(ip: &mut Interp, p: &Place, k: V, v: V) -> R<Option<V>> {
    let k = ip.strip(k)?;
    let cur = match ip.read(p)? {
        V::Map(m, sorted) => (m, sorted),
        o => return top(format!("insert into {}", dbg(&o))),
    };
    match map_find(ip, &cur.0, &k)? {
        Some(i) => ip.modify(p, |x| {
            if let V::Map(m, _) = x {
                return Ok(Some(std::mem::replace(&mut Rc::make_mut(m)[i].1, v)));
            }
            Ok(None)
        }),
        None => {
            let mut pos = cur.0.len();
            if cur.1 {
                for (i, (x, _)) in cur.0.iter().enumerate() {
                    if ip.cmp(&k, x)? == std::cmp::Ordering::Less {
                        pos = i;
                        break;
                    }
                }
            }
            ip.modify(p, |x| {
                if let V::Map(m, _) = x {
                    Rc::make_mut(m).insert(pos, (k, v));
                }
                Ok(())
            })?;
            Ok(None)
        }
    }
}

fn set_insert(ip: &mut Interp, p: &Place, k: V) -> R<bool> {
    let k = ip.strip(k)?;
    let (l, sorted) = match ip.read(p)? {
        V::Set(m, sorted) => (m, sorted),
        o => return top(format!("insert into {}", dbg(&o))),
    };
    for x in l.iter() {
        if ip.eq(x, &k)? {
            return Ok(false);
        }
    }
    let mut pos = l.len();
    if sorted {
        for (i, x) in l.iter().enumerate() {
            if ip.cmp(&k, x)? == std::cmp::Ordering::Less {
                pos = i;
                break;
            }
        }
    }
    ip.modify(p, |x| {
        if let V::Set(m, _) = x {
            Rc::make_mut(m).insert(pos, k);
        }
        Ok(())
    })?;
    Ok(true)
}

pub fn convert_into(ip: &mut Interp, v: V, ty: &Ty) -> R<V> {
    let t = ty.strip_ref().clone();
    if let Ty::Adt(p, _) = &t {
        // the program's own `impl From<X> for T`
        let vt = {
            let x = ip.strip(v.clone())?;
            ip.type_of(&x)
        };
        if vt.last() != t.last() || matches!(vt, Ty::Infer) {
            let impls = ip.prog.borrow().impls.clone();
            let mut cands = vec![];
            for im in impls.iter() {
                if let Some((tr, ta)) = &im.trait_ {
                    if same_trait(tr, "std::convert::From") && im.fns.contains_key("from") {
                        if let Some(b) = ip.match_impl(im, &t) {
                            cands.push((im.clone(), b, ta.clone()));
                        }
                    }
                }
            }
            let mut chosen = None;
            for (im, b, ta) in &cands {
                let mut bb = b.clone();
                let fr = Frame { module: im.module.clone(), file: im.file.clone(), fn_name: String::new(), self_ty: Some(t.clone()), generics: Rc::new(b.clone()), ret: None, is_async: false };
                let ta: Vec<Ty> = ta
                    .iter()
                    .filter_map(|g| match g {
                        syn::GenericArgument::Type(x) => Some(ip.ty_of(x, &fr)),
                        _ => None,
                    })
                    .collect();
                if ta.len() == 1 && (unify(&ta[0], &vt, &mut bb) || ta[0].last() == vt.last() && !vt.last().is_empty()) {
                    chosen = Some((im.clone(), bb));
                    break;
                }
            }
            if chosen.is_none() && cands.len() == 1 {
                chosen = Some((cands[0].0.clone(), cands[0].1.clone()));
            }
            if let Some((im, b)) = chosen {
                let f = FnRef { name: format!("{p}::from"), decl: Some(im.fns["from"].clone()), self_ty: Some(t.clone()), generics: Rc::new(b), targs: vec![], trait_: im.trait_.as_ref().map(|t| t.0.clone()) };
                return ip.call_fn(&f, vec![v], "from");
            }
        }
        let x = ip.strip(v.clone())?;
        return Ok(match (t.last(), &x) {
            ("String", V::Char(c)) => s(c.to_string()),
            ("String", V::List(_)) => ip.coerce(x, &t)?,
            ("Value", V::Str(_)) | ("Value", V::Int(_)) | ("Value", V::Bool(_)) => adt("@json", None, vec![("of", x)]),
            ("Vec", V::Str(_)) => x,
            ("HashMap", V::List(_)) | ("BTreeMap", V::List(_)) | ("HashSet", V::List(_)) | ("BTreeSet", V::List(_)) => ip.coerce(x, &t)?,
            ("Option", V::Adt(a)) if a.ty == "std::option::Option" => x,
            ("Option", _) => some(x),
            ("Arc", V::Cell(_)) | ("Rc", V::Cell(_)) => x,
            _ => v,
        });
    }
    Ok(v)
}

pub fn index(ip: &mut Interp, b: V, i: V, site: &str) -> R<V> {
    match (&b, &i) {
        (V::Cell(c), _) => {
            let v = c.borrow().clone();
            index(ip, v, i, site)
        }
        (V::List(l), V::Int(n)) => match l.get(*n as usize) {
            Some(v) => Ok(v.clone()),
            None => Err(Ctl::Panic(format!("index out of bounds at {site}"))),
        },
        (V::List(_), V::Range(a, e, _)) if is_bound(*a, *e) => top(format!("slice up to a length that is not known at {site}")),
        (V::List(l), V::Range(a, e, inc)) => {
            let (a, e) = range_bounds(*a, *e, *inc, l.len());
            if a > e || e > l.len() {
                return Err(Ctl::Panic(format!("slice out of bounds at {site}")));
            }
            Ok(list(l[a..e].to_vec()))
        }
        (V::Str(x), V::Range(a, e, inc)) => {
            if has_sym(x) {
                // exact where the cut lies the same number of bytes into every text
                let (a, e) = (a.unwrap_or(0), *e);
                let from = offset_in(x, &V::Int(a));
                let to = match e {
                    Some(e) => offset_in(x, &V::Int(e)),
                    None => Some(x.len()),
                };
                if let (Some(from), Some(to), false) = (from, to, *inc && e.is_some()) {
                    if from <= to {
                        return Ok(s(&x[from..to]));
                    }
                }
                return top(format!("slice of symbolic string at {site}"));
            }
            let (a, e) = range_bounds(*a, *e, *inc, x.len());
            match x.get(a..e) {
                Some(t) => Ok(s(t)),
                None => Err(Ctl::Panic(format!("string slice at {site}"))),
            }
        }
        (V::Map(m, _), k) => match map_find(ip, m, k)? {
            Some(i) => Ok(m[i].1.clone()),
            None => Err(Ctl::Panic(format!("missing key at {site}"))),
        },
        (V::Sym(x), _) => {
            let host = ip.host.clone();
            if let Some(v) = host.sym_method(ip, x, "[]", &[i.clone()], site)? {
                return Ok(v);
            }
            Ok(symv(format!("{}[{}]", x.key, dbg(&i)), ""))
        }
        _ => top(format!("index of {} at {site}", dbg(&b))),
    }
}

fn range_bounds(a: Option<i128>, e: Option<i128>, inc: bool, len: usize) -> (usize, usize) {
    let a = a.unwrap_or(0) as usize;
    let e = match e {
        Some(e) if inc => (e + 1) as usize,
        Some(e) => e as usize,
        None => len,
    };
    (a, e)
}

/// does the character match a `Pattern`?
fn char_pat(ip: &mut Interp, pat: &V, c: char) -> R<bool> {
    match ip.strip(pat.clone())? {
        V::Char(p) => Ok(p == c),
        V::List(l) => {
            for x in l.iter() {
                if matches!(ip.strip(x.clone())?, V::Char(p) if p == c) {
                    return Ok(true);
                }
            }
            Ok(false)
        }
        f @ (V::Closure(_) | V::Fn(_)) => {
            let r = ip.call_value(&f, vec![V::Char(c)])?;
            ip.truth(&r)
        }
        o => top(format!("char pattern {}", dbg(&o))),
    }
}

/// split a string by a pattern; markers are opaque
fn split_pat(ip: &mut Interp, x: &str, pat: &V, max: usize, inclusive: bool) -> R<Vec<String>> {
    let pv = ip.strip(pat.clone())?;
    let mut out = vec![];
    if let V::Str(p) = &pv {
        if p.is_empty() {
            return top("split by empty string");
        }
        if max == usize::MAX {
            return Ok(if inclusive { x.split_inclusive(&**p).map(|t| t.to_string()).collect() } else { x.split(&**p).map(|t| t.to_string()).collect() });
        }
        return Ok(x.splitn(max, &**p).map(|t| t.to_string()).collect());
    }
    let mut cur = String::new();
    let mut in_sym = false;
    for c in x.chars() {
        if c == SO {
            in_sym = true;
        }
        if !in_sym && out.len() + 1 < max && char_pat(ip, &pv, c)? {
            if inclusive {
                cur.push(c);
            }
            out.push(std::mem::take(&mut cur));
        } else {
            cur.push(c);
        }
        if c == SC {
            in_sym = false;
        }
    }
    if !inclusive || !cur.is_empty() {
        out.push(cur);
    }
    Ok(out)
}

fn need(ip: &Interp, place: &Option<Place>, val: &V) -> Place {
    match place {
        Some(p) => p.clone(),
        None => ip.temp(val.clone()),
    }
}

fn uninterp(name: &str, x: &str, args: &[V]) -> V {
    let a = args.iter().map(dbg).collect::<Vec<_>>().join(", ");
    sym_str(format!("{name}({}{}{a})", show(x), if a.is_empty() { "" } else { ", " }))
}

fn str_method(ip: &mut Interp, x: Rc<str>, place: &Option<Place>, name: &str, args: &[V], targs: &[Ty], hint: Option<&Ty>) -> R<Option<V>> {
    let symbolic = has_sym(&x);
    let me = V::Str(x.clone());
    let lits = || -> Vec<String> {
        parts(&x)
            .into_iter()
            .filter_map(|p| match p {
                Part::Lit(l) => Some(l),
                _ => None,
            })
            .collect()
    };
    Ok(Some(match name {
        "as_str" | "as_ref" | "to_string" | "to_owned" | "clone" | "into" | "borrow" | "as_deref" | "deref" | "into_boxed_str" | "into_string" | "as_mut_str" | "into_owned" | "to_vec" | "as_mut" | "by_ref"
        | "cloned" | "copied" | "as_bytes" | "into_bytes" | "as_os_str" | "borrow_mut" | "try_into" => {
            if name == "as_bytes" || name == "into_bytes" {
                if symbolic {
                    return top("bytes of symbolic string");
                }
                return Ok(Some(list(x.bytes().map(|b| V::Int(b as i128)).collect())));
            }
            if (name == "as_mut" || name == "borrow_mut") && place.is_some() {
                return Ok(Some(V::Ref(place.clone().unwrap())));
            }
            if name == "into" {
                if let Some(t) = hint {
                    let t = t.clone();
                    return Ok(Some(convert_into(ip, me, &t)?));
                }
            }
            me
        }
        "push_str" | "push" | "write_str" | "write_char" | "write_fmt" => {
            let t = ip.display(&args[0])?;
            let p = need(ip, place, &me);
            crate::toks::append(ip, V::Ref(p), &t)?;
            if name.starts_with("write") {
                ok(V::Unit)
            } else {
                V::Unit
            }
        }
        "extend" => {
            let mut it = ip.into_it(args[0].clone())?;
            let p = need(ip, place, &me);
            while let Some(v) = iter::next(ip, &mut it)? {
                let t = ip.display(&v)?;
                crate::toks::append(ip, V::Ref(p.clone()), &t)?;
            }
            V::Unit
        }
        "insert" | "insert_str" => {
            let i = int_of(ip, &args[0])? as usize;
            let t = ip.display(&args[1])?;
            if !x.is_char_boundary(i) || (symbolic && i > x.find(SO).unwrap_or(0)) {
                return top("insert into symbolic string");
            }
            let p = need(ip, place, &me);
            ip.write(&p, s(format!("{}{t}{}", &x[..i], &x[i..])))?;
            V::Unit
        }
        "pop" => {
            let p = need(ip, place, &me);
            match x.chars().last() {
                None => none(),
                Some(SC) => return top("pop of symbolic string"),
                Some(c) => {
                    ip.write(&p, s(&x[..x.len() - c.len_utf8()]))?;
                    some(V::Char(c))
                }
            }
        }
        "clear" => {
            let p = need(ip, place, &me);
            ip.write(&p, s(""))?;
            V::Unit
        }
        "truncate" if symbolic => {
            let n = ip.strip(args[0].clone())?;
            match offset_in(&x, &n) {
                Some(k) => {
                    let p = need(ip, place, &me);
                    ip.write(&p, s(&x[..k]))?;
                    V::Unit
                }
                None => return top("truncate of symbolic string"),
            }
        }
        "split_at" | "split_off" if offset_in(&x, &ip.strip(args[0].clone())?).is_some() => {
            let k = offset_in(&x, &ip.strip(args[0].clone())?).unwrap();
            if name == "split_at" {
                return Ok(Some(tuple(vec![s(&x[..k]), s(&x[k..])])));
            }
            let p = need(ip, place, &me);
            ip.write(&p, s(&x[..k]))?;
            s(&x[k..])
        }
        "truncate" => {
            let n = int_of(ip, &args[0])? as usize;
            let p = need(ip, place, &me);
            if n < x.len() {
                ip.write(&p, s(&x[..n]))?;
            }
            V::Unit
        }
        "remove" => {
            let n = int_of(ip, &args[0])? as usize;
            if symbolic {
                return top("remove of symbolic string");
            }
            let c = x[n..].chars().next().unwrap_or('?');
            let p = need(ip, place, &me);
            ip.write(&p, s(format!("{}{}", &x[..n], &x[n + c.len_utf8()..])))?;
            V::Char(c)
        }
        "reserve" | "shrink_to_fit" => V::Unit,
        "len" => {
            len_of_text(&x)
        }
        "is_empty" => {
            // symbols stand for non-empty text
            V::Bool(x.is_empty())
        }
        "chars" | "bytes" | "char_indices" => {
            let mut o: Vec<V> = vec![];
            let mut i = 0usize;
            for p in parts(&x) {
                match p {
                    Part::Lit(l) => {
                        for c in l.chars() {
                            o.push(match name {
                                "chars" => V::Char(c),
                                "bytes" => V::Int(c as i128),
                                _ => tuple(vec![V::Int(i as i128), V::Char(c)]),
                            });
                            i += c.len_utf8();
                        }
                    }
                    Part::Sym(k) => {
                        if name != "chars" {
                            return top("characters of symbolic string");
                        }
                        o.push(symv(format!("char of {k}"), "char"))
                    }
                }
            }
            wrap(It::buf(o))
        }
        "lines" => wrap(It::buf(x.lines().map(s).collect())),
        "split_whitespace" | "split_ascii_whitespace" => wrap(It::buf(x.split_whitespace().map(s).collect())),
        "split" => wrap(It::buf(split_pat(ip, &x, &args[0], usize::MAX, false)?.into_iter().map(s).collect())),
        "split_inclusive" => wrap(It::buf(split_pat(ip, &x, &args[0], usize::MAX, true)?.into_iter().map(s).collect())),
        "split_terminator" => {
            let mut v = split_pat(ip, &x, &args[0], usize::MAX, false)?;
            if v.last().map(|t| t.is_empty()).unwrap_or(false) {
                v.pop();
            }
            wrap(It::buf(v.into_iter().map(s).collect()))
        }
        "rsplit" => {
            let mut v = split_pat(ip, &x, &args[0], usize::MAX, false)?;
            v.reverse();
            wrap(It::buf(v.into_iter().map(s).collect()))
        }
        "splitn" => {
            let n = int_of(ip, &args[0])? as usize;
            wrap(It::buf(split_pat(ip, &x, &args[1], n, false)?.into_iter().map(s).collect()))
        }
        "split_once" => {
            let v = split_pat(ip, &x, &args[0], 2, false)?;
            if v.len() == 2 {
                some(tuple(vec![s(&v[0]), s(&v[1])]))
            } else {
                none()
            }
        }
        "rsplit_once" => {
            let p = str_of(ip, &args[0])?;
            match x.rsplit_once(&*p) {
                Some((a, b)) => some(tuple(vec![s(a), s(b)])),
                None => none(),
            }
        }
        "trim" => s(x.trim()),
        "trim_start" | "trim_left" => s(x.trim_start()),
        "trim_end" | "trim_right" => s(x.trim_end()),
        "trim_matches" | "trim_start_matches" | "trim_end_matches" => {
            let mut t: String = x.to_string();
            let pv = ip.strip(args[0].clone())?;
            if let V::Str(p) = &pv {
                if !p.is_empty() {
                    while name != "trim_end_matches" && t.starts_with(&**p) {
                        t = t[p.len()..].to_string();
                    }
                    while name != "trim_start_matches" && t.ends_with(&**p) {
                        t.truncate(t.len() - p.len());
                    }
                }
            } else {
                while name != "trim_end_matches" {
                    match t.chars().next() {
                        Some(c) if c != SO && char_pat(ip, &pv, c)? => t = t[c.len_utf8()..].to_string(),
                        _ => break,
                    }
                }
                while name != "trim_start_matches" {
                    match t.chars().last() {
                        Some(c) if c != SC && char_pat(ip, &pv, c)? => {
                            t.pop();
                        }
                        _ => break,
                    }
                }
            }
            s(t)
        }
        "starts_with" | "ends_with" | "contains" => {
            let pv = ip.strip(args[0].clone())?;
            if let V::Str(p) = &pv {
                let known = match name {
                    "starts_with" => x.starts_with(&**p),
                    "ends_with" => x.ends_with(&**p),
                    _ => x.contains(&**p),
                };
                if known || (!symbolic && !has_sym(p)) {
                    return Ok(Some(V::Bool(known)));
                }
                let l = lits();
                // decided by the literal edges
                if name == "starts_with" && !x.starts_with(SO) && !has_sym(p) {
                    let f = &l[0];
                    if !p.starts_with(&**f) && !f.starts_with(&**p) {
                        return Ok(Some(V::Bool(false)));
                    }
                }
                if name == "ends_with" && !x.ends_with(SC) && !has_sym(p) {
                    let f = l.last().unwrap();
                    if !p.ends_with(&**f) && !f.ends_with(&**p) {
                        return Ok(Some(V::Bool(false)));
                    }
                }
                let k = format!("{name}({}, {})", show(&x), show(p));
                return Ok(Some(V::Bool(ip.decide(&k, &["no", "yes"])? == 1)));
            }
            if symbolic {
                let k = format!("{name}({}, {})", show(&x), dbg(&pv));
                return Ok(Some(V::Bool(ip.decide(&k, &["no", "yes"])? == 1)));
            }
            let r = match name {
                "starts_with" => match x.chars().next() {
                    Some(c) => char_pat(ip, &pv, c)?,
                    None => false,
                },
                "ends_with" => match x.chars().last() {
                    Some(c) => char_pat(ip, &pv, c)?,
                    None => false,
                },
                _ => {
                    let mut r = false;
                    for c in x.chars() {
                        if char_pat(ip, &pv, c)? {
                            r = true;
                            break;
                        }
                    }
                    r
                }
            };
            V::Bool(r)
        }
        "find" | "rfind" => {
            if symbolic {
                return top("find in symbolic string");
            }
            let pv = ip.strip(args[0].clone())?;
            if let V::Str(p) = &pv {
                let r = if name == "find" { x.find(&**p) } else { x.rfind(&**p) };
                return Ok(Some(opt(r.map(|i| V::Int(i as i128)))));
            }
            let mut r = None;
            for (i, c) in x.char_indices() {
                if char_pat(ip, &pv, c)? {
                    r = Some(i);
                    if name == "find" {
                        break;
                    }
                }
            }
            opt(r.map(|i| V::Int(i as i128)))
        }
        "strip_prefix" | "strip_suffix" => {
            let p = str_of(ip, &args[0])?;
            let r = if name == "strip_prefix" { x.strip_prefix(&*p) } else { x.strip_suffix(&*p) };
            match r {
                Some(t) => some(s(t)),
                None if !symbolic && !has_sym(&p) => none(),
                None => {
                    let k = format!("{name}({}, {})", show(&x), show(&p));
                    if ip.decide(&k, &["no", "yes"])? == 1 {
                        some(uninterp(name, &x, args))
                    } else {
                        none()
                    }
                }
            }
        }
        "replace" | "replacen" => {
            let pv = ip.strip(args[0].clone())?;
            let to = str_of(ip, &args[1])?;
            if symbolic {
                // exact on literal parts, uninterpreted on symbols
                let mut o = String::new();
                for p in parts(&x) {
                    match p {
                        Part::Lit(l) => {
                            let v = split_pat(ip, &l, &pv, usize::MAX, false)?;
                            o.push_str(&v.join(&to));
                        }
                        Part::Sym(k) => o.push_str(&mark(&format!("replace({k}, {}, {})", dbg(&pv), show(&to)))),
                    }
                }
                return Ok(Some(s(o)));
            }
            let max = if name == "replacen" { int_of(ip, &args[2])? as usize + 1 } else { usize::MAX };
            if let V::Str(p) = &pv {
                if p.is_empty() {
                    return Ok(Some(s(x.replace("", &to))));
                }
            }
            s(split_pat(ip, &x, &pv, max, false)?.join(&to))
        }
        "to_lowercase" | "to_uppercase" | "to_ascii_lowercase" | "to_ascii_uppercase" => {
            if symbolic {
                let mut o = String::new();
                for p in parts(&x) {
                    match p {
                        Part::Lit(l) => o.push_str(&if name.contains("lower") { l.to_lowercase() } else { l.to_uppercase() }),
                        Part::Sym(k) => o.push_str(&mark(&format!("{name}({k})"))),
                    }
                }
                s(o)
            } else {
                s(match name {
                    "to_lowercase" => x.to_lowercase(),
                    "to_uppercase" => x.to_uppercase(),
                    "to_ascii_lowercase" => x.to_ascii_lowercase(),
                    _ => x.to_ascii_uppercase(),
                })
            }
        }
        "repeat" => {
            let n = int_of(ip, &args[0])?;
            s(x.repeat(n as usize))
        }
        "eq_ignore_ascii_case" => {
            let p = str_of(ip, &args[0])?;
            if symbolic || has_sym(&p) {
                return top("eq_ignore_ascii_case");
            }
            V::Bool(x.eq_ignore_ascii_case(&p))
        }
        "escape_default" | "escape_debug" => {
            let mut o = String::new();
            for p in parts(&x) {
                match p {
                    Part::Lit(l) => o.push_str(&if name == "escape_default" { l.escape_default().to_string() } else { l.escape_debug().to_string() }),
                    Part::Sym(k) => o.push_str(&mark(&format!("esc({k})"))),
                }
            }
            s(o)
        }
        "parse" => {
            if symbolic {
                return top("parse of symbolic string");
            }
            let t = targs.first().cloned().or_else(|| match hint {
                Some(t) if t.last() == "Result" => t.args().first().cloned(),
                _ => None,
            });
            match t.as_ref().map(|t| t.last()) {
                Some("String") => ok(me),
                Some("f64") | Some("f32") => match x.parse::<f64>() {
                    Ok(f) => ok(V::Float(f)),
                    Err(_) => err(symv("parse error", "")),
                },
                Some("bool") => match x.parse::<bool>() {
                    Ok(f) => ok(V::Bool(f)),
                    Err(_) => err(symv("parse error", "")),
                },
                _ => match x.parse::<i128>() {
                    Ok(f) => ok(V::Int(f)),
                    Err(_) => err(symv("parse error", "")),
                },
            }
        }
        "get" => {
            let r = ip.strip(args[0].clone())?;
            match r {
                V::Range(a, e, inc) if !symbolic && !is_bound(a, e) => {
                    let (a, e) = range_bounds(a, e, inc, x.len());
                    opt(x.get(a..e).map(s))
                }
                _ => return top("str::get"),
            }
        }
        "is_char_boundary" => V::Bool(!symbolic && x.is_char_boundary(int_of(ip, &args[0])? as usize)),
        "is_ascii" => V::Bool(x.is_ascii()),
        "matches" => {
            if symbolic {
                return top("matches on symbolic string");
            }
            let pv = ip.strip(args[0].clone())?;
            let mut o = vec![];
            if let V::Str(p) = &pv {
                o = x.matches(&**p).map(s).collect();
            } else {
                for c in x.chars() {
                    if char_pat(ip, &pv, c)? {
                        o.push(s(c.to_string()));
                    }
                }
            }
            wrap(It::buf(o))
        }
        "join" | "concat" => return Ok(None),
        _ => return Ok(None),
    }))
}

fn char_method(c: char, name: &str, args: &[V], ip: &mut Interp) -> R<Option<V>> {
    Ok(Some(match name {
        "is_alphabetic" => V::Bool(c.is_alphabetic()),
        "is_alphanumeric" => V::Bool(c.is_alphanumeric()),
        "is_numeric" => V::Bool(c.is_numeric()),
        "is_whitespace" => V::Bool(c.is_whitespace()),
        "is_uppercase" => V::Bool(c.is_uppercase()),
        "is_lowercase" => V::Bool(c.is_lowercase()),
        "is_control" => V::Bool(c.is_control()),
        "is_ascii" => V::Bool(c.is_ascii()),
        "is_ascii_digit" => V::Bool(c.is_ascii_digit()),
        "is_ascii_alphabetic" => V::Bool(c.is_ascii_alphabetic()),
        "is_ascii_alphanumeric" => V::Bool(c.is_ascii_alphanumeric()),
        "is_ascii_uppercase" => V::Bool(c.is_ascii_uppercase()),
        "is_ascii_lowercase" => V::Bool(c.is_ascii_lowercase()),
        "is_ascii_whitespace" => V::Bool(c.is_ascii_whitespace()),
        "is_ascii_punctuation" => V::Bool(c.is_ascii_punctuation()),
        "is_ascii_control" => V::Bool(c.is_ascii_control()),
        "is_ascii_graphic" => V::Bool(c.is_ascii_graphic()),
        "is_digit" => V::Bool(c.is_digit(int_of(ip, &args[0])? as u32)),
        "to_digit" => opt(c.to_digit(int_of(ip, &args[0])? as u32).map(|d| V::Int(d as i128))),
        "to_ascii_uppercase" => V::Char(c.to_ascii_uppercase()),
        "to_ascii_lowercase" => V::Char(c.to_ascii_lowercase()),
        "to_uppercase" => wrap(It::buf(c.to_uppercase().map(V::Char).collect())),
        "to_lowercase" => wrap(It::buf(c.to_lowercase().map(V::Char).collect())),
        "len_utf8" => V::Int(c.len_utf8() as i128),
        "eq_ignore_ascii_case" => match ip.strip(args[0].clone())? {
            V::Char(d) => V::Bool(c.eq_ignore_ascii_case(&d)),
            _ => return Ok(None),
        },
        "escape_default" => s(c.escape_default().to_string()),
        "escape_unicode" => s(c.escape_unicode().to_string()),
        "to_string" => s(c.to_string()),
        "clone" | "to_owned" => V::Char(c),
        "into" => V::Char(c),
        _ => return Ok(None),
    }))
}

const ITER_METHODS: &[&str] = &[
    "map", "filter", "filter_map", "flat_map", "flatten", "enumerate", "zip", "chain", "skip", "take", "skip_while", "take_while", "map_while", "step_by", "peekable", "inspect", "scan", "rev", "cloned",
    "copied", "collect", "fold", "try_fold", "for_each", "try_for_each", "any", "all", "find", "find_map", "position", "count", "sum", "product", "last", "nth", "next", "min", "max", "min_by_key", "max_by_key", "by_ref",
    "partition", "unzip", "cycle", "fuse", "reduce", "join", "intersperse", "next_back", "peek", "next_if", "size_hint", "dedup_by", "sorted", "unique", "format", "into_iter", "iter", "cmp_by", "eq_by", "rposition", "min_by", "max_by", "is_sorted", "nth_back", "rfind", "map_ok", "concat", "len", "tuple_windows",
    "all_equal",
];

fn iter_method(ip: &mut Interp, rc: Rc<RefCell<It>>, name: &str, args: &[V], targs: &[Ty], hint: Option<&Ty>) -> R<Option<V>> {
    let src = || Box::new(It::Shared(rc.clone()));
    let f = || args[0].clone();
    Ok(Some(match name {
        "map" => wrap(It::Map(src(), f())),
        "filter" => wrap(It::Filter(src(), f(), true)),
        "filter_map" => wrap(It::FilterMap(src(), f())),
        "flat_map" => wrap(It::FlatMap(src(), Some(f()), None)),
        "flatten" => wrap(It::FlatMap(src(), None, None)),
        "enumerate" => wrap(It::Enumerate(src(), 0)),
        "zip" => {
            let o = ip.into_it(f())?;
            wrap(It::Zip(src(), Box::new(o)))
        }
        "chain" => {
            let o = ip.into_it(f())?;
            wrap(It::Chain(Some(src()), Box::new(o)))
        }
        "skip" => {
            let n = int_of(ip, &args[0])?;
            wrap(It::Skip(src(), n as usize))
        }
        "take" => {
            let n = int_of(ip, &args[0])?;
            wrap(It::Take(src(), n as usize))
        }
        "skip_while" => wrap(It::SkipWhile(src(), f(), false)),
        "take_while" => wrap(It::TakeWhile(src(), f(), false)),
        "map_while" => wrap(It::MapWhile(src(), f())),
        "step_by" => {
            let n = int_of(ip, &args[0])?;
            wrap(It::StepBy(src(), n as usize, true))
        }
        "peekable" => wrap(It::Peek(src(), None)),
        "inspect" => wrap(It::Inspect(src(), f())),
        "scan" => wrap(It::Scan(src(), Rc::new(RefCell::new(f())), args[1].clone())),
        "cloned" | "copied" => {
            let mut it = It::Shared(rc.clone());
            if matches!(&*rc.borrow(), It::Open(..)) {
                return Ok(Some(V::Iter(rc.clone())));
            }
            let mut o = vec![];
            while let Some(v) = iter::next(ip, &mut it)? {
                o.push(ip.strip(v)?);
            }
            wrap(It::buf(o))
        }
        "fuse" | "by_ref" | "into_iter" | "iter" => V::Iter(rc.clone()),
        "rev" | "sorted" => {
            let mut v = iter::drain(ip, &mut It::Shared(rc.clone()))?;
            if name == "rev" {
                v.reverse();
            } else {
                sort(ip, &mut v, None, None)?;
            }
            wrap(It::buf(v))
        }
        "cycle" => {
            let v = iter::drain(ip, &mut It::Shared(rc.clone()))?;
            wrap(It::Cycle(v, 0))
        }
        "collect" => {
            let t = targs.first().filter(|t| !matches!(t, Ty::Infer)).or(hint);
            collect(ip, It::Shared(rc.clone()), t)?
        }
        "try_collect" => collect(ip, It::Shared(rc.clone()), hint)?,
        "fold" | "try_fold" => {
            let mut acc = f();
            let g = args[1].clone();
            while let Some(v) = iter::next_shared(ip, &rc)? {
                acc = ip.call_value(&g, vec![acc, v])?;
                if name == "try_fold" {
                    match &acc {
                        V::Adt(a) => match a.variant.as_deref() {
                            Some("Ok") | Some("Some") => acc = a.fields[0].1.clone(),
                            _ => return Ok(Some(acc)),
                        },
                        _ => return top("try_fold"),
                    }
                }
            }
            if name == "try_fold" {
                match hint.map(|h| h.last()) {
                    Some("Option") => some(acc),
                    _ => ok(acc),
                }
            } else {
                acc
            }
        }
        "reduce" => {
            let mut acc = match iter::next_shared(ip, &rc)? {
                Some(v) => v,
                None => return Ok(Some(none())),
            };
            let g = f();
            while let Some(v) = iter::next_shared(ip, &rc)? {
                acc = ip.call_value(&g, vec![acc, v])?;
            }
            some(acc)
        }
        "for_each" => {
            let g = f();
            while let Some(v) = iter::next_shared(ip, &rc)? {
                ip.call_value(&g, vec![v])?;
            }
            V::Unit
        }
        "try_for_each" => {
            let g = f();
            while let Some(v) = iter::next_shared(ip, &rc)? {
                let r = ip.call_value(&g, vec![v])?;
                let r = ip.strip(r)?;
                match &r {
                    V::Adt(a) if matches!(a.variant.as_deref(), Some("Err") | Some("None")) => return Ok(Some(r)),
                    V::Adt(_) => {}
                    _ => return top("try_for_each"),
                }
            }
            ok(V::Unit)
        }
        "any" | "all" => {
            let g = f();
            while let Some(v) = iter::next_shared(ip, &rc)? {
                let r = ip.call_value(&g, vec![v])?;
                if ip.truth(&r)? == (name == "any") {
                    return Ok(Some(V::Bool(name == "any")));
                }
            }
            V::Bool(name == "all")
        }
        "find" | "rfind" => {
            let g = f();
            let mut found = none();
            while let Some(v) = iter::next_shared(ip, &rc)? {
                let r = ip.call_value(&g, vec![v.clone()])?;
                if ip.truth(&r)? {
                    found = some(v);
                    if name == "find" {
                        break;
                    }
                }
            }
            found
        }
        "find_map" => {
            let g = f();
            while let Some(v) = iter::next_shared(ip, &rc)? {
                let r = ip.call_value(&g, vec![v])?;
                if let Some(x) = ip.as_option(&r)? {
                    return Ok(Some(some(x)));
                }
            }
            none()
        }
        "position" | "rposition" => {
            let g = f();
            let mut i = 0;
            let mut r = none();
            while let Some(v) = iter::next_shared(ip, &rc)? {
                let t = ip.call_value(&g, vec![v])?;
                if ip.truth(&t)? {
                    r = some(V::Int(i));
                    if name == "position" {
                        break;
                    }
                }
                i += 1;
            }
            r
        }
        "count" | "len" => V::Int(iter::drain(ip, &mut It::Shared(rc.clone()))?.len() as i128),
        "sum" | "product" => {
            let mut acc = V::Int(if name == "sum" { 0 } else { 1 });
            while let Some(v) = iter::next_shared(ip, &rc)? {
                let v = ip.strip(v)?;
                acc = ip.arith(if name == "sum" { "+" } else { "*" }, acc, v)?;
            }
            acc
        }
        "last" => opt(iter::drain(ip, &mut It::Shared(rc.clone()))?.pop()),
        "nth" => {
            let n = int_of(ip, &args[0])?;
            for _ in 0..n {
                if iter::next_shared(ip, &rc)?.is_none() {
                    return Ok(Some(none()));
                }
            }
            opt(iter::next_shared(ip, &rc)?)
        }
        "next" => opt(iter::next_shared(ip, &rc)?),
        "next_back" => {
            let mut v = iter::drain(ip, &mut It::Shared(rc.clone()))?;
            let l = v.pop();
            *rc.borrow_mut() = It::Buf(VecDeque::from(v));
            opt(l)
        }
        "peek" => {
            let mut it = std::mem::replace(&mut *rc.borrow_mut(), It::Busy);
            let r = match &mut it {
                It::Peek(i, p) => {
                    if p.is_none() {
                        *p = Some(iter::next(ip, i)?);
                    }
                    p.clone().unwrap()
                }
                _ => return top("peek"),
            };
            *rc.borrow_mut() = it;
            opt(r)
        }
        "next_if" | "next_if_eq" => return top("next_if"),
        "min" | "max" | "min_by_key" | "max_by_key" => {
            let v = iter::drain(ip, &mut It::Shared(rc.clone()))?;
            let mut best: Option<(V, V)> = None;
            for x in v {
                let k = if name.ends_with("key") { ip.call_value(&args[0], vec![x.clone()])? } else { x.clone() };
                let better = match &best {
                    None => true,
                    Some((bk, _)) => {
                        let o = ip.cmp(&k, bk)?;
                        if name.starts_with("min") {
                            o == std::cmp::Ordering::Less
                        } else {
                            o != std::cmp::Ordering::Less
                        }
                    }
                };
                if better {
                    best = Some((k, x));
                }
            }
            opt(best.map(|b| b.1))
        }
        "partition" => {
            let g = f();
            let (mut a, mut b) = (vec![], vec![]);
            while let Some(v) = iter::next_shared(ip, &rc)? {
                let r = ip.call_value(&g, vec![v.clone()])?;
                if ip.truth(&r)? {
                    a.push(v)
                } else {
                    b.push(v)
                }
            }
            tuple(vec![list(a), list(b)])
        }
        "unzip" => {
            let (mut a, mut b) = (vec![], vec![]);
            while let Some(v) = iter::next_shared(ip, &rc)? {
                let v = ip.strip(v)?;
                a.push(v.field("0").unwrap_or(V::Unit));
                b.push(v.field("1").unwrap_or(V::Unit));
            }
            let mut l = list(a);
            let mut r = list(b);
            if let Some(Ty::Tuple(ts)) = hint {
                if ts.len() == 2 {
                    let (t0, t1) = (ts[0].clone(), ts[1].clone());
                    l = ip.coerce(l, &t0)?;
                    r = ip.coerce(r, &t1)?;
                }
            }
            tuple(vec![l, r])
        }
        "join" | "format" | "concat" => {
            let v = iter::drain(ip, &mut It::Shared(rc.clone()))?;
            return Ok(Some(join(ip, &v, args)?));
        }
        "unique" => {
            let p = ip.temp(V::Set(Rc::new(vec![]), false));
            while let Some(v) = iter::next_shared(ip, &rc)? {
                set_insert(ip, &p, v)?;
            }
            match ip.read(&p)? {
                V::Set(l, _) => wrap(It::buf(l.to_vec())),
                _ => return top("unique"),
            }
        }
        "size_hint" => return top("size_hint"),
        "clone" => {
            let v = iter::drain(ip, &mut It::Shared(rc.clone()))?;
            *rc.borrow_mut() = It::Buf(VecDeque::from(v.clone()));
            wrap(It::buf(v))
        }
        "as_str" => {
            let v = iter::drain(ip, &mut It::Shared(rc.clone()))?;
            *rc.borrow_mut() = It::Buf(VecDeque::from(v.clone()));
            let mut o = String::new();
            for x in &v {
                o.push_str(&ip.display(x)?);
            }
            s(o)
        }
        "to_string" => {
            let v = iter::drain(ip, &mut It::Shared(rc.clone()))?;
            let mut o = String::new();
            for x in &v {
                o.push_str(&ip.display(x)?);
            }
            s(o)
        }
        _ => return Ok(None),
    }))
}

fn join(ip: &mut Interp, v: &[V], args: &[V]) -> R<V> {
    let sep = match args.first() {
        Some(a) => str_of(ip, a)?,
        None => Rc::from(""),
    };
    let mut o = String::new();
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push_str(&sep);
        }
        if let V::List(l) = ip.strip(x.clone())? {
            // Vec<Vec<T>>::concat
            let _ = l;
            let mut out = vec![];
            for y in v {
                match ip.strip(y.clone())? {
                    V::List(l) => out.extend(l.iter().cloned()),
                    _ => return top("concat"),
                }
            }
            return Ok(list(out));
        }
        o.push_str(&ip.display(x)?);
    }
    Ok(s(o))
}

fn sort(ip: &mut Interp, v: &mut Vec<V>, key: Option<&V>, cmpf: Option<&V>) -> R<()> {
    let mut keyed = vec![];
    for x in v.iter() {
        let k = match key {
            Some(f) => ip.call_value(f, vec![x.clone()])?,
            None => x.clone(),
        };
        keyed.push((k, x.clone()));
    }
    // insertion sort: comparisons may be decisions
    for i in 1..keyed.len() {
        let mut j = i;
        while j > 0 {
            let o = match cmpf {
                Some(f) => {
                    let r = ip.call_value(f, vec![keyed[j - 1].1.clone(), keyed[j].1.clone()])?;
                    match &r {
                        V::Adt(a) => match a.variant.as_deref() {
                            Some("Greater") => std::cmp::Ordering::Greater,
                            _ => std::cmp::Ordering::Less,
                        },
                        _ => return top("sort_by"),
                    }
                }
                None => {
                    let (a, b) = (keyed[j - 1].0.clone(), keyed[j].0.clone());
                    ip.cmp(&a, &b)?
                }
            };
            if o == std::cmp::Ordering::Greater {
                keyed.swap(j - 1, j);
                j -= 1;
            } else {
                break;
            }
        }
    }
    *v = keyed.into_iter().map(|x| x.1).collect();
    Ok(())
}

fn ordering(o: std::cmp::Ordering) -> V {
    adt("std::cmp::Ordering", Some(match o {
        std::cmp::Ordering::Less => "Less",
        std::cmp::Ordering::Equal => "Equal",
        std::cmp::Ordering::Greater => "Greater",
    }), vec![])
}

fn list_method(ip: &mut Interp, l: Rc<Vec<V>>, place: &Option<Place>, name: &str, args: &[V], targs: &[Ty], hint: Option<&Ty>) -> R<Option<V>> {
    let me = V::List(l.clone());
    let elem = |i: usize| -> V {
        match place {
            Some(p) => sub_place(p, Proj::Idx(i)),
            None => l[i].clone(),
        }
    };
    Ok(Some(match name {
        "len" => V::Int(l.len() as i128),
        "is_empty" => V::Bool(l.is_empty()),
        "iter" | "as_slice" | "as_ref" | "into_boxed_slice" | "into_vec" | "to_vec" | "to_owned" | "clone" | "into" | "as_deref" | "borrow" | "deref" | "as_mut_slice" | "drain" | "into_iter" | "iter_mut" | "as_mut"
        | "borrow_mut" | "copied" | "cloned" => match name {
            "iter" | "into_iter" => wrap(It::buf(l.to_vec())),
            "iter_mut" => wrap(It::buf((0..l.len()).map(elem).collect())),
            "drain" => {
                let p = need(ip, place, &me);
                let (a, e) = match args.first() {
                    Some(r) => match ip.strip(r.clone())? {
                        V::Range(a, e, inc) if !is_bound(a, e) => range_bounds(a, e, inc, l.len()),
                        _ => return top("drain"),
                    },
                    None => (0, l.len()),
                };
                let out = l[a..e].to_vec();
                let mut rest = l[..a].to_vec();
                rest.extend(l[e..].iter().cloned());
                ip.write(&p, list(rest))?;
                wrap(It::buf(out))
            }
            "as_mut" | "as_mut_slice" | "borrow_mut" if place.is_some() => V::Ref(place.clone().unwrap()),
            "into" => match hint {
                Some(t) => {
                    let t = t.clone();
                    convert_into(ip, me, &t)?
                }
                None => me,
            },
            _ => me,
        },
        "push" | "push_back" | "push_front" => {
            let p = need(ip, place, &me);
            let x = args[0].clone();
            ip.modify(&p, |v| {
                if let V::List(l) = v {
                    if name == "push_front" {
                        Rc::make_mut(l).insert(0, x);
                    } else {
                        Rc::make_mut(l).push(x);
                    }
                }
                Ok(())
            })?;
            V::Unit
        }
        "pop" | "pop_back" | "pop_front" => {
            let p = need(ip, place, &me);
            let mut v = l.to_vec();
            let r = if name == "pop_front" {
                if v.is_empty() {
                    None
                } else {
                    Some(v.remove(0))
                }
            } else {
                v.pop()
            };
            ip.write(&p, list(v))?;
            opt(r)
        }
        "extend" | "append" | "extend_from_slice" => {
            let p = need(ip, place, &me);
            let src = ip.strip(args[0].clone())?;
            let mut it = ip.into_it(src)?;
            let more = iter::drain(ip, &mut it)?;
            if name == "append" {
                if let V::Ref(q) = &args[0] {
                    ip.write(q, list(vec![]))?;
                }
            }
            let mut v = l.to_vec();
            v.extend(more);
            ip.write(&p, list(v))?;
            V::Unit
        }
        "insert" => {
            let p = need(ip, place, &me);
            let i = int_of(ip, &args[0])? as usize;
            let mut v = l.to_vec();
            if i > v.len() {
                return Err(Ctl::Panic("insert out of bounds".into()));
            }
            v.insert(i, args[1].clone());
            ip.write(&p, list(v))?;
            V::Unit
        }
        "remove" | "swap_remove" => {
            let p = need(ip, place, &me);
            let i = int_of(ip, &args[0])? as usize;
            let mut v = l.to_vec();
            if i >= v.len() {
                return Err(Ctl::Panic("remove out of bounds".into()));
            }
            let r = if name == "remove" { v.remove(i) } else { v.swap_remove(i) };
            ip.write(&p, list(v))?;
            r
        }
        "truncate" => {
            let p = need(ip, place, &me);
            let i = int_of(ip, &args[0])? as usize;
            let mut v = l.to_vec();
            v.truncate(i);
            ip.write(&p, list(v))?;
            V::Unit
        }
        "clear" => {
            let p = need(ip, place, &me);
            ip.write(&p, list(vec![]))?;
            V::Unit
        }
        "reserve" | "shrink_to_fit" => V::Unit,
        "retain" => {
            let p = need(ip, place, &me);
            let mut o = vec![];
            for x in l.iter() {
                let r = ip.call_value(&args[0], vec![x.clone()])?;
                if ip.truth(&r)? {
                    o.push(x.clone());
                }
            }
            ip.write(&p, list(o))?;
            V::Unit
        }
        "dedup" => {
            let p = need(ip, place, &me);
            let mut o: Vec<V> = vec![];
            for x in l.iter() {
                let same = match o.last() {
                    Some(y) => {
                        let y = y.clone();
                        ip.eq(&y, x)?
                    }
                    None => false,
                };
                if !same {
                    o.push(x.clone());
                }
            }
            ip.write(&p, list(o))?;
            V::Unit
        }
        "dedup_by_key" => {
            let p = need(ip, place, &me);
            let mut o: Vec<(V, V)> = vec![];
            for x in l.iter() {
                let k = ip.call_value(&args[0], vec![x.clone()])?;
                let same = match o.last() {
                    Some(y) => {
                        let y = y.0.clone();
                        ip.eq(&y, &k)?
                    }
                    None => false,
                };
                if !same {
                    o.push((k, x.clone()));
                }
            }
            ip.write(&p, list(o.into_iter().map(|x| x.1).collect()))?;
            V::Unit
        }
        "sort" | "sort_unstable" | "sort_by_key" | "sort_unstable_by_key" | "sort_by_cached_key" | "sort_by" | "sort_unstable_by" => {
            let p = need(ip, place, &me);
            let mut v = l.to_vec();
            if name.ends_with("key") {
                sort(ip, &mut v, Some(&args[0]), None)?;
            } else if name.ends_with("by") {
                sort(ip, &mut v, None, Some(&args[0]))?;
            } else {
                sort(ip, &mut v, None, None)?;
            }
            ip.write(&p, list(v))?;
            V::Unit
        }
        "reverse" => {
            let p = need(ip, place, &me);
            let mut v = l.to_vec();
            v.reverse();
            ip.write(&p, list(v))?;
            V::Unit
        }
        "swap" => {
            let p = need(ip, place, &me);
            let (a, b) = (int_of(ip, &args[0])? as usize, int_of(ip, &args[1])? as usize);
            let mut v = l.to_vec();
            v.swap(a, b);
            ip.write(&p, list(v))?;
            V::Unit
        }
        "first" | "front" => opt(if l.is_empty() { None } else { Some(l[0].clone()) }),
        "last" | "back" => opt(l.last().cloned()),
        "first_mut" | "front_mut" => opt(if l.is_empty() { None } else { Some(elem(0)) }),
        "last_mut" | "back_mut" => opt(if l.is_empty() { None } else { Some(elem(l.len() - 1)) }),
        "get" | "get_mut" => match ip.strip(args[0].clone())? {
            V::Int(i) => opt(if (i as usize) < l.len() { Some(if name == "get" { l[i as usize].clone() } else { elem(i as usize) }) } else { None }),
            V::Range(a, e, inc) if !is_bound(a, e) => {
                let (a, e) = range_bounds(a, e, inc, l.len());
                opt(l.get(a..e).map(|x| list(x.to_vec())))
            }
            o => return top(format!("get({})", dbg(&o))),
        },
        "contains" => {
            for x in l.iter() {
                if ip.eq(x, &args[0])? {
                    return Ok(Some(V::Bool(true)));
                }
            }
            V::Bool(false)
        }
        "join" | "concat" => join(ip, &l, args)?,
        "split_first" => opt(if l.is_empty() { None } else { Some(tuple(vec![l[0].clone(), list(l[1..].to_vec())])) }),
        "split_last" => opt(if l.is_empty() { None } else { Some(tuple(vec![l[l.len() - 1].clone(), list(l[..l.len() - 1].to_vec())])) }),
        "split_at" => {
            let i = int_of(ip, &args[0])? as usize;
            tuple(vec![list(l[..i].to_vec()), list(l[i..].to_vec())])
        }
        "split_off" => {
            let i = int_of(ip, &args[0])? as usize;
            let p = need(ip, place, &me);
            ip.write(&p, list(l[..i].to_vec()))?;
            list(l[i..].to_vec())
        }
        "chunks" | "chunks_exact" => {
            let n = int_of(ip, &args[0])? as usize;
            wrap(It::buf(l.chunks(n.max(1)).map(|c| list(c.to_vec())).collect()))
        }
        "windows" => {
            let n = int_of(ip, &args[0])? as usize;
            wrap(It::buf(l.windows(n.max(1)).map(|c| list(c.to_vec())).collect()))
        }
        "starts_with" => {
            let o = match ip.strip(args[0].clone())? {
                V::List(o) => o,
                _ => return top("starts_with"),
            };
            if o.len() > l.len() {
                return Ok(Some(V::Bool(false)));
            }
            for (a, b) in l.iter().zip(o.iter()) {
                if !ip.eq(a, b)? {
                    return Ok(Some(V::Bool(false)));
                }
            }
            V::Bool(true)
        }
        // a lazily typed collection used as a map or a set
        "keys" | "values" => {
            let i = if name == "keys" { "0" } else { "1" };
            let mut o = vec![];
            for x in l.iter() {
                o.push(ip.strip(x.clone())?.field(i).ok_or_else(|| Ctl::Top("keys".into()))?);
            }
            wrap(It::buf(o))
        }
        _ if ITER_METHODS.contains(&name) => {
            let it = wrap(It::buf(l.to_vec()));
            if let V::Iter(rc) = it {
                return iter_method(ip, rc, name, args, targs, hint);
            }
            return Ok(None);
        }
        _ => return Ok(None),
    }))
}

fn map_method(ip: &mut Interp, m: Rc<Vec<(V, V)>>, sorted: bool, place: &Option<Place>, name: &str, args: &[V], _targs: &[Ty], hint: Option<&Ty>, site: &str) -> R<Option<V>> {
    let me = V::Map(m.clone(), sorted);
    let val_ref = |i: usize| -> V {
        match place {
            Some(p) => sub_place(p, Proj::MapVal(i)),
            None => m[i].1.clone(),
        }
    };
    Ok(Some(match name {
        "len" => V::Int(m.len() as i128),
        "is_empty" => V::Bool(m.is_empty()),
        "insert" => {
            let p = need(ip, place, &me);
            let old = map_insert(ip, &p, args[0].clone(), args[1].clone())?;
            ip.effect("map_insert", vec![args[0].clone(), args[1].clone(), opt(old.clone())], site);
            opt(old)
        }
        "remove" | "remove_entry" => {
            let p = need(ip, place, &me);
            match map_find(ip, &m, &args[0])? {
                Some(i) => {
                    let mut v = m.to_vec();
                    let (k, x) = v.remove(i);
                    ip.write(&p, V::Map(Rc::new(v), sorted))?;
                    ip.effect("map_remove", vec![args[0].clone()], site);
                    some(if name == "remove" { x } else { tuple(vec![k, x]) })
                }
                None => none(),
            }
        }
        "get" => match map_find(ip, &m, &args[0])? {
            Some(i) => some(m[i].1.clone()),
            None => none(),
        },
        "get_mut" => match map_find(ip, &m, &args[0])? {
            Some(i) => some(val_ref(i)),
            None => none(),
        },
        "get_key_value" => match map_find(ip, &m, &args[0])? {
            Some(i) => some(tuple(vec![m[i].0.clone(), m[i].1.clone()])),
            None => none(),
        },
        "contains_key" => V::Bool(map_find(ip, &m, &args[0])?.is_some()),
        "keys" | "into_keys" => wrap(It::buf(m.iter().map(|x| x.0.clone()).collect())),
        "values" | "into_values" => wrap(It::buf(m.iter().map(|x| x.1.clone()).collect())),
        "values_mut" => wrap(It::buf((0..m.len()).map(val_ref).collect())),
        "iter" | "into_iter" => wrap(It::buf(m.iter().map(|(k, v)| tuple(vec![k.clone(), v.clone()])).collect())),
        "iter_mut" => wrap(It::buf((0..m.len()).map(|i| tuple(vec![m[i].0.clone(), val_ref(i)])).collect())),
        "drain" => {
            let p = need(ip, place, &me);
            ip.write(&p, V::Map(Rc::new(vec![]), sorted))?;
            wrap(It::buf(m.iter().map(|(k, v)| tuple(vec![k.clone(), v.clone()])).collect()))
        }
        "clear" => {
            let p = need(ip, place, &me);
            ip.write(&p, V::Map(Rc::new(vec![]), sorted))?;
            for (_, v) in m.iter() {
                ip.drop_value(v.clone(), site)?;
            }
            V::Unit
        }
        "retain" => {
            let p = need(ip, place, &me);
            let mut o = vec![];
            for (k, v) in m.iter() {
                let r = ip.call_value(&args[0], vec![k.clone(), v.clone()])?;
                if ip.truth(&r)? {
                    o.push((k.clone(), v.clone()));
                } else {
                    ip.drop_value(v.clone(), site)?;
                }
            }
            ip.write(&p, V::Map(Rc::new(o), sorted))?;
            V::Unit
        }
        "entry" => {
            let p = need(ip, place, &me);
            let k = ip.strip(args[0].clone())?;
            let i = map_find(ip, &m, &k)?;
            let inner = adt("@Entry", None, vec![("map", V::Ref(p)), ("key", k)]);
            adt("std::collections::hash_map::Entry", Some(if i.is_some() { "Occupied" } else { "Vacant" }), vec![("0", inner)])
        }
        "extend" => {
            let p = need(ip, place, &me);
            let mut it = ip.into_it(args[0].clone())?;
            while let Some(x) = iter::next(ip, &mut it)? {
                let x = ip.strip(x)?;
                match (x.field("0"), x.field("1")) {
                    (Some(k), Some(v)) => {
                        map_insert(ip, &p, k, v)?;
                    }
                    _ => return top("extend"),
                }
            }
            V::Unit
        }
        "clone" | "to_owned" | "as_ref" | "borrow" => me,
        "into" => match hint {
            Some(t) => {
                let t = t.clone();
                convert_into(ip, me, &t)?
            }
            None => me,
        },
        "reserve" | "shrink_to_fit" => V::Unit,
        _ => return Ok(None),
    }))
}

fn entry_method(ip: &mut Interp, e: &Rc<AdtV>, name: &str, args: &[V], site: &str) -> R<Option<V>> {
    let inner = if e.ty == "@Entry" { V::Adt(e.clone()) } else { e.fields[0].1.clone() };
    let p = match inner.field("map") {
        Some(V::Ref(p)) => p,
        _ => return top("entry"),
    };
    let k = inner.field("key").unwrap();
    let m = match ip.read(&p)? {
        V::Map(m, _) => m,
        _ => return top("entry of non-map"),
    };
    let at = map_find(ip, &m, &k)?;
    let locate = |ip: &mut Interp| -> R<V> {
        let m = match ip.read(&p)? {
            V::Map(m, _) => m,
            _ => return top("entry"),
        };
        match map_find(ip, &m, &k)? {
            Some(i) => Ok(sub_place(&p, Proj::MapVal(i))),
            None => top("entry"),
        }
    };
    Ok(Some(match name {
        "or_insert" | "or_insert_with" | "or_default" | "or_insert_with_key" => {
            if at.is_none() {
                let v = match name {
                    "or_insert" => args[0].clone(),
                    "or_default" => symv("default", "@default"),
                    "or_insert_with_key" => ip.call_value(&args[0], vec![k.clone()])?,
                    _ => ip.call_value(&args[0], vec![])?,
                };
                map_insert(ip, &p, k.clone(), v)?;
            }
            locate(ip)?
        }
        "and_modify" => {
            if at.is_some() {
                let r = locate(ip)?;
                ip.call_value(&args[0], vec![r])?;
            }
            V::Adt(e.clone())
        }
        "insert" | "insert_entry" => {
            let old = map_insert(ip, &p, k.clone(), args[0].clone())?;
            ip.effect("map_insert", vec![k.clone(), args[0].clone(), opt(old.clone())], site);
            match old {
                Some(o) => o,
                None => locate(ip)?,
            }
        }
        "get" => {
            let r = locate(ip)?;
            ip.strip(r)?
        }
        "get_mut" | "into_mut" => locate(ip)?,
        "key" => k,
        "remove" => {
            let (v, sorted) = match ip.read(&p)? {
                V::Map(m, so) => (m.to_vec(), so),
                _ => return top("entry"),
            };
            let mut v = v;
            match at {
                Some(i) => {
                    let (_, x) = v.remove(i);
                    ip.write(&p, V::Map(Rc::new(v), sorted))?;
                    ip.effect("map_remove", vec![k], site);
                    x
                }
                None => return top("entry remove"),
            }
        }
        _ => return Ok(None),
    }))
}

fn opt_method(ip: &mut Interp, a: &Rc<AdtV>, place: &Option<Place>, name: &str, args: &[V], targs: &[Ty], hint: Option<&Ty>, site: &str) -> R<Option<V>> {
    let is_opt = a.ty.ends_with("Option");
    let var = a.variant.clone().unwrap_or_default();
    let good = var == "Some" || var == "Ok";
    let inner = a.fields.first().map(|x| x.1.clone());
    let me = V::Adt(a.clone());
    let inner_ref = || -> V {
        match place {
            Some(p) => sub_place(p, Proj::Field("0".into())),
            None => inner.clone().unwrap_or(V::Unit),
        }
    };
    let call = |ip: &mut Interp, f: &V, x: Vec<V>| -> R<V> { ip.call_value(f, x) };
    Ok(Some(match name {
        "is_some" | "is_ok" => V::Bool(good),
        "is_none" | "is_err" => V::Bool(!good),
        "is_some_and" | "is_ok_and" => {
            if good {
                let r = call(ip, &args[0], vec![inner.unwrap()])?;
                V::Bool(ip.truth(&r)?)
            } else {
                V::Bool(false)
            }
        }
        "is_none_or" => {
            if good {
                let r = call(ip, &args[0], vec![inner.unwrap()])?;
                V::Bool(ip.truth(&r)?)
            } else {
                V::Bool(true)
            }
        }
        "unwrap" | "expect" => {
            if good {
                inner.unwrap()
            } else {
                return Err(Ctl::Panic(format!("{name} on {} at {site}", dbg(&me))));
            }
        }
        "unwrap_err" | "expect_err" => {
            if !good {
                inner.unwrap()
            } else {
                return Err(Ctl::Panic(format!("{name} on {} at {site}", dbg(&me))));
            }
        }
        "unwrap_unchecked" => inner.unwrap_or(V::Unit),
        "unwrap_or" => {
            if good {
                inner.unwrap()
            } else {
                args[0].clone()
            }
        }
        "unwrap_or_else" => {
            if good {
                inner.unwrap()
            } else if is_opt {
                call(ip, &args[0], vec![])?
            } else {
                call(ip, &args[0], vec![inner.unwrap()])?
            }
        }
        "unwrap_or_default" => {
            if good {
                inner.unwrap()
            } else {
                match hint {
                    Some(t) if !matches!(t, Ty::Infer) => {
                        let t = t.clone();
                        ip.default_of(&t)?
                    }
                    _ => symv("default", "@default"),
                }
            }
        }
        "map" => {
            if good {
                let r = call(ip, &args[0], vec![inner.unwrap()])?;
                if is_opt {
                    some(r)
                } else {
                    ok(r)
                }
            } else {
                me
            }
        }
        "map_err" => {
            if good {
                me
            } else {
                err(call(ip, &args[0], vec![inner.unwrap()])?)
            }
        }
        "inspect" => {
            if good {
                call(ip, &args[0], vec![inner.unwrap()])?;
            }
            me
        }
        "inspect_err" => {
            if !good {
                call(ip, &args[0], vec![inner.unwrap()])?;
            }
            me
        }
        "map_or" => {
            if good {
                call(ip, &args[1], vec![inner.unwrap()])?
            } else {
                args[0].clone()
            }
        }
        "map_or_else" => {
            if good {
                call(ip, &args[1], vec![inner.unwrap()])?
            } else if is_opt {
                call(ip, &args[0], vec![])?
            } else {
                call(ip, &args[0], vec![inner.unwrap()])?
            }
        }
        "and_then" => {
            if good {
                call(ip, &args[0], vec![inner.unwrap()])?
            } else {
                me
            }
        }
        "and" => {
            if good {
                args[0].clone()
            } else {
                me
            }
        }
        "or" => {
            if good {
                me
            } else {
                args[0].clone()
            }
        }
        "or_else" => {
            if good {
                me
            } else if is_opt {
                call(ip, &args[0], vec![])?
            } else {
                call(ip, &args[0], vec![inner.unwrap()])?
            }
        }
        "xor" => {
            let o = ip.as_option(&args[0])?;
            match (good, o) {
                (true, None) => me,
                (false, Some(x)) => some(x),
                _ => none(),
            }
        }
        "filter" => {
            if good {
                let r = call(ip, &args[0], vec![inner.clone().unwrap()])?;
                if ip.truth(&r)? {
                    me
                } else {
                    none()
                }
            } else {
                me
            }
        }
        "ok" => {
            if good {
                some(inner.unwrap())
            } else {
                none()
            }
        }
        "err" => {
            if good {
                none()
            } else {
                some(inner.unwrap())
            }
        }
        "ok_or" => {
            if good {
                ok(inner.unwrap())
            } else {
                err(args[0].clone())
            }
        }
        "ok_or_else" => {
            if good {
                ok(inner.unwrap())
            } else {
                err(call(ip, &args[0], vec![])?)
            }
        }
        "flatten" => {
            if good {
                inner.unwrap()
            } else {
                me
            }
        }
        "transpose" => {
            if is_opt {
                match inner {
                    None => ok(none()),
                    Some(V::Adt(r)) if r.variant.as_deref() == Some("Ok") => ok(some(r.fields[0].1.clone())),
                    Some(V::Adt(r)) if r.variant.as_deref() == Some("Err") => err(r.fields[0].1.clone()),
                    _ => return top("transpose"),
                }
            } else {
                return top("transpose");
            }
        }
        "as_ref" | "as_deref" | "cloned" | "copied" | "clone" | "to_owned" | "by_ref" => {
            if name == "cloned" || name == "copied" {
                match inner {
                    Some(v) => {
                        let v = ip.strip(v)?;
                        if is_opt {
                            some(v)
                        } else if good {
                            ok(v)
                        } else {
                            me
                        }
                    }
                    None => me,
                }
            } else {
                me
            }
        }
        "as_mut" | "as_deref_mut" | "as_pin_mut" => {
            if good {
                if is_opt {
                    some(inner_ref())
                } else {
                    ok(inner_ref())
                }
            } else {
                me
            }
        }
        "take" => {
            let p = need(ip, place, &me);
            ip.write(&p, none())?;
            me
        }
        "replace" => {
            let p = need(ip, place, &me);
            ip.write(&p, some(args[0].clone()))?;
            me
        }
        "insert" => {
            let p = need(ip, place, &me);
            ip.write(&p, some(args[0].clone()))?;
            sub_place(&p, Proj::Field("0".into()))
        }
        "get_or_insert_with" | "get_or_insert" => {
            let p = need(ip, place, &me);
            if !good {
                let v = if name == "get_or_insert" { args[0].clone() } else { call(ip, &args[0], vec![])? };
                ip.write(&p, some(v))?;
            }
            sub_place(&p, Proj::Field("0".into()))
        }
        "iter" | "into_iter" => wrap(It::buf(if good { vec![inner.unwrap()] } else { vec![] })),
        "iter_mut" => wrap(It::buf(if good { vec![inner_ref()] } else { vec![] })),
        "zip" => {
            let o = ip.as_option(&args[0])?;
            match (good, o) {
                (true, Some(y)) => some(tuple(vec![inner.unwrap(), y])),
                _ => none(),
            }
        }
        "unzip" => match inner {
            Some(t) => tuple(vec![some(t.field("0").unwrap_or(V::Unit)), some(t.field("1").unwrap_or(V::Unit))]),
            None => tuple(vec![none(), none()]),
        },
        "into" => match hint {
            Some(t) => {
                let t = t.clone();
                convert_into(ip, me, &t)?
            }
            None => me,
        },
        _ => {
            let _ = targs;
            return Ok(None);
        }
    }))
}

fn cell_method(ip: &mut Interp, c: &Rc<RefCell<V>>, name: &str, args: &[V], targs: &[Ty], hint: Option<&Ty>, site: &str) -> R<V> {
    let p = cell_place(c);
    let inner = c.try_borrow().map_err(|_| Ctl::Top("cell busy".into()))?.clone();
    let nested = matches!(inner, V::Cell(_));
    if nested && name != "clone" {
        if let V::Cell(d) = &inner {
            return cell_method(ip, d, name, args, targs, hint, site);
        }
    }
    let lib_user = {
        let ty = ip.type_of(&inner);
        !matches!(ty, Ty::Infer) && ip.find_assoc(&ty, name, None)?.is_some()
    };
    if lib_user {
        return ip.method_site(V::Ref(p), name, args.to_vec(), targs, hint, site);
    }
    Ok(match name {
        "clone" => V::Cell(c.clone()),
        "lock" | "write" | "read" | "try_lock" | "try_borrow_mut" | "try_borrow" => {
            ip.effect("lock", vec![V::Cell(c.clone())], site);
            // std: LockResult (poisoning is not modelled); tokio/futures: a future
            adt("@Guard", None, vec![("0", V::Ref(p.clone())), ("@future", ready(V::Ref(p)))])
        }
        "borrow" | "borrow_mut" | "get_mut" | "as_mut" | "as_ref" | "make_mut" | "deref" | "deref_mut" => V::Ref(p),
        "into_inner" | "get" => inner,
        "load" => inner,
        "store" | "set" => {
            *c.borrow_mut() = args[0].clone();
            V::Unit
        }
        "replace" | "swap" => {
            *c.borrow_mut() = args[0].clone();
            inner
        }
        "take" if matches!(&inner, V::Adt(a) if a.ty == "std::option::Option") => {
            *c.borrow_mut() = none();
            inner
        }
        "fetch_add" | "fetch_sub" => {
            let n = ip.arith(if name == "fetch_add" { "+" } else { "-" }, inner.clone(), args[0].clone())?;
            *c.borrow_mut() = n;
            inner
        }
        "fetch_update" | "compare_exchange" => return top(name),
        "as_ptr" | "strong_count" => return top(name),
        _ => ip.method_site(V::Ref(p), name, args.to_vec(), targs, hint, site)?,
    })
}

/// symbols of the environment: channels, task handles, opaque values
fn sym_model(ip: &mut Interp, x: &Rc<SymV>, place: &Option<Place>, name: &str, args: &[V], targs: &[Ty], hint: Option<&Ty>, site: &str) -> R<V> {
    let me = V::Sym(x.clone());
    let ty = x.ty.rsplit("::").next().unwrap_or("").to_string();
    // lazily typed Default::default()
    if x.ty == "@default" {
        let t = match name {
            "push_str" | "write_str" | "write_fmt" => Some("String"),
            "push" | "extend" => match args.first() {
                Some(V::Char(_)) => Some("String"),
                _ => Some("Vec"),
            },
            "insert" if args.len() == 2 => Some("HashMap"),
            "insert" => Some("HashSet"),
            "entry" | "contains_key" | "remove" | "get_mut" | "values" | "keys" => Some("HashMap"),
            "contains" => Some("HashSet"),
            "lock" | "borrow_mut" => None,
            "iter" | "is_empty" | "len" | "into_iter" => Some("Vec"),
            "clone" | "into" => return Ok(me),
            _ => None,
        };
        if let Some(t) = t {
            let v = ip.default_of(&Ty::Adt(t.into(), vec![]))?;
            let v = if t == "String" { s("") } else { v };
            let p = match place {
                Some(p) => {
                    ip.write(p, v)?;
                    p.clone()
                }
                None => ip.temp(v),
            };
            return ip.method_site(V::Ref(p), name, args.to_vec(), targs, hint, site);
        }
    }
    Ok(match (ty.as_str(), name) {
        ("UnboundedSender" | "Sender" | "SplitSink" | "WebSocket", "unbounded_send" | "send" | "try_send" | "start_send" | "feed") => {
            ip.effect("send", vec![me.clone(), args[0].clone()], site);
            let k = ip.fresh_key(&format!("send on {}", x.key));
            let queue = x.key.strip_suffix(".tx").map(|c| format!("{c}.rx")).filter(|c| ip.closed && ip.chans.contains_key(c));
            let lost = ip.closed && ip.gone.contains(&x.key);
            let r = if !lost && ip.decide(&k, &["ok", "receiver gone"])? == 0 {
                if let Some(q) = queue {
                    ip.chans.get_mut(&q).unwrap().push_back(args[0].clone());
                }
                ok(V::Unit)
            } else {
                ip.gone.insert(x.key.clone());
                err(symv(format!("{k}.err"), "SendError"))
            };
            if name == "send" || name == "feed" {
                adt("@SendResult", None, vec![("0", r.clone()), ("@future", ready(r))])
            } else {
                r
            }
        }
        ("UnboundedSender" | "Sender", "is_closed") => {
            let k = ip.fresh_key(&format!("{}.is_closed", x.key));
            V::Bool(ip.decide(&k, &["no", "yes"])? == 1)
        }
        ("UnboundedSender" | "Sender" | "UnboundedReceiver", "close_channel" | "disconnect" | "close") => {
            ip.effect("close_channel", vec![me], site);
            V::Unit
        }
        ("JoinHandle" | "AbortHandle", "abort") => {
            ip.effect("abort", vec![me], site);
            V::Unit
        }
        ("WebSocketUpgrade", "on_upgrade") => {
            ip.effect("upgrade", vec![me], site);
            let f = ip.call_value(&args[0], vec![symv(format!("{}.socket", x.key), "WebSocket")])?;
            ip.await_(f, site)?;
            symv("upgraded", "")
        }
        ("WebSocketUpgrade", _) => me,
        ("WebSocket", "split") => tuple(vec![symv(format!("{}.tx", x.key), "SplitSink"), symv(format!("{}.rx", x.key), "SplitStream")]),
        ("JoinHandle", "abort_handle") => symv(&x.key, "AbortHandle"),
        ("JoinHandle", "is_finished") => {
            let k = ip.fresh_key(&format!("{}.is_finished", x.key));
            V::Bool(ip.decide(&k, &["no", "yes"])? == 1)
        }
        ("UnboundedReceiver" | "UserStream" | "SplitStream" | "Receiver" | "WebSocket", "poll_next" | "poll_next_unpin" | "poll_recv") => {
            let f = sym_model(ip, x, place, "next", &[], &[], None, site)?;
            let v = ip.await_(f, site)?;
            adt("std::task::Poll", Some("Ready"), vec![("0", v)])
        }
        ("UnboundedReceiver" | "UserStream" | "SplitStream" | "Receiver" | "WebSocket", "next" | "recv" | "try_next") => {
            let k = format!("{}", x.key);
            if ip.closed && ip.chans.contains_key(&k) {
                let v = ip.chans.get_mut(&k).unwrap().pop_front();
                if ip.task != 0 {
                    let more: Vec<V> = ip.consts.values().cloned().collect();
                    let held = crate::interp::reachable_cells(&more);
                    ip.effect("held", vec![me.clone(), list(held)], site);
                }
                ip.effect(if v.is_some() { "recv" } else { "recv_end" }, vec![me], site);
                return Ok(ready(match v {
                    Some(v) => some(v),
                    None => none(),
                }));
            }
            ip.effect("recv", vec![me], site);
            let cnt = ip.effects.iter().filter(|e| e.kind == "recv" && matches!(&e.args[0], V::Sym(y) if y.key == x.key)).count();
            let r = if cnt > ip.items {
                none()
            } else if ip.decide(&format!("recv#{cnt} on {k}"), &["none", "some"])? == 1 {
                {
                let t = k.rsplit_once('.').and_then(|(c, _)| ip.chan_ty.get(c)).cloned().unwrap_or_default();
                some(symv(format!("{k}.item{cnt}"), &t))
            }
            } else {
                none()
            };
            ready(r)
        }
        (_, "clone" | "as_ref" | "as_mut" | "to_owned" | "borrow" | "borrow_mut" | "as_str" | "deref" | "deref_mut" | "by_ref" | "boxed" | "fuse" | "as_deref" | "iter" | "into_inner") => match (name, place) {
            ("as_mut" | "borrow_mut" | "by_ref", Some(p)) => V::Ref(p.clone()),
            _ => me,
        },
        (_, "to_string") => {
            let t = ip.display(&me)?;
            s(t)
        }
        (_, "into") => match hint {
            Some(t) => {
                let t = t.clone();
                convert_into(ip, me, &t)?
            }
            None => me,
        },
        (_, "is_some" | "is_ok") => V::Bool(ip.as_option(&me)?.is_some()),
        (_, "is_none" | "is_err") => V::Bool(ip.as_option(&me)?.is_none()),
        (_, "len") => symv(format!("{}.len()", x.key), ""),
        (_, "is_empty") => V::Bool(ip.decide(&format!("{}.is_empty()", x.key), &["no", "yes"])? == 1),
        (_, "eq" | "ne") => {
            let e = ip.eq(&me, &args[0])?;
            V::Bool(e == (name == "eq"))
        }
        _ => {
            // a Result/Option of the environment: fix its variant, then use the ordinary model
            if ["unwrap", "expect", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "ok", "err", "map_err", "map", "and_then", "ok_or", "ok_or_else", "unwrap_err", "map_or", "map_or_else", "cloned", "copied", "or_else", "as_deref", "filter", "is_some_and", "take"].contains(&name) {
                let optish = matches!(name, "ok_or" | "ok_or_else" | "cloned" | "copied" | "filter" | "is_some_and" | "take") || ty == "Option";
                let full = if optish { "std::option::Option" } else { "std::result::Result" };
                let v = if optish {
                    match ip.as_option(&me)? {
                        Some(v) => some(v),
                        None => none(),
                    }
                } else {
                    match ip.variant_of(me.clone(), &format!("{full}::Ok"))? {
                        Some(v) => v,
                        None => err(symv(format!("{}.Err.0", x.key), "")),
                    }
                };
                if let Some(p) = place {
                    ip.write(p, v.clone())?;
                }
                if let V::Adt(a) = &v {
                    if let Some(r) = opt_method(ip, a, place, name, args, targs, hint, site)? {
                        return Ok(r);
                    }
                }
            }
            let a = args.iter().map(dbg).collect::<Vec<_>>().join(", ");
            ip.effect("call", vec![me, s(name), list(args.to_vec())], site);
            symv(format!("{}.{name}({a})", x.key), "")
        }
    })
}

pub fn method(ip: &mut Interp, val: V, place: Option<Place>, name: &str, args: Vec<V>, targs: &[Ty], hint: Option<&Ty>, site: &str) -> R<V> {
    // common comparison methods
    if args.len() == 1 && matches!(name, "eq" | "ne" | "cmp" | "partial_cmp" | "lt" | "gt" | "le" | "ge") && !matches!(val, V::Sym(_)) {
        let o = args[0].clone();
        return Ok(match name {
            "eq" => V::Bool(ip.eq(&val, &o)?),
            "ne" => V::Bool(!ip.eq(&val, &o)?),
            "cmp" => ordering(ip.cmp(&val, &o)?),
            "partial_cmp" => some(ordering(ip.cmp(&val, &o)?)),
            "lt" => V::Bool(ip.cmp(&val, &o)? == std::cmp::Ordering::Less),
            "gt" => V::Bool(ip.cmp(&val, &o)? == std::cmp::Ordering::Greater),
            "le" => V::Bool(ip.cmp(&val, &o)? != std::cmp::Ordering::Greater),
            _ => V::Bool(ip.cmp(&val, &o)? != std::cmp::Ordering::Less),
        });
    }
    if crate::serde_model::is_json(&val) {
        if let Some(v) = crate::serde_model::json_method(ip, &val, name, &args)? {
            return Ok(v);
        }
    }
    let r = match &val {
        V::Str(x) => match str_method(ip, x.clone(), &place, name, &args, targs, hint)? {
            Some(v) => Some(v),
            None => None,
        },
        V::Char(c) => char_method(*c, name, &args, ip)?,
        V::Int(i) => int_method(ip, *i, name, &args, hint)?,
        V::Sym(x) if &*x.ty == "len" => match len_method(ip, &val, name, &args)? {
            Some(v) => Some(v),
            None => Some(sym_model(ip, x, &place, name, &args, targs, hint, site)?),
        },
        V::Bool(b) => match name {
            "then" => Some(if *b { some(ip.call_value(&args[0], vec![])?) } else { none() }),
            "then_some" => Some(if *b { some(args[0].clone()) } else { none() }),
            "clone" | "to_owned" | "into" => Some(val.clone()),
            "to_string" => Some(s(b.to_string())),
            "not" => Some(V::Bool(!*b)),
            _ => None,
        },
        V::Float(_) => match name {
            "clone" | "into" | "to_owned" => Some(val.clone()),
            "to_string" => Some(s(ip.display(&val)?)),
            _ => None,
        },
        V::List(l) => list_method(ip, l.clone(), &place, name, &args, targs, hint)?,
        V::Map(m, so) => match map_method(ip, m.clone(), *so, &place, name, &args, targs, hint, site)? {
            Some(v) => Some(v),
            None if ITER_METHODS.contains(&name) => {
                let it = ip.into_it(val.clone())?;
                if let V::Iter(rc) = wrap(it) {
                    iter_method(ip, rc, name, &args, targs, hint)?
                } else {
                    None
                }
            }
            None => None,
        },
        V::Set(l, sorted) => match name {
            "insert" => {
                let p = need(ip, &place, &val);
                Some(V::Bool(set_insert(ip, &p, args[0].clone())?))
            }
            "contains" | "remove" | "get" | "take" => {
                let mut at = None;
                for (i, x) in l.iter().enumerate() {
                    if ip.eq(x, &args[0])? {
                        at = Some(i);
                        break;
                    }
                }
                if name == "remove" || name == "take" {
                    if let Some(i) = at {
                        let p = need(ip, &place, &val);
                        let mut v = l.to_vec();
                        let x = v.remove(i);
                        ip.write(&p, V::Set(Rc::new(v), *sorted))?;
                        if name == "take" {
                            return Ok(some(x));
                        }
                    }
                }
                Some(match name {
                    "get" | "take" => opt(at.map(|i| l[i].clone())),
                    _ => V::Bool(at.is_some()),
                })
            }
            "len" => Some(V::Int(l.len() as i128)),
            "is_empty" => Some(V::Bool(l.is_empty())),
            "iter" | "into_iter" | "drain" => Some(wrap(It::buf(l.to_vec()))),
            "clone" => Some(val.clone()),
            "clear" => {
                let p = need(ip, &place, &val);
                ip.write(&p, V::Set(Rc::new(vec![]), *sorted))?;
                Some(V::Unit)
            }
            "extend" => {
                let p = need(ip, &place, &val);
                let mut it = ip.into_it(args[0].clone())?;
                while let Some(x) = iter::next(ip, &mut it)? {
                    set_insert(ip, &p, x)?;
                }
                Some(V::Unit)
            }
            _ if ITER_METHODS.contains(&name) => {
                let it = wrap(It::buf(l.to_vec()));
                match it {
                    V::Iter(rc) => iter_method(ip, rc, name, &args, targs, hint)?,
                    _ => None,
                }
            }
            _ => None,
        },
        V::Adt(a) if a.ty == "std::option::Option" || a.ty == "std::result::Result" => opt_method(ip, a, &place, name, &args, targs, hint, site)?,
        V::Adt(a) if a.ty == "@Entry" || a.ty == "std::collections::hash_map::Entry" => entry_method(ip, a, name, &args, site)?,
        V::Adt(a) if a.ty == "@Guard" => match name {
            // `lock().unwrap()`, or use of a guard
            "unwrap" | "expect" | "unwrap_or_else" => Some(a.fields[0].1.clone()),
            _ => {
                let g = a.fields[0].1.clone();
                Some(ip.method_site(g, name, args.clone(), targs, hint, site)?)
            }
        },
        V::Adt(a) if a.ty == "@SendResult" => {
            let g = a.fields[0].1.clone();
            Some(ip.method_site(g, name, args.clone(), targs, hint, site)?)
        }
        V::Adt(a) if a.ty == "@Formatter" => {
            let p = need(ip, &place, &val);
            match name {
                "write_str" | "write_fmt" | "write_char" | "push_str" | "push" | "pad" => {
                    let t = ip.display(&args[0])?;
                    Some(crate::toks::append(ip, V::Ref(p), &t)?)
                }
                "alternate" => Some(V::Bool(false)),
                _ => None,
            }
        }
        V::Adt(a) if a.ty == "@json" || a.ty == "@jsontext" => match name {
            "clone" | "to_owned" | "as_ref" | "as_str" | "into" => Some(val.clone()),
            "to_string" => Some(adt("@jsontext", None, vec![("of", val.clone())])),
            _ => None,
        },
        V::Adt(a) if a.ty == "std::cmp::Ordering" => match name {
            "reverse" => Some(ordering(match a.variant.as_deref() {
                Some("Less") => std::cmp::Ordering::Greater,
                Some("Greater") => std::cmp::Ordering::Less,
                _ => std::cmp::Ordering::Equal,
            })),
            "then" => Some(if a.variant.as_deref() == Some("Equal") { args[0].clone() } else { val.clone() }),
            "then_with" => Some(if a.variant.as_deref() == Some("Equal") { ip.call_value(&args[0], vec![])? } else { val.clone() }),
            "is_eq" => Some(V::Bool(a.variant.as_deref() == Some("Equal"))),
            _ => None,
        },
        V::Iter(rc) => {
            let user = matches!(&*rc.borrow(), It::User(_));
            let _ = user;
            iter_method(ip, rc.clone(), name, &args, targs, hint)?
        }
        V::Range(..) => match name {
            "contains" => {
                if let V::Range(a, b, inc) = &val {
                    let n = match ip.strip(args[0].clone())? {
                        V::Int(n) => n,
                        V::Char(c) => c as i128,
                        o => return top(format!("range contains {}", dbg(&o))),
                    };
                    let lo = a.map(|a| n >= a).unwrap_or(true);
                    let hi = b.map(|b| if *inc { n <= b } else { n < b }).unwrap_or(true);
                    Some(V::Bool(lo && hi))
                } else {
                    None
                }
            }
            "clone" => Some(val.clone()),
            _ => {
                let it = ip.into_it(val.clone())?;
                match wrap(it) {
                    V::Iter(rc) => iter_method(ip, rc, name, &args, targs, hint)?,
                    _ => None,
                }
            }
        },
        V::Cell(c) => Some(cell_method(ip, c, name, &args, targs, hint, site)?),
        V::Sym(x) => Some(sym_model(ip, x, &place, name, &args, targs, hint, site)?),
        V::Fut(_) => match name {
            "boxed" | "boxed_local" | "fuse" | "shared" | "into_future" | "as_mut" | "in_current_span" | "instrument" => Some(val.clone()),
            "map" => {
                let r = ip.await_(val.clone(), site)?;
                let v = ip.call_value(&args[0], vec![r])?;
                Some(ready(v))
            }
            "then" => {
                let r = ip.await_(val.clone(), site)?;
                Some(ip.call_value(&args[0], vec![r])?)
            }
            // a ready value behind a future-or-result
            _ => None,
        },
        V::Adt(a) => {
            // library traits on the program's own values
            match name {
                "clone" | "to_owned" | "as_ref" | "borrow" | "by_ref" | "deref" | "cloned" | "copied" => Some(val.clone()),
                "as_mut" | "borrow_mut" | "deref_mut" => match &place {
                    Some(p) => Some(V::Ref(p.clone())),
                    None => Some(val.clone()),
                },
                "to_string" => Some(s(ip.display(&val)?)),
                "into" => match hint {
                    Some(t) if !matches!(t, Ty::Infer) => {
                        let t = t.clone();
                        Some(convert_into(ip, val.clone(), &t)?)
                    }
                    _ => Some(val.clone()),
                },
                _ if ITER_METHODS.contains(&name) => {
                    let it = ip.into_it(match &place {
                        Some(p) => V::Ref(p.clone()),
                        None => V::Adt(a.clone()),
                    })?;
                    match wrap(it) {
                        V::Iter(rc) => iter_method(ip, rc, name, &args, targs, hint)?,
                        _ => None,
                    }
                }
                _ => {
                    // Deref of the program
                    let ty = Ty::Adt(a.ty.clone(), vec![]);
                    let f = match &place {
                        Some(_) => ip.find_assoc(&ty, "deref_mut", Some("std::ops::DerefMut"))?,
                        None => None,
                    };
                    let f = match f {
                        Some(f) => Some(f),
                        None => ip.find_assoc(&ty, "deref", Some("std::ops::Deref"))?,
                    };
                    match f {
                        Some(f) => {
                            let me = match &place {
                                Some(p) => V::Ref(p.clone()),
                                None => val.clone(),
                            };
                            let v = ip.call_fn(&f, vec![me], "deref")?;
                            Some(ip.method_site(v, name, args.clone(), targs, hint, site)?)
                        }
                        None => None,
                    }
                }
            }
        }
        V::Fn(_) | V::Closure(_) | V::Tuple(_) | V::Unit | V::TyVal(_) => match name {
            "clone" | "into" | "to_owned" | "as_ref" | "borrow" => Some(val.clone()),
            "call" | "call_mut" | "call_once" => {
                let a = match args.first() {
                    Some(V::Tuple(t)) => t.to_vec(),
                    Some(V::Unit) | None => vec![],
                    Some(v) => vec![v.clone()],
                };
                Some(ip.call_value(&val, a)?)
            }
            _ => None,
        },
        V::Toks(_) | V::Ref(_) => None,
    };
    if let Some(v) = r {
        return Ok(v);
    }
    if name == "into_iter" || name == "iter" {
        let it = ip.into_it(val.clone())?;
        return Ok(wrap(it));
    }
    if name == "to_string" {
        return Ok(s(ip.display(&val)?));
    }
    if name == "clone" || name == "to_owned" {
        return Ok(val);
    }
    if name == "write_fmt" || name == "write_str" {
        let t = ip.display(&args[0])?;
        let p = need(ip, &place, &val);
        return crate::toks::append(ip, V::Ref(p), &t);
    }
    if name == "try_into" {
        return Ok(ok(val));
    }
    // strings collected into a type that only inference knows: a method of strings makes it a string
    if let V::List(l) = &val {
        const OF_STR: &[&str] = &["as_str", "as_mut_str", "push_str", "trim", "trim_start", "trim_end", "starts_with", "ends_with", "replace", "lines", "chars", "bytes", "as_bytes", "into_bytes", "to_uppercase", "to_lowercase", "split_whitespace", "strip_prefix", "strip_suffix", "find", "into_boxed_str"];
        if OF_STR.contains(&name) && l.iter().all(|x| matches!(x, V::Str(_) | V::Char(_))) {
            let t = s(ip.display(&val)?);
            if let Some(p) = &place {
                ip.write(p, t.clone())?;
            }
            return method(ip, t, place, name, args, targs, hint, site);
        }
    }
    // trait methods with a default body, on library values
    top(format!("method {name} of {} at {site}", dbg(&val)))
}

/// methods of a length that is not known
fn len_method(ip: &mut Interp, v: &V, name: &str, args: &[V]) -> R<Option<V>> {
    Ok(Some(match name {
        "saturating_sub" | "checked_sub" | "wrapping_sub" => {
            let o = ip.strip(args[0].clone())?;
            match (len_diff(v, &o), len_arith("-", v, &o)) {
                (Some((n, _)), Some(r)) if n >= 0 => {
                    if name == "checked_sub" {
                        some(r)
                    } else {
                        r
                    }
                }
                _ => return Ok(None),
            }
        }
        "saturating_add" | "wrapping_add" => match len_arith("+", v, &ip.strip(args[0].clone())?) {
            Some(r) => r,
            None => return Ok(None),
        },
        "clone" | "to_owned" | "into" => v.clone(),
        _ => return Ok(None),
    }))
}

fn int_method(ip: &mut Interp, i: i128, name: &str, args: &[V], hint: Option<&Ty>) -> R<Option<V>> {
    Ok(Some(match name {
        "to_string" => s(i.to_string()),
        "clone" | "to_owned" | "into" | "get" | "as_ref" => V::Int(i),
        "try_into" | "try_from" => {
            let t = match hint {
                Some(t) if t.last() == "Result" => t.args().first().cloned(),
                _ => None,
            };
            match t.and_then(|t| match (min_max(t.last(), "MIN"), min_max(t.last(), "MAX")) {
                (Some(V::Int(a)), Some(V::Int(b))) => Some((a, b)),
                _ => None,
            }) {
                Some((a, b)) if i < a || i > b => err(symv("TryFromIntError", "")),
                _ => ok(V::Int(i)),
            }
        }
        "pow" => V::Int(i.checked_pow(int_of(ip, &args[0])? as u32).ok_or_else(|| Ctl::Panic("overflow".into()))?),
        "abs" | "unsigned_abs" => V::Int(i.abs()),
        "min" => V::Int(i.min(int_of(ip, &args[0])?)),
        "max" => V::Int(i.max(int_of(ip, &args[0])?)),
        "clamp" => V::Int(i.clamp(int_of(ip, &args[0])?, int_of(ip, &args[1])?)),
        "wrapping_add" | "saturating_add" => V::Int(i + int_of(ip, &args[0])?),
        "wrapping_sub" => V::Int(i - int_of(ip, &args[0])?),
        "saturating_sub" => V::Int((i - int_of(ip, &args[0])?).max(0)),
        "wrapping_mul" | "saturating_mul" => V::Int(i * int_of(ip, &args[0])?),
        "checked_add" => some(V::Int(i + int_of(ip, &args[0])?)),
        "checked_sub" => {
            let r = i - int_of(ip, &args[0])?;
            if r < 0 {
                none()
            } else {
                some(V::Int(r))
            }
        }
        "is_positive" => V::Bool(i > 0),
        "is_negative" => V::Bool(i < 0),
        "signum" => V::Int(i.signum()),
        "rem_euclid" => V::Int(i.rem_euclid(int_of(ip, &args[0])?)),
        _ => return Ok(None),
    }))
}
