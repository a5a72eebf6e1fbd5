//! zodlint: evaluates the generated implementations of a compiler-expanded witness program (and the
//! library code behind them) by abstract interpretation and prints the results as JSON.
mod host;
mod interp;
mod iter;
mod load;
mod macros;
mod models;
mod serde_model;
mod toks;
mod value;

use interp::*;
use load::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::path::PathBuf;
use std::rc::Rc;
use value::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    // deep recursion of the analysed code is legitimate
    let h = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || match cmd.as_str() {
            "eval" => eval_cmd(&args[2..]),
            "unsafe" => unsafe_cmd(&args[2..]),
            _ => {
                eprintln!("usage: zodlint eval --repo R --corpus expanded.rs --jobs jobs.json --out out.json");
                2
            }
        })
        .unwrap();
    std::process::exit(h.join().unwrap_or(101));
}

fn opt_arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

/// registrations `inventory::submit!` expands to
pub fn inventory_nodes(items: &[syn::Item], module: &str, out: &mut Vec<(String, syn::Expr)>) {
    use quote::ToTokens;
    struct Find(Vec<syn::Expr>);
    impl<'a> syn::visit::Visit<'a> for Find {
        fn visit_item_static(&mut self, s: &'a syn::ItemStatic) {
            if s.ident == "__INVENTORY" {
                if let syn::Expr::Struct(st) = &*s.expr {
                    for f in &st.fields {
                        if f.member.to_token_stream().to_string() == "value" {
                            self.0.push(f.expr.clone());
                        }
                    }
                }
            }
            syn::visit::visit_item_static(self, s);
        }
        fn visit_item_mod(&mut self, _: &'a syn::ItemMod) {}
    }
    for it in items {
        match it {
            syn::Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    inventory_nodes(items, &format!("{module}::{}", m.ident), out);
                }
            }
            other => {
                let mut f = Find(vec![]);
                syn::visit::Visit::visit_item(&mut f, other);
                for e in f.0 {
                    out.push((module.to_string(), e));
                }
            }
        }
    }
}

fn eval_cmd(args: &[String]) -> i32 {
    let repo = PathBuf::from(opt_arg(args, "--repo").unwrap_or("/repo".into()));
    let corpus = opt_arg(args, "--corpus");
    let jobs: Value = serde_json::from_str(&std::fs::read_to_string(opt_arg(args, "--jobs").expect("--jobs")).expect("jobs file")).expect("jobs json");
    let mut prog = Program::load(&repo);
    let mut inv: Vec<(String, syn::Expr)> = vec![];
    if let Some(c) = &corpus {
        let text = std::fs::read_to_string(c).expect("corpus");
        match syn::parse_file(&text) {
            Ok(f) => {
                prog.crates.push("corpus".into());
                prog.add_module("corpus", "corpus", None);
                inventory_nodes(&f.items, "corpus", &mut inv);
                prog.add_items(&repo, "corpus", "corpus", &repo, f.items);
            }
            Err(e) => {
                let st = e.span().start();
                eprintln!("corpus does not parse: {e} at {}:{}", st.line, st.column);
                return 2;
            }
        }
    }
    let errors = prog.errors.clone();
    let files: Vec<String> = prog.files.iter().map(|f| f.0.clone()).collect();
    let nfns = prog.all_fns().len();
    let prog: Shared = Rc::new(RefCell::new(prog));
    let mut out = vec![];
    let empty = vec![];
    let mut visited = std::collections::BTreeSet::new();
    for j in jobs["jobs"].as_array().unwrap_or(&empty) {
        let host = Rc::new(host::ZHost::new(j));
        let mut ip = Interp::new(prog.clone(), &repo, host);
        ip.record_calls = true;
        out.push(run_job(&mut ip, j, &inv));
        visited.extend(ip.visited.iter().cloned());
    }
    let res = json!({
        "files": files, "functions": nfns, "errors": errors, "inventory": inv.len(),
        "visited": visited.into_iter().collect::<Vec<_>>(),
        "results": out,
    });
    std::fs::write(opt_arg(args, "--out").expect("--out"), serde_json::to_string(&res).unwrap()).expect("write");
    0
}

fn parse_ty(ip: &Interp, t: &str, module: &str) -> R<Ty> {
    let ty: syn::Type = syn::parse_str(t).map_err(|e| Ctl::Top(format!("type {t}: {e}")))?;
    let fr = ip.mod_frame(module);
    Ok(ip.ty_of(&ty, &fr))
}

fn eff_json(e: &Eff) -> Value {
    json!({"kind": e.kind, "args": e.args.iter().map(jsonv).collect::<Vec<_>>(), "site": e.site, "task": e.task})
}

/// structural rendering of an abstract value
fn jsonv(v: &V) -> Value {
    match v {
        V::Unit => json!({"k": "unit"}),
        V::Bool(b) => json!(b),
        V::Int(i) => json!({"k": "int", "v": i.to_string()}),
        V::Str(x) => json!(show(x)),
        V::List(l) => json!({"k": "list", "v": l.iter().map(jsonv).collect::<Vec<_>>()}),
        V::Set(l, _) => json!({"k": "set", "v": l.iter().map(jsonv).collect::<Vec<_>>()}),
        V::Tuple(l) => json!({"k": "tuple", "v": l.iter().map(jsonv).collect::<Vec<_>>()}),
        V::Map(m, _) => json!({"k": "map", "v": m.iter().map(|(a, b)| json!([jsonv(a), jsonv(b)])).collect::<Vec<_>>()}),
        V::Adt(a) => {
            let mut f = serde_json::Map::new();
            for (k, v) in &a.fields {
                f.insert(k.clone(), jsonv(v));
            }
            json!({"k": "adt", "ty": a.ty, "variant": a.variant, "f": f})
        }
        V::Sym(s) => json!({"k": "sym", "key": s.key, "ty": s.ty}),
        V::Cell(c) => match c.try_borrow() {
            Ok(v) => json!({"k": "cell", "id": format!("{:p}", Rc::as_ptr(c)), "v": jsonv(&v)}),
            _ => json!({"k": "cell", "id": format!("{:p}", Rc::as_ptr(c))}),
        },
        V::Ref(p) => json!({"k": "ref", "id": format!("{:p}{}", Rc::as_ptr(&p.cell), if p.proj.is_empty() { String::new() } else { format!("{:?}", p.proj) }), "v": dbg(v)}),
        o => json!({"k": o.kind(), "v": dbg(o)}),
    }
}

/// the JSON of what is sent
fn wire(ip: &mut Interp, e: &mut Eff) {
    if e.kind == "send" && e.args.len() == 2 {
        let v = e.args[1].clone();
        if let Ok((j, _)) = serde_model::encode(ip, &v) {
            e.args.push(j);
        }
    }
}

fn run_job(ip: &mut Interp, j: &Value, inv: &[(String, syn::Expr)]) -> Value {
    let limit = j["limit"].as_u64().unwrap_or(2000) as usize;
    let mut traces = vec![];
    let op = j["op"].as_str().unwrap_or("assoc").to_string();
    let module = j["module"].as_str().unwrap_or("corpus").to_string();
    let want_inv = j["inventory"].as_bool().unwrap_or(false);
    let only: Option<Vec<String>> = j["inv_modules"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect());
    let inv: Vec<(String, syn::Expr)> = if want_inv {
        inv.iter()
            .filter(|(m, _)| only.as_ref().map_or(true, |o| o.iter().any(|x| m == x || m.starts_with(&format!("{x}::")))))
            .cloned()
            .collect()
    } else {
        vec![]
    };
    let j2 = j.clone();
    ip.closed = j["closed"].as_bool().unwrap_or(false);
    ip.items = j["items"].as_u64().unwrap_or(3) as usize;
    if let Some(m) = j["max_steps"].as_u64() {
        ip.max_steps = m as usize;
    }
    ip.explore(
        limit,
        |ip| {
            interp::SCOPES.with(|s| *s.borrow_mut() = if ip.closed { Some(Vec::new()) } else { None });
            ip.no_spawn = j2["no_spawn"].as_u64().unwrap_or(0) as usize;
            if let Some(p) = j2["preset"].as_object() {
                for (k, v) in p {
                    ip.preset(k, v.as_u64().unwrap_or(0) as usize);
                }
            }
            let mut regs: Vec<(String, String, V)> = vec![];
            if j2["inventory"].as_bool().unwrap_or(false) {
                let mut vals: std::collections::HashMap<String, Vec<V>> = Default::default();
                for (m, e) in &inv {
                    let fr = Rc::new(ip.mod_frame(m));
                    let v = ip.eval(e, &new_env(None), &fr, None)?;
                    let v = ip.strip(v)?;
                    let t = ip.type_of(&v).show();
                    regs.push((m.clone(), t.clone(), v.clone()));
                    vals.entry(t).or_default().push(v);
                }
                ip.inventory = vals;
                ip.inventory_known = true;
            }
            let mut args = vec![];
            for a in j2["args"].as_array().unwrap_or(&vec![]) {
                args.push(host::arg(ip, a)?);
            }
            let v = match op.as_str() {
                "assoc" => {
                    let t = parse_ty(ip, j2["ty"].as_str().unwrap_or(""), &module)?;
                    let f = j2["fn"].as_str().unwrap_or("").to_string();
                    let tr = j2["trait"].as_str().map(|s| s.to_string());
                    ip.assoc(&t, tr.as_deref(), &f, &[], args, None, "entry")?
                }
                "const" => {
                    let t = parse_ty(ip, j2["ty"].as_str().unwrap_or(""), &module)?;
                    match ip.assoc_const(&t, j2["trait"].as_str(), j2["fn"].as_str().unwrap_or(""))? {
                        Some(v) => v,
                        None => return top("no such constant"),
                    }
                }
                "expr" => {
                    let e: syn::Expr = syn::parse_str(j2["expr"].as_str().unwrap_or("")).map_err(|e| Ctl::Top(format!("{e}")))?;
                    let fr = Rc::new(ip.mod_frame(&module));
                    let env = new_env(None);
                    for (i, a) in args.into_iter().enumerate() {
                        bind(&env, &format!("a{i}"), a);
                    }
                    ip.eval(&e, &env, &fr, None)?
                }
                "registrations" => {
                    let methods: Vec<String> = j2["methods"].as_array().unwrap_or(&vec![]).iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect();
                    let mut out = vec![];
                    for (m, t, v) in &regs {
                        let mut row = vec![s(m.clone()), s(t.clone())];
                        for k in &methods {
                            let x = ip.method(v.clone(), k, vec![], &[], None, 0)?;
                            row.push(match ip.display(&x) {
                                Ok(t) => s(show(&t)),
                                Err(_) => x,
                            });
                        }
                        out.push(list(row));
                    }
                    list(out)
                }
                "inventory" => list(ip.inventory.values().flat_map(|v| v.iter().cloned()).collect()),
                o => return top(format!("op {o}")),
            };
            ip.run_deferred()?;
            let text = match ip.display(&v) {
                Ok(t) => Some(show(&t)),
                Err(_) => None,
            };
            let mut effs = std::mem::take(&mut ip.effects);
            for e in effs.iter_mut() {
                wire(ip, e);
            }
            ip.effects = effs;
            Ok((text, jsonv(&v)))
        },
        |_ip, t| {
            let (kind, text, val) = match t.out {
                Ok((t, v)) => ("value", t, v),
                Err(Ctl::Panic(m)) => ("panic", Some(m), Value::Null),
                Err(Ctl::Abort(m)) => ("abort", Some(m), Value::Null),
                Err(Ctl::Top(m)) => ("top", Some(m), Value::Null),
                Err(Ctl::Cut(m)) => ("cut", Some(m), Value::Null),
                Err(Ctl::Return(_)) => ("top", Some("return".into()), Value::Null),
                Err(_) => ("top", Some("control".into()), Value::Null),
            };
            let mut o = json!({"kind": kind, "text": text, "value": val});
            if !t.decisions.is_empty() {
                o["decisions"] = json!(t.decisions);
            }
            if !t.effects.is_empty() {
                o["effects"] = json!(t.effects.iter().map(eff_json).collect::<Vec<_>>());
            }
            traces.push(o);
        },
    );
    json!({"id": j["id"], "traces": traces, "incomplete": ip.tops})
}

/// `unsafe` in the sources of the crates (including the token templates of `quote!`)
fn unsafe_cmd(args: &[String]) -> i32 {
    let repo = PathBuf::from(opt_arg(args, "--repo").unwrap_or("/repo".into()));
    let prog = Program::load(&repo);
    let mut out = vec![];
    fn walk(ts: proc_macro2::TokenStream, file: &str, out: &mut Vec<(String, usize, String)>) {
        let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
        for (i, t) in v.iter().enumerate() {
            match t {
                proc_macro2::TokenTree::Ident(id) => {
                    let s = id.to_string();
                    if s == "unsafe" || s == "unsafe_code" {
                        let _ = i;
                        out.push((file.to_string(), line_of(id.span()), s));
                    }
                }
                proc_macro2::TokenTree::Group(g) => walk(g.stream(), file, out),
                _ => {}
            }
        }
    }
    // attributes that lift the ban, and texts that become code
    let (mut lifted, mut strings) = (vec![], vec![]);
    fn look(ts: proc_macro2::TokenStream, file: &str, lifted: &mut Vec<Value>, strings: &mut Vec<Value>) {
        use proc_macro2::TokenTree as T;
        let ts: Vec<T> = ts.into_iter().collect();
        for (i, t) in ts.iter().enumerate() {
            match t {
                T::Ident(id) if ["allow", "warn", "expect"].contains(&id.to_string().as_str()) => {
                    if let Some(T::Group(g)) = ts.get(i + 1) {
                        if g.stream().into_iter().any(|x| x.to_string() == "unsafe_code") {
                            lifted.push(json!([file, line_of(id.span()), id.to_string()]));
                        }
                    }
                }
                T::Literal(l) => {
                    let doc = i >= 2 && matches!(&ts[i - 2], T::Ident(d) if d == "doc");
                    let s = l.to_string();
                    if !doc && s.contains('"') && s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "unsafe") {
                        strings.push(json!([file, line_of(l.span()), s]));
                    }
                }
                T::Group(g) => look(g.stream(), file, lifted, strings),
                _ => {}
            }
        }
    }
    for (f, text) in &prog.files {
        if let Ok(ts) = text.parse::<proc_macro2::TokenStream>() {
            look(ts, f, &mut lifted, &mut strings);
        }
    }
    for (f, text) in &prog.files {
        if let Ok(ts) = text.parse::<proc_macro2::TokenStream>() {
            walk(ts, f, &mut out);
        }
    }
    let mut attrs = vec![];
    for (f, a) in &prog.inner_attrs {
        use quote::ToTokens;
        for x in a {
            attrs.push(json!([f, x.to_token_stream().to_string()]));
        }
    }
    println!("{}", json!({
        "files": prog.files.iter().map(|f| f.0.clone()).collect::<Vec<_>>(),
        "errors": prog.errors, "functions": prog.all_fns().len(),
        "inner_attrs": attrs, "lifted": lifted, "strings": strings,
        "occurrences": out.iter().map(|(f, l, t)| json!([f, l, t])).collect::<Vec<_>>()
    }));
    0
}
