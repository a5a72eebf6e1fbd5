//! Expression macros.
use crate::interp::*;
use crate::iter::It;
use crate::load::*;
use crate::value::*;
use quote::ToTokens;
use std::rc::Rc;

pub fn to_toks(_ip: &mut Interp, v: &V) -> R<Vec<Tok>> {
    match v {
        V::Toks(t) => Ok(t.to_vec()),
        o => top(format!("no Display for {}", dbg(o))),
    }
}

pub fn toks_variant(_ip: &mut Interp, _t: &Rc<Vec<Tok>>, full: &str) -> R<Option<V>> {
    top(format!("pattern {full} on tokens"))
}

pub fn toks_field(_ip: &mut Interp, _t: &Rc<Vec<Tok>>, name: &str) -> R<V> {
    top(format!("field {name} of tokens"))
}

/// arguments of format-like macros: format string, positional and named expressions
pub struct FmtArgs {
    pub exprs: Vec<(Option<String>, syn::Expr)>,
}

impl syn::parse::Parse for FmtArgs {
    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
        let mut exprs = vec![];
        while !input.is_empty() {
            if input.peek(syn::Ident) && input.peek2(syn::Token![=]) && !input.peek2(syn::Token![==]) {
                let i: syn::Ident = input.parse()?;
                let _: syn::Token![=] = input.parse()?;
                exprs.push((Some(decode_ident(&i.to_string())), input.parse()?));
            } else {
                exprs.push((None, input.parse()?));
            }
            if input.is_empty() {
                break;
            }
            let _: syn::Token![,] = input.parse()?;
        }
        Ok(FmtArgs { exprs })
    }
}

fn fmt_args(ip: &mut Interp, exprs: &[(Option<String>, syn::Expr)], env: &Env, fr: &Rc<Frame>) -> R<String> {
    if exprs.is_empty() {
        return Ok(String::new());
    }
    let f = literal_str(ip, &exprs[0].1, env, fr)?;
    let mut pos = vec![];
    let mut named = vec![];
    for (n, e) in &exprs[1..] {
        let v = ip.eval(e, env, fr, None)?;
        match n {
            Some(n) => named.push((n.clone(), v)),
            None => pos.push(v),
        }
    }
    // named arguments also count positionally
    let mut all = pos.clone();
    all.extend(named.iter().map(|(_, v)| v.clone()));
    ip.fmt_string(&f, &all, &named, Some((env, fr)))
}

fn literal_str(ip: &mut Interp, e: &syn::Expr, env: &Env, fr: &Rc<Frame>) -> R<String> {
    match e {
        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Ok(s.value()),
        syn::Expr::Group(g) => literal_str(ip, &g.expr, env, fr),
        syn::Expr::Macro(m) => match eval_macro(ip, &m.mac, env, fr, None)? {
            V::Str(s) => Ok(s.to_string()),
            _ => top("format string"),
        },
        _ => top("format string is not a literal"),
    }
}

fn parse_args(m: &syn::Macro) -> R<FmtArgs> {
    syn::parse2::<FmtArgs>(m.tokens.clone()).map_err(|e| Ctl::Top(format!("macro arguments: {e}")))
}

pub fn append(ip: &mut Interp, target: V, text: &str) -> R<V> {
    let (val, place) = ip.deref_all(target)?;
    let place = match place {
        Some(p) => p,
        None => match val {
            V::Cell(c) => Place { cell: c, proj: vec![] },
            o => return top(format!("write to {}", dbg(&o))),
        },
    };
    ip.modify(&place, |v| {
        let v2: &mut V = v;
        match v2 {
            V::Str(x) => {
                *v2 = s(format!("{x}{text}"));
                Ok(())
            }
            V::Adt(a) if a.ty == "@Formatter" => {
                let a = Rc::make_mut(a);
                let old = a.fields[0].1.as_str().map(|x| x.to_string()).unwrap_or_default();
                a.fields[0].1 = s(format!("{old}{text}"));
                Ok(())
            }
            V::Sym(x) if x.ty == "@default" => {
                *v2 = s(text);
                Ok(())
            }
            // strings collected into a type that only inference knows
            V::List(l) if l.iter().all(|x| matches!(x, V::Str(_) | V::Char(_))) => {
                let mut t = String::new();
                for x in l.iter() {
                    match x {
                        V::Str(x) => t.push_str(x),
                        V::Char(c) => t.push(*c),
                        _ => {}
                    }
                }
                *v2 = s(format!("{t}{text}"));
                Ok(())
            }
            o => top(format!("write to {}", dbg(o))),
        }
    })?;
    Ok(ok(V::Unit))
}

pub fn eval_macro(ip: &mut Interp, m: &syn::Macro, env: &Env, fr: &Rc<Frame>, hint: Option<&Ty>) -> R<V> {
    let segs = path_segs(&m.path);
    let name = segs.last().cloned().unwrap_or_default();
    match name.as_str() {
        "format" | "format_args" => {
            let a = parse_args(m)?;
            Ok(s(fmt_args(ip, &a.exprs, env, fr)?))
        }
        "write" | "writeln" => {
            let a = parse_args(m)?;
            let t = match ip.place(&a.exprs[0].1, env, fr)? {
                Some(p) => V::Ref(p),
                None => ip.eval(&a.exprs[0].1, env, fr, None)?,
            };
            let mut text = fmt_args(ip, &a.exprs[1..], env, fr)?;
            if name == "writeln" {
                text.push('\n');
            }
            append(ip, t, &text)
        }
        "print" | "println" | "eprint" | "eprintln" => Ok(V::Unit),
        "vec" => {
            let ts = m.tokens.clone();
            if let Ok(r) = syn::parse2::<syn::ExprRepeat>({
                let t = ts.clone();
                quote::quote!([#t])
            }) {
                return ip.eval(&syn::Expr::Repeat(r), env, fr, hint);
            }
            let arr: syn::ExprArray = syn::parse2(quote::quote!([#ts])).map_err(|e| Ctl::Top(format!("vec!: {e}")))?;
            ip.eval(&syn::Expr::Array(arr), env, fr, hint)
        }
        "matches" => {
            struct M(syn::Expr, syn::Pat, Option<syn::Expr>);
            impl syn::parse::Parse for M {
                fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                    let e = i.parse()?;
                    let _: syn::Token![,] = i.parse()?;
                    let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(syn::Token![if]) {
                        let _: syn::Token![if] = i.parse()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _: Option<syn::Token![,]> = i.parse()?;
                    Ok(M(e, p, g))
                }
            }
            let x: M = syn::parse2(m.tokens.clone()).map_err(|e| Ctl::Top(format!("matches!: {e}")))?;
            let v = ip.eval(&x.0, env, fr, None)?;
            let env2 = new_env(Some(env.clone()));
            if !ip.bind_pat(&x.1, v, &env2, fr)? {
                return Ok(V::Bool(false));
            }
            match x.2 {
                Some(g) => {
                    let c = ip.eval(&g, &env2, fr, None)?;
                    Ok(V::Bool(ip.truth(&c)?))
                }
                None => Ok(V::Bool(true)),
            }
        }
        "assert" | "debug_assert" => {
            let a = parse_args(m)?;
            let c = ip.eval(&a.exprs[0].1, env, fr, None)?;
            if !ip.truth(&c)? {
                return Err(Ctl::Panic(format!("assertion at {}", ip.site(fr, m.path.segments[0].ident.span()))));
            }
            Ok(V::Unit)
        }
        "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
            let a = parse_args(m)?;
            let x = ip.eval(&a.exprs[0].1, env, fr, None)?;
            let y = ip.eval(&a.exprs[1].1, env, fr, None)?;
            let e = ip.eq(&x, &y)?;
            if e == name.ends_with("ne") {
                return Err(Ctl::Panic(format!("assertion at {}", ip.site(fr, m.path.segments[0].ident.span()))));
            }
            Ok(V::Unit)
        }
        "panic" | "unreachable" | "todo" | "unimplemented" => Err(Ctl::Panic(format!("{name}! at {}", ip.site(fr, m.path.segments[0].ident.span())))),
        "concat" => {
            let a = parse_args(m)?;
            let mut o = String::new();
            for (_, e) in &a.exprs {
                let v = ip.eval(e, env, fr, None)?;
                o.push_str(&ip.display(&v)?);
            }
            Ok(s(o))
        }
        "stringify" => Ok(s(m.tokens.to_string())),
        "line" | "column" => Ok(V::Int(1)),
        "file" | "module_path" => Ok(s(&fr.module)),
        "env" | "option_env" => {
            let a = parse_args(m)?;
            let k = literal_str(ip, &a.exprs[0].1, env, fr)?;
            Ok(sym_str(format!("env({k})")))
        }
        "include_str" => {
            let a = parse_args(m)?;
            let rel = literal_str(ip, &a.exprs[0].1, env, fr)?;
            let dir = ip.repo.join(&fr.file);
            let p = dir.parent().unwrap().join(&rel);
            match std::fs::read_to_string(&p) {
                Ok(t) => Ok(s(t)),
                Err(_) => Ok(sym_str(format!("include_str({rel})"))),
            }
        }
        "cfg" => {
            let ts = m.tokens.clone();
            let attr: syn::Attribute = syn::parse_quote!(#[cfg(#ts)]);
            Ok(V::Bool(cfg_true(&[attr])))
        }
        "pin_mut" => Ok(V::Unit),
        "trace" | "debug" | "info" | "warn" | "error" | "event" if segs.len() >= 2 || name != "debug" => {
            let _ = hint;
            Ok(V::Unit)
        }
        "select" | "select_biased" => select(ip, m, env, fr),
        "join" => {
            let a = parse_args(m)?;
            let site = ip.site(fr, m.path.segments[0].ident.span());
            ip.effect("join", vec![V::Int(a.exprs.len() as i128)], &site);
            let mut out = vec![];
            for (i, (_, e)) in a.exprs.iter().enumerate() {
                let (r, _) = arm(ip, i, &site, |ip| {
                    let f = ip.eval(e, env, fr, None)?;
                    ip.await_(f, &site)
                });
                out.push(r?);
            }
            Ok(tuple(out))
        }
        _ => {
            // macro of the program
            let full = ip.prog.borrow().resolve(&fr.module, &segs, m.path.leading_colon.is_some());
            let def = {
                let pr = ip.prog.borrow();
                pr.macros.get(&full).cloned().or_else(|| pr.macros.get(&name).cloned())
            };
            if let Some(d) = def {
                let ts = d.expand(m.tokens.clone()).map_err(|e| Ctl::Top(format!("{name}!: {e}")))?;
                let b: syn::Block = syn::parse2(quote::quote!({ #ts })).map_err(|e| Ctl::Top(format!("{name}!: {e}")))?;
                return ip.block(&b, env, fr, hint);
            }
            top(format!("macro {}! at {}", m.path.to_token_stream(), ip.site(fr, m.path.segments[0].ident.span())))
        }
    }
}

type Queues = std::collections::HashMap<String, std::collections::VecDeque<V>>;

/// a concurrent part of the current task: what it does, and where its effects stand
pub fn arm<T>(ip: &mut Interp, i: usize, site: &str, f: impl FnOnce(&mut Interp) -> R<T>) -> (R<T>, (usize, usize, Queues)) {
    let old = ip.task;
    ip.task = ip.next_task;
    ip.next_task += 1;
    ip.effect("arm", vec![V::Int(i as i128), V::Int(old as i128)], site);
    let (from, before) = (ip.effects.len(), ip.chans.clone());
    let r = f(ip);
    let to = ip.effects.len();
    ip.effect("arm_end", vec![V::Int(i as i128)], site);
    ip.task = old;
    (r, (from, to, before))
}

/// a losing arm that only waits for one message has not taken it: it is dropped while waiting
pub fn roll_back(ip: &mut Interp, lost: &[(usize, usize, Queues)]) {
    for (from, to, before) in lost.iter().rev() {
        let part = &ip.effects[*from..*to];
        let takes: Vec<&crate::interp::Eff> = part.iter().filter(|e| e.kind == "recv" || e.kind == "recv_end").collect();
        if takes.len() != 1 || part.iter().any(|e| !matches!(e.kind.as_str(), "recv" | "recv_end" | "held")) {
            continue;
        }
        if let (V::Sym(x), "recv") = (&takes[0].args[0], takes[0].kind.as_str()) {
            if let (Some(q), Some(v)) = (ip.chans.get_mut(&x.key), before.get(&x.key).and_then(|q| q.front())) {
                q.push_front(v.clone());
            }
        }
        ip.effects.drain(*from..*to);
    }
}

/// `select!`: all arms run concurrently; the trace records each arm's effects and which one ends first
fn select(ip: &mut Interp, m: &syn::Macro, env: &Env, fr: &Rc<Frame>) -> R<V> {
    enum Item {
        Arm(Box<syn::Pat>, Box<syn::Expr>, Box<syn::Expr>),
        Complete(Box<syn::Expr>),
    }
    struct Arms(Vec<Item>);
    impl syn::parse::Parse for Arms {
        fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
            let mut v = vec![];
            while !i.is_empty() {
                if i.peek(syn::Ident) && (i.peek2(syn::Token![=>]) || i.peek2(syn::Token![;])) {
                    let id: syn::Ident = i.parse()?;
                    if id == "biased" {
                        let _: syn::Token![;] = i.parse()?;
                        continue;
                    }
                    let _: syn::Token![=>] = i.parse()?;
                    v.push(Item::Complete(i.parse()?));
                } else if i.peek(syn::Token![else]) {
                    let _: syn::Token![else] = i.parse()?;
                    let _: syn::Token![=>] = i.parse()?;
                    v.push(Item::Complete(i.parse()?));
                } else {
                    let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                    let _: syn::Token![=] = i.parse()?;
                    let e: syn::Expr = i.parse()?;
                    if i.peek(syn::Token![,]) {
                        let _: syn::Token![,] = i.parse()?;
                        let _: syn::Token![if] = i.parse()?;
                        let _: syn::Expr = i.parse()?;
                    }
                    let _: syn::Token![=>] = i.parse()?;
                    let b: syn::Expr = if i.peek(syn::token::Brace) { syn::Expr::Block(i.parse()?) } else { i.parse()? };
                    v.push(Item::Arm(Box::new(p), Box::new(e), Box::new(b)));
                }
                let _: Option<syn::Token![,]> = i.parse()?;
            }
            Ok(Arms(v))
        }
    }
    let arms: Arms = syn::parse2(m.tokens.clone()).map_err(|e| Ctl::Top(format!("select!: {e}")))?;
    let site = ip.site(fr, m.path.segments[0].ident.span());
    let arms: Vec<Item> = arms.0.into_iter().collect();
    let n = arms.iter().filter(|a| matches!(a, Item::Arm(..))).count();
    let labels: Vec<String> = (0..n).map(|i| format!("arm {i}")).collect();
    let labels: Vec<&str> = labels.iter().map(|x| x.as_str()).collect();
    let key = ip.fresh_key(&format!("select at {site}"));
    ip.effect("select", vec![V::Int(n as i128)], &site);
    // effects of every arm, in source order, each as its own task
    let mut results = vec![];
    let mut spans = vec![];
    for a in &arms {
        if let Item::Arm(_, e, _) = a {
            let (r, span) = arm(ip, spans.len(), &site, |ip| {
                let f = ip.eval(e, env, fr, None)?;
                ip.await_(f, &site)
            });
            results.push(r?);
            spans.push(span);
        }
    }
    if n == 0 {
        return Ok(V::Unit);
    }
    let c = ip.decide(&key, &labels)?;
    spans.remove(c);
    roll_back(ip, &spans);
    let mut k = 0;
    for a in &arms {
        if let Item::Arm(p, _, b) = a {
            if k == c {
                let env2 = new_env(Some(env.clone()));
                if !ip.bind_pat(p, results[c].clone(), &env2, fr)? {
                    return top("select pattern");
                }
                return ip.eval(b, &env2, fr, None);
            }
            k += 1;
        } else if let Item::Complete(_) = a {
        }
    }
    Ok(V::Unit)
}

pub fn empty_iter() -> It {
    It::buf(vec![])
}
