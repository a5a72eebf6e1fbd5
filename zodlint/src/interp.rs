//! The abstract interpreter: evaluates the analysed crates' functions over abstract values.
//! Conditions that depend on a symbol are *decided*; all combinations of decisions are enumerated by
//! the caller (see `explore`).

use crate::iter::{self, It};
use crate::load::*;
use crate::value::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use syn::spanned::Spanned;

pub enum Ctl {
    Return(V),
    Break(Option<String>, V),
    Continue(Option<String>),
    /// run time panic of the analysed code
    Panic(String),
    /// compile-time rejection (`abort!`, compile error)
    Abort(String),
    /// decisions that exclude each other
    Infeasible,
    /// the analysis does not know
    Top(String),
    /// bounded unrolling exhausted
    Cut(String),
}

pub type R<T> = Result<T, Ctl>;

pub fn top<T>(m: impl Into<String>) -> R<T> {
    Err(Ctl::Top(m.into()))
}

pub struct Scope {
    pub vars: RefCell<Vec<(String, Rc<RefCell<V>>)>>,
    pub parent: Option<Env>,
}
pub type Env = Rc<Scope>;

thread_local! {
    /// scopes of the closed world under evaluation, to see what is alive at a given moment
    pub static SCOPES: RefCell<Option<Vec<std::rc::Weak<Scope>>>> = RefCell::new(None);
}

pub fn new_env(parent: Option<Env>) -> Env {
    let e = Rc::new(Scope { vars: RefCell::new(Vec::new()), parent });
    SCOPES.with(|s| {
        if let Some(v) = &mut *s.borrow_mut() {
            if v.len() == v.capacity() {
                v.retain(|w| w.strong_count() > 0);
                let n = v.len();
                v.reserve(n + 64);
            }
            v.push(Rc::downgrade(&e));
        }
    });
    e
}

/// shared cells that variables still in scope (and globals) can reach
pub fn reachable_cells(more: &[V]) -> Vec<V> {
    fn env(e: &Env, seen: &mut std::collections::HashSet<usize>, out: &mut Vec<V>) {
        if !seen.insert(Rc::as_ptr(e) as *const u8 as usize) {
            return;
        }
        for (_, v) in e.vars.borrow().iter() {
            if let Ok(v) = v.try_borrow() {
                walk(&v, seen, out);
            }
        }
        if let Some(p) = &e.parent {
            env(p, seen, out);
        }
    }
    fn cell(c: &Rc<RefCell<V>>, seen: &mut std::collections::HashSet<usize>, out: &mut Vec<V>) {
        if seen.insert(Rc::as_ptr(c) as *const u8 as usize) {
            if let Ok(v) = c.try_borrow() {
                walk(&v, seen, out);
            }
        }
    }
    fn walk(v: &V, seen: &mut std::collections::HashSet<usize>, out: &mut Vec<V>) {
        match v {
            V::List(l) | V::Tuple(l) | V::Set(l, _) => l.iter().for_each(|x| walk(x, seen, out)),
            V::Map(m, _) => m.iter().for_each(|(k, x)| {
                walk(k, seen, out);
                walk(x, seen, out)
            }),
            V::Adt(a) => a.fields.iter().for_each(|(_, x)| walk(x, seen, out)),
            V::Closure(c) => env(&c.env, seen, out),
            V::Fut(f) => {
                if let Ok(f) = f.try_borrow() {
                    if let Some(t) = &*f {
                        env(&t.env, seen, out);
                        if let crate::value::ThunkBody::Ready(v) = &t.body {
                            walk(v, seen, out);
                        }
                    }
                }
            }
            V::Ref(p) => cell(&p.cell, seen, out),
            V::Cell(c) => {
                if !seen.contains(&(Rc::as_ptr(c) as *const u8 as usize)) {
                    out.push(v.clone());
                }
                cell(c, seen, out);
            }
            _ => {}
        }
    }
    let mut seen = Default::default();
    let mut out = vec![];
    let all: Vec<Env> = SCOPES.with(|s| s.borrow().iter().flatten().filter_map(|w| w.upgrade()).collect());
    for e in &all {
        env(e, &mut seen, &mut out);
    }
    for v in more {
        walk(v, &mut seen, &mut out);
    }
    out
}
pub fn bind(env: &Env, n: &str, v: V) {
    env.vars.borrow_mut().push((n.to_string(), Rc::new(RefCell::new(v))));
}
pub fn lookup(env: &Env, n: &str) -> Option<Rc<RefCell<V>>> {
    let mut e = Some(env);
    while let Some(x) = e {
        for (k, v) in x.vars.borrow().iter().rev() {
            if k == n {
                return Some(v.clone());
            }
        }
        e = x.parent.as_ref();
    }
    None
}

#[derive(Clone)]
pub struct Frame {
    pub module: String,
    pub file: String,
    pub fn_name: String,
    pub self_ty: Option<Ty>,
    pub generics: Rc<HashMap<String, Ty>>,
    pub ret: Option<Ty>,
    /// index of this call in the call stack trace
    pub is_async: bool,
}

#[derive(Clone)]
pub struct Eff {
    pub kind: String,
    pub args: Vec<V>,
    pub site: String,
    /// enclosing spawned task (0 = the analysed call itself)
    pub task: usize,
}

pub trait Host {
    fn sym_method(&self, _ip: &mut Interp, _sym: &SymV, _m: &str, _args: &[V], _site: &str) -> R<Option<V>> {
        Ok(None)
    }
    fn sym_field(&self, _ip: &mut Interp, _sym: &SymV, _f: &str) -> R<Option<V>> {
        Ok(None)
    }
    /// any call to a path, before everything else
    fn call(&self, _ip: &mut Interp, _path: &str, _targs: &[Ty], _args: &[V], _site: &str) -> R<Option<V>> {
        Ok(None)
    }
    /// associated function of a type that has no implementation in the program (`T::schema()`)
    fn assoc_call(&self, _ip: &mut Interp, _ty: &Ty, _trait: Option<&str>, _name: &str, _args: &[V], _site: &str) -> R<Option<V>> {
        Ok(None)
    }
    fn assoc_const(&self, _ip: &mut Interp, _ty: &Ty, _trait: Option<&str>, _name: &str) -> R<Option<V>> {
        Ok(None)
    }
    /// variants a symbol of this type can have, if known
    fn sym_variant(&self, _ip: &mut Interp, _sym: &SymV, _path: &str) -> R<Option<Option<V>>> {
        Ok(None)
    }
}

pub struct NoHost;
impl Host for NoHost {}

#[derive(Default)]
pub struct Oracle {
    pub prefix: Vec<usize>,
    pub taken: Vec<(String, usize, usize, String)>,
    pub memo: HashMap<String, usize>,
    /// decided equalities: both sides, the answer, and whether the second side is a constant
    pub eqs: Vec<(String, String, bool, bool)>,
}

pub struct Interp {
    pub prog: Shared,
    pub repo: std::path::PathBuf,
    pub host: Rc<dyn Host>,
    pub oracle: Oracle,
    pub effects: Vec<Eff>,
    pub steps: usize,
    pub depth: usize,
    pub stack: Vec<(String, Option<Ty>)>,
    pub task: usize,
    pub next_task: usize,
    pub fresh: HashMap<String, usize>,
    pub quote_sites: Vec<String>,
    pub visited: std::collections::BTreeSet<String>,
    pub inventory: HashMap<String, Vec<V>>,
    pub inventory_known: bool,
    pub tops: Vec<String>,
    pub consts: HashMap<String, V>,
    pub max_steps: usize,
    pub record_calls: bool,
    /// closed world: channels are queues, spawned tasks run after the entry point
    pub closed: bool,
    /// how many items a symbolic receiver yields before it ends
    pub items: usize,
    /// spawned tasks are not looked into
    pub no_spawn: usize,
    /// item types of channels, from the declared types of what holds them
    pub chan_ty: HashMap<String, String>,
    pub deferred: Vec<(usize, V, String)>,
    pub chans: HashMap<String, std::collections::VecDeque<V>>,
    pub gone: std::collections::HashSet<String>,
}

pub struct Trace<T> {
    pub decisions: Vec<(String, String)>,
    pub out: R<T>,
    pub effects: Vec<Eff>,
    pub quote_sites: Vec<String>,
}

impl Interp {
    pub fn new(prog: Shared, repo: &std::path::Path, host: Rc<dyn Host>) -> Interp {
        Interp {
            prog,
            repo: repo.to_path_buf(),
            host,
            oracle: Oracle::default(),
            effects: vec![],
            steps: 0,
            depth: 0,
            stack: vec![],
            task: 0,
            next_task: 1,
            fresh: HashMap::new(),
            quote_sites: vec![],
            visited: Default::default(),
            inventory: HashMap::new(),
            inventory_known: false,
            tops: vec![],
            consts: HashMap::new(),
            max_steps: 400_000,
            record_calls: false,
            closed: false,
            items: 3,
            no_spawn: 0,
            chan_ty: HashMap::new(),
            deferred: vec![],
            chans: HashMap::new(),
            gone: Default::default(),
        }
    }

    /// run `f` for every combination of decisions; `g` receives every trace
    pub fn explore<T>(&mut self, limit: usize, mut f: impl FnMut(&mut Interp) -> R<T>, mut g: impl FnMut(&mut Interp, Trace<T>)) -> usize {
        let mut prefix: Vec<usize> = vec![];
        let mut n = 0;
        loop {
            self.oracle = Oracle { prefix: prefix.clone(), ..Default::default() };
            self.effects.clear();
            self.steps = 0;
            self.depth = 0;
            self.stack.clear();
            self.task = 0;
            self.next_task = 1;
            self.fresh.clear();
            self.quote_sites.clear();
            self.deferred.clear();
            self.chans.clear();
            self.chan_ty.clear();
            self.gone.clear();
            let out = f(self);
            let t = Trace {
                decisions: self.oracle.taken.iter().map(|(k, _, _, l)| (k.clone(), l.clone())).collect(),
                out,
                effects: std::mem::take(&mut self.effects),
                quote_sites: std::mem::take(&mut self.quote_sites),
            };
            let taken: Vec<(usize, usize)> = self.oracle.taken.iter().map(|(_, c, n, _)| (*c, *n)).collect();
            if !matches!(t.out, Err(Ctl::Infeasible)) {
                n += 1;
                g(self, t);
            }
            // next combination
            let mut i = taken.len();
            loop {
                if i == 0 {
                    return n;
                }
                i -= 1;
                if taken[i].0 + 1 < taken[i].1 {
                    prefix = taken[..i].iter().map(|x| x.0).collect();
                    prefix.push(taken[i].0 + 1);
                    break;
                }
            }
            if n >= limit {
                self.tops.push(format!("more than {limit} traces"));
                return n;
            }
        }
    }

    pub fn decide(&mut self, key: &str, labels: &[&str]) -> R<usize> {
        if let Some(c) = self.oracle.memo.get(key) {
            return Ok(*c);
        }
        let i = self.oracle.taken.len();
        let c = self.oracle.prefix.get(i).copied().unwrap_or(0);
        self.oracle.taken.push((key.to_string(), c, labels.len(), labels[c.min(labels.len() - 1)].to_string()));
        self.oracle.memo.insert(key.to_string(), c);
        if i > 200 {
            return top("too many decisions on one path");
        }
        Ok(c)
    }
    /// equality of two unknowns, or of an unknown and a constant, consistent with what was decided before
    pub fn decide_eq(&mut self, p: &str, q: &str, constant: bool) -> R<bool> {
        let key = format!("eq({p}, {q})");
        if !self.oracle.memo.contains_key(&key) {
            let class = |x: &str, eqs: &Vec<(String, String, bool, bool)>| {
                let mut c = vec![x.to_string()];
                let mut i = 0;
                while i < c.len() {
                    for (a, b, y, _) in eqs {
                        for (a, b) in [(a, b), (b, a)] {
                            if *y && *a == c[i] && !c.contains(b) {
                                c.push(b.clone());
                            }
                        }
                    }
                    i += 1;
                }
                c
            };
            let eqs = &self.oracle.eqs;
            let (cp, cq) = (class(p, eqs), class(q, eqs));
            if cp.iter().any(|x| x == q) {
                return Ok(true);
            }
            let is_const = |x: &String| eqs.iter().any(|e| e.3 && e.1 == *x);
            let kp: Vec<&String> = cp.iter().filter(|x| is_const(x)).collect();
            let kq: Vec<&String> = cq.iter().filter(|x| is_const(x) || (constant && *x == q)).collect();
            if kp.iter().any(|x| kq.iter().any(|y| x != y)) {
                return Ok(false);
            }
            if eqs.iter().any(|(a, b, y, _)| !*y && ((cp.contains(a) && cq.contains(b)) || (cp.contains(b) && cq.contains(a)))) {
                return Ok(false);
            }
        }
        let y = self.decide(&key, &["no", "yes"])? == 1;
        if !self.oracle.eqs.iter().any(|e| e.0 == p && e.1 == q) {
            self.oracle.eqs.push((p.to_string(), q.to_string(), y, constant));
        }
        Ok(y)
    }
    pub fn decided(&self, key: &str) -> Option<usize> {
        self.oracle.memo.get(key).copied()
    }
    /// fix a decision without branching
    pub fn preset(&mut self, key: &str, c: usize) {
        if let Some((p, q)) = key.strip_prefix("eq(").and_then(|k| k.strip_suffix(')')).and_then(|k| k.split_once(", ")) {
            self.oracle.eqs.push((p.to_string(), q.to_string(), c == 1, false));
        }
        self.oracle.memo.insert(key.to_string(), c);
    }

    pub fn tick(&mut self) -> R<()> {
        self.steps += 1;
        if self.steps > self.max_steps {
            return top("step limit");
        }
        Ok(())
    }

    pub fn effect(&mut self, kind: &str, args: Vec<V>, site: &str) {
        let task = self.task;
        let args = if kind == "call" || kind == "user" {
            args.into_iter()
                .map(|a| match a {
                    V::List(l) => list(l.iter().map(|x| self.identity(x)).collect()),
                    a => self.identity(&a),
                })
                .collect()
        } else {
            args
        };
        self.effects.push(Eff { kind: kind.into(), args, site: site.into(), task });
    }

    /// references and guards stand for the shared cell they lead to
    fn identity(&self, v: &V) -> V {
        let mut cur = v.clone();
        for _ in 0..16 {
            cur = match &cur {
                V::Ref(p) => match self.read(p) {
                    Ok(V::Cell(c)) => return V::Cell(c),
                    Ok(n @ V::Ref(_)) => n,
                    Ok(V::Adt(a)) if a.ty == "@Guard" => a.fields[0].1.clone(),
                    _ => return if p.proj.is_empty() { V::Cell(p.cell.clone()) } else { cur },
                },
                V::Adt(a) if a.ty == "@Guard" => a.fields[0].1.clone(),
                _ => return cur,
            };
        }
        cur
    }

    pub fn fresh_key(&mut self, p: &str) -> String {
        let n = self.fresh.entry(p.to_string()).or_default();
        *n += 1;
        format!("{p}#{n}")
    }

    // ------------------------------------------------------------------ places

    fn norm_place(&self, p: &Place) -> R<Place> {
        let mut cell = p.cell.clone();
        let mut todo: Vec<Proj> = p.proj.clone();
        let mut done: Vec<Proj> = vec![];
        let mut guard = 0;
        'again: loop {
            guard += 1;
            if guard > 64 {
                return top("place cycle");
            }
            // walk `done` from cell, then each of todo
            let all: Vec<Proj> = done.drain(..).chain(todo.drain(..)).collect();
            let mut cur = cell.try_borrow().map_err(|_| Ctl::Top("cell busy".into()))?.clone();
            for i in 0..all.len() {
                match cur {
                    V::Ref(q) => {
                        cell = q.cell.clone();
                        todo = q.proj.iter().cloned().chain(all[i..].iter().cloned()).collect();
                        continue 'again;
                    }
                    V::Cell(c) => {
                        cell = c;
                        todo = all[i..].to_vec();
                        continue 'again;
                    }
                    _ => {}
                }
                cur = match (&all[i], &cur) {
                    (Proj::Field(f), V::Adt(a)) => match a.fields.iter().find(|(k, _)| k == f) {
                        Some((_, v)) => v.clone(),
                        None => return top(format!("no field {f}")),
                    },
                    (Proj::Field(f), V::Tuple(t)) => match f.parse::<usize>().ok().and_then(|i| t.get(i)) {
                        Some(v) => v.clone(),
                        None => return top(format!("no field {f}")),
                    },
                    (Proj::Idx(i), V::List(l)) => match l.get(*i) {
                        Some(v) => v.clone(),
                        None => return Err(Ctl::Panic("index out of bounds".into())),
                    },
                    (Proj::MapVal(i), V::Map(m, _)) => match m.get(*i) {
                        Some(v) => v.1.clone(),
                        None => return top("map entry"),
                    },
                    (_, v) => return top(format!("projection of {}", v.kind())),
                };
            }
            return Ok(Place { cell, proj: all });
        }
    }

    pub fn read(&self, p: &Place) -> R<V> {
        let p = self.norm_place(p)?;
        let mut cur = p.cell.try_borrow().map_err(|_| Ctl::Top("cell busy".into()))?.clone();
        for x in &p.proj {
            cur = match (x, &cur) {
                (Proj::Field(f), v) => v.field(f).ok_or_else(|| Ctl::Top(format!("field {f}")))?,
                (Proj::Idx(i), V::List(l)) => l[*i].clone(),
                (Proj::MapVal(i), V::Map(m, _)) => m[*i].1.clone(),
                _ => return top("read"),
            };
        }
        Ok(cur)
    }

    /// mutate the value at the place
    pub fn modify<T>(&mut self, p: &Place, f: impl FnOnce(&mut V) -> R<T>) -> R<T> {
        let p = self.norm_place(p)?;
        let mut b = p.cell.try_borrow_mut().map_err(|_| Ctl::Top("cell busy".into()))?;
        let mut cur: &mut V = &mut b;
        for x in &p.proj {
            cur = match (x, cur) {
                (Proj::Field(f), V::Adt(a)) => {
                    let a = Rc::make_mut(a);
                    match a.fields.iter_mut().find(|(k, _)| k == f) {
                        Some((_, v)) => v,
                        None => return top("field"),
                    }
                }
                (Proj::Field(f), V::Tuple(t)) => {
                    let i: usize = f.parse().unwrap_or(usize::MAX);
                    match Rc::make_mut(t).get_mut(i) {
                        Some(v) => v,
                        None => return top("field"),
                    }
                }
                (Proj::Idx(i), V::List(l)) => &mut Rc::make_mut(l)[*i],
                (Proj::MapVal(i), V::Map(m, _)) => &mut Rc::make_mut(m)[*i].1,
                _ => return top("modify"),
            };
        }
        f(cur)
    }

    pub fn write(&mut self, p: &Place, v: V) -> R<()> {
        if p.proj.is_empty() {
            *p.cell.try_borrow_mut().map_err(|_| Ctl::Top("cell busy".into()))? = v;
            return Ok(());
        }
        self.modify(p, |x| {
            *x = v;
            Ok(())
        })
    }

    /// value behind references, with the innermost place
    pub fn deref_all(&self, v: V) -> R<(V, Option<Place>)> {
        let mut v = v;
        let mut place = None;
        for _ in 0..32 {
            match v {
                V::Ref(p) => {
                    v = self.read(&p)?;
                    place = Some(p);
                }
                v => return Ok((v, place)),
            }
        }
        top("reference cycle")
    }
    pub fn strip(&self, v: V) -> R<V> {
        Ok(self.deref_all(v)?.0)
    }

    pub fn temp(&self, v: V) -> Place {
        Place { cell: Rc::new(RefCell::new(v)), proj: vec![] }
    }

    // ------------------------------------------------------------------ types

    pub fn ty_of(&self, t: &syn::Type, fr: &Frame) -> Ty {
        match t {
            syn::Type::Path(p) => {
                if let Some(q) = &p.qself {
                    let st = self.ty_of(&q.ty, fr);
                    let name = decode_ident(&p.path.segments.last().unwrap().ident.to_string());
                    let tr: Vec<String> = path_segs(&p.path).into_iter().take(q.position).collect();
                    let tr = if tr.is_empty() { String::new() } else { self.prog.borrow().resolve(&fr.module, &tr, p.path.leading_colon.is_some()) };
                    return self.assoc_ty(&st, &tr, &name);
                }
                let segs = path_segs(&p.path);
                if segs.len() == 1 && p.path.leading_colon.is_none() {
                    if segs[0] == "Self" {
                        return fr.self_ty.clone().unwrap_or(Ty::Infer);
                    }
                    if let Some(t) = fr.generics.get(&segs[0]) {
                        return t.clone();
                    }
                    if let Some(t) = ty_prim(&segs[0]) {
                        return t;
                    }
                }
                if segs.len() == 2 {
                    let base = if segs[0] == "Self" { fr.self_ty.clone() } else { fr.generics.get(&segs[0]).cloned() };
                    if let Some(b) = base {
                        return self.assoc_ty(&b, "", &segs[1]);
                    }
                }
                let mut args = vec![];
                for s in &p.path.segments {
                    if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                        for x in &a.args {
                            match x {
                                syn::GenericArgument::Type(t) => args.push(self.ty_of(t, fr)),
                                syn::GenericArgument::Const(e) => args.push(Ty::Atom(quote::quote!(#e).to_string())),
                                _ => {}
                            }
                        }
                    }
                }
                let path = self.prog.borrow().resolve(&fr.module, &segs, p.path.leading_colon.is_some());
                let al = self.prog.borrow().defs.get(&path).cloned();
                if let Some(Def::Alias(a, m)) = al {
                    let gens = gen_names(&a.generics);
                    let mut g = HashMap::new();
                    for (n, t) in gens.into_iter().zip(args.into_iter()) {
                        g.insert(n, t);
                    }
                    let f2 = Frame { module: m, generics: Rc::new(g), ..fr.clone() };
                    return self.ty_of(&a.ty, &f2);
                }
                if has_sym(&path) && path.chars().filter(|c| *c == SO).count() == 1 && path.ends_with(SC) && path.starts_with(SO) {
                    return Ty::Atom(path);
                }
                if let Some(last) = path.rsplit("::").next() {
                    if last.starts_with(SO) {
                        return Ty::Atom(last.to_string());
                    }
                }
                let path = if path == "std::primitive::str" { "str".into() } else { path };
                Ty::Adt(path, args)
            }
            syn::Type::Reference(r) => Ty::Ref(Box::new(self.ty_of(&r.elem, fr)), r.mutability.is_some()),
            syn::Type::Tuple(t) => Ty::Tuple(t.elems.iter().map(|t| self.ty_of(t, fr)).collect()),
            syn::Type::Array(a) => {
                let l = &a.len;
                Ty::Array(Box::new(self.ty_of(&a.elem, fr)), quote::quote!(#l).to_string())
            }
            syn::Type::Slice(a) => Ty::Slice(Box::new(self.ty_of(&a.elem, fr))),
            syn::Type::Paren(p) => self.ty_of(&p.elem, fr),
            syn::Type::Group(p) => self.ty_of(&p.elem, fr),
            syn::Type::Never(_) => Ty::Never,
            syn::Type::ImplTrait(syn::TypeImplTrait { bounds, .. }) | syn::Type::TraitObject(syn::TypeTraitObject { bounds, .. }) => {
                // the associated types the bounds fix
                let mut b = vec![];
                for x in bounds {
                    if let syn::TypeParamBound::Trait(t) = x {
                        if let Some(syn::PathArguments::AngleBracketed(a)) = t.path.segments.last().map(|s| &s.arguments) {
                            for g in &a.args {
                                if let syn::GenericArgument::AssocType(at) = g {
                                    b.push((at.ident.to_string(), self.ty_of(&at.ty, fr)));
                                }
                            }
                        }
                    }
                }
                Ty::Opaque(quote::quote!(#t).to_string(), b)
            }
            syn::Type::BareFn(_) => Ty::FnPtr,
            _ => Ty::Infer,
        }
    }

    pub fn assoc_ty(&self, st: &Ty, tr: &str, name: &str) -> Ty {
        // an impl in the program that defines it
        let impls = self.prog.borrow().impls.clone();
        for im in impls.iter() {
            if let Some(t) = im.types.get(name) {
                if !tr.is_empty() && im.trait_.as_ref().map(|x| x.0.as_str()) != Some(tr) {
                    continue;
                }
                if let Some(b) = self.match_impl(im, st) {
                    let fr = Frame {
                        module: im.module.clone(),
                        file: im.file.clone(),
                        fn_name: String::new(),
                        self_ty: Some(st.clone()),
                        generics: Rc::new(b),
                        ret: None,
                        is_async: false,
                    };
                    return self.ty_of(&t.ty, &fr);
                }
            }
        }
        if let Ty::Atom(a) = st {
            return Ty::Atom(mark(&format!("{}::{}", show(a), name)));
        }
        if let Ty::Opaque(_, b) = st {
            if let Some((_, t)) = b.iter().find(|(n, _)| n == name) {
                return t.clone();
            }
        }
        if name == "Item" {
            match st {
                Ty::Ref(t, true) => return self.assoc_ty(t, tr, name),
                Ty::Adt(p, a) if !a.is_empty() => match p.rsplit("::").next().unwrap_or("") {
                    "Pin" | "Box" => return self.assoc_ty(&a[0], tr, name),
                    "BoxStream" | "LocalBoxStream" | "Receiver" | "UnboundedReceiver" => return a[a.len() - 1].clone(),
                    _ => {}
                },
                _ => {}
            }
        }
        Ty::Proj(Box::new(st.clone()), tr.to_string(), name.to_string())
    }

    /// does the impl apply to this type? generic bindings
    pub fn match_impl(&self, im: &ImplBlock, ty: &Ty) -> Option<HashMap<String, Ty>> {
        let (names, pat) = im.pat.get_or_init(|| {
            let names = gen_names(&im.generics);
            let g: HashMap<String, Ty> = names.iter().map(|n| (n.clone(), Ty::Atom(format!("\0{n}")))).collect();
            let fr = Frame {
                module: im.module.clone(),
                file: im.file.clone(),
                fn_name: String::new(),
                self_ty: None,
                generics: Rc::new(g),
                ret: None,
                is_async: false,
            };
            let pat = self.ty_of(&im.self_ty, &fr);
            (names, pat)
        });
        let mut b = HashMap::new();
        if unify(pat, ty, &mut b) {
            for n in names {
                b.entry(n.clone()).or_insert(Ty::Infer);
            }
            Some(b)
        } else {
            None
        }
    }

    /// approximate type of a value
    pub fn type_of(&self, v: &V) -> Ty {
        match v {
            V::Unit => Ty::Tuple(vec![]),
            V::Bool(_) => Ty::Adt("bool".into(), vec![]),
            V::Int(_) => Ty::Infer,
            V::Char(_) => Ty::Adt("char".into(), vec![]),
            V::Float(_) => Ty::Adt("f64".into(), vec![]),
            V::Str(_) => Ty::Adt("std::string::String".into(), vec![]),
            V::List(_) => Ty::Adt("std::vec::Vec".into(), vec![Ty::Infer]),
            V::Tuple(t) => Ty::Tuple(t.iter().map(|x| self.type_of(x)).collect()),
            V::Adt(a) => Ty::Adt(a.ty.clone(), vec![]),
            V::Sym(s) => {
                if s.ty.starts_with(SO) {
                    Ty::Atom(s.ty.clone())
                } else {
                    Ty::Adt(s.ty.clone(), vec![])
                }
            }
            V::Map(_, sorted) => Ty::Adt(if *sorted { "std::collections::BTreeMap".into() } else { "std::collections::HashMap".into() }, vec![]),
            V::Set(_, sorted) => Ty::Adt(if *sorted { "std::collections::BTreeSet".into() } else { "std::collections::HashSet".into() }, vec![]),
            V::Ref(p) => match self.read(p) {
                Ok(v) => self.type_of(&v),
                _ => Ty::Infer,
            },
            V::Toks(_) => Ty::Adt("proc_macro2::TokenStream".into(), vec![]),
            _ => Ty::Infer,
        }
    }

    // ------------------------------------------------------------------ truth, equality, text

    pub fn truth(&mut self, v: &V) -> R<bool> {
        match self.strip(v.clone())? {
            V::Bool(b) => Ok(b),
            V::Sym(s) => Ok(self.decide(&s.key, &["false", "true"])? == 1),
            o => top(format!("condition is {}", dbg(&o))),
        }
    }

    pub fn as_option(&mut self, v: &V) -> R<Option<V>> {
        match self.strip(v.clone())? {
            V::Adt(a) => match a.variant.as_deref() {
                Some("Some") | Some("Ok") => Ok(Some(a.fields[0].1.clone())),
                Some("None") | Some("Err") => Ok(None),
                _ => top("option expected"),
            },
            V::Sym(s) => {
                if let Some(r) = self.host.clone().sym_variant(self, &s, "std::option::Option::Some")? {
                    return Ok(r);
                }
                if self.decide(&format!("is_some({})", s.key), &["no", "yes"])? == 1 {
                    Ok(Some(symv(format!("{}.some", s.key), "")))
                } else {
                    Ok(None)
                }
            }
            o => top(format!("option expected, got {}", dbg(&o))),
        }
    }

    pub fn eq(&mut self, a: &V, b: &V) -> R<bool> {
        let a = self.strip(a.clone())?;
        let b = self.strip(b.clone())?;
        Ok(match (&a, &b) {
            (V::Unit, V::Unit) => true,
            (V::Bool(x), V::Bool(y)) => x == y,
            (V::Int(x), V::Int(y)) => x == y,
            (V::Char(x), V::Char(y)) => x == y,
            (V::Float(x), V::Float(y)) => x == y,
            (V::Sym(s), V::Bool(x)) | (V::Bool(x), V::Sym(s)) => (self.decide(&s.key, &["false", "true"])? == 1) == *x,
            (V::Str(x), V::Str(y)) => {
                if x == y {
                    true
                } else if has_sym(x) || has_sym(y) {
                    let px = parts(x);
                    let py = parts(y);
                    // two different names of the schematic input are different
                    if let ([Part::Sym(_)], [Part::Sym(_)]) = (&px[..], &py[..]) {
                        return Ok(false);
                    }
                    if strs_differ(&px, &py) {
                        return Ok(false);
                    }
                    self.decide(&format!("eq({}, {})", show(x), show(y)), &["no", "yes"])? == 1
                } else {
                    false
                }
            }
            (V::Toks(x), V::Str(y)) | (V::Str(y), V::Toks(x)) => {
                let t = toks_text(x);
                return self.eq(&s(t), &V::Str(y.clone()));
            }
            (V::Toks(x), V::Toks(y)) => {
                let (p, q) = (toks_text(x), toks_text(y));
                return self.eq(&s(p), &s(q));
            }
            (V::List(x), V::List(y)) | (V::Tuple(x), V::Tuple(y)) | (V::Set(x, _), V::Set(y, _)) => {
                if x.len() != y.len() {
                    return Ok(false);
                }
                for (p, q) in x.iter().zip(y.iter()) {
                    if !self.eq(p, q)? {
                        return Ok(false);
                    }
                }
                true
            }
            (V::Adt(x), V::Adt(y)) => {
                if x.ty == y.ty || x.ty.rsplit("::").next() == y.ty.rsplit("::").next() {
                    if x.variant != y.variant || x.fields.len() != y.fields.len() {
                        return Ok(false);
                    }
                    for (p, q) in x.fields.iter().zip(y.fields.iter()) {
                        if !self.eq(&p.1, &q.1)? {
                            return Ok(false);
                        }
                    }
                    true
                } else {
                    return top("comparison of different types");
                }
            }
            (V::Sym(x), V::Sym(y)) => {
                if x.key == y.key {
                    true
                } else {
                    let (p, q) = if x.key < y.key { (&x.key, &y.key) } else { (&y.key, &x.key) };
                    self.decide_eq(p, q, false)?
                }
            }
            (V::Sym(x), o) | (o, V::Sym(x)) => self.decide_eq(&x.key, &dbg(o), matches!(o, V::Int(_) | V::Bool(_)))?,
            (V::Cell(x), V::Cell(y)) => {
                let (p, q) = (x.borrow().clone(), y.borrow().clone());
                return self.eq(&p, &q);
            }
            _ => return top(format!("comparison of {} and {}", a.kind(), b.kind())),
        })
    }

    pub fn cmp(&mut self, a: &V, b: &V) -> R<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        let a = self.strip(a.clone())?;
        let b = self.strip(b.clone())?;
        match (&a, &b) {
            (V::Int(x), V::Int(y)) => Ok(x.cmp(y)),
            (V::Char(x), V::Char(y)) => Ok(x.cmp(y)),
            (V::Bool(x), V::Bool(y)) => Ok(x.cmp(y)),
            (V::Str(x), V::Str(y)) if !has_sym(x) && !has_sym(y) => Ok(x.cmp(y)),
            (V::Tuple(x), V::Tuple(y)) | (V::List(x), V::List(y)) => {
                for (p, q) in x.iter().zip(y.iter()) {
                    let o = self.cmp(p, q)?;
                    if o != Equal {
                        return Ok(o);
                    }
                }
                Ok(x.len().cmp(&y.len()))
            }
            _ => {
                let (x, y) = (dbg(&a), dbg(&b));
                if x == y {
                    return Ok(Equal);
                }
                match (len_diff(&a, &b), len_diff(&b, &a)) {
                    (Some((n, true)), _) => return Ok(n.cmp(&0)),
                    (Some((n, _)), _) if n > 0 => return Ok(Greater),
                    (_, Some((n, _))) if n > 0 => return Ok(Less),
                    _ => {}
                }
                let (p, q, flip) = if x < y { (x, y, false) } else { (y, x, true) };
                let is_str = matches!(a, V::Str(_));
                let labels: &[&str] = if is_str { &["less", "greater"] } else { &["less", "equal", "greater"] };
                let c = self.decide(&format!("cmp({p}, {q})"), labels)?;
                let o = match (labels[c], flip) {
                    ("less", false) | ("greater", true) => Less,
                    ("greater", false) | ("less", true) => Greater,
                    _ => Equal,
                };
                Ok(o)
            }
        }
    }

    /// `Display`
    pub fn display(&mut self, v: &V) -> R<String> {
        let v = self.strip(v.clone())?;
        Ok(match &v {
            V::Str(x) => x.to_string(),
            V::Int(i) => i.to_string(),
            V::Bool(b) => b.to_string(),
            V::Char(c) => c.to_string(),
            V::Float(f) => f.to_string(),
            V::Toks(t) => toks_text(t),
            V::Cell(c) => {
                let x = c.borrow().clone();
                self.display(&x)?
            }
            V::Sym(x) => {
                if x.ty == "@default" {
                    String::new()
                } else if let Some(k) = x.key.strip_prefix("char of ") {
                    mark(k)
                } else {
                    mark(&x.key)
                }
            }
            V::Adt(a) => {
                let ty = self.type_of(&v);
                if let Some(f) = self.find_assoc(&ty, "fmt", Some("std::fmt::Display"))? {
                    return self.run_fmt(f, v.clone());
                }
                if a.ty.ends_with("::Display") || a.ty == "@disp" {
                    if let Some(x) = a.fields.first() {
                        let x = x.1.clone();
                        return self.display(&x);
                    }
                }
                if let Some(b) = a.fields.iter().find(|(k, _)| k == "@text") {
                    let x = b.1.clone();
                    return self.display(&x);
                }
                let t = crate::toks::to_toks(self, &v)?;
                toks_text(&t)
            }
            // strings collected into a type that only inference knows: a collection has no `Display`
            V::List(l) if l.iter().all(|x| matches!(x, V::Str(_) | V::Char(_))) => {
                let mut t = String::new();
                for x in l.iter() {
                    t += &self.display(x)?;
                }
                t
            }
            o => return top(format!("display of {}", dbg(o))),
        })
    }

    fn run_fmt(&mut self, f: FnRef, v: V) -> R<String> {
        let cell = self.temp(adt("@Formatter", None, vec![("buf", s(""))]));
        self.call_fn(&f, vec![v, V::Ref(cell.clone())], "fmt")?;
        let r = self.read(&cell)?;
        Ok(r.field("buf").and_then(|b| b.as_str()).map(|x| x.to_string()).unwrap_or_default())
    }

    /// `Debug`
    pub fn debug(&mut self, v: &V) -> R<String> {
        let v = self.strip(v.clone())?;
        Ok(match &v {
            V::Str(x) => {
                let mut out = String::from("\"");
                for p in parts(x) {
                    match p {
                        Part::Lit(l) => {
                            let d = format!("{l:?}");
                            out.push_str(&d[1..d.len() - 1]);
                        }
                        Part::Sym(k) => out.push_str(&mark(&format!("esc({k})"))),
                    }
                }
                out.push('"');
                out
            }
            V::Char(c) => format!("{c:?}"),
            V::Int(_) | V::Bool(_) | V::Float(_) => self.display(&v)?,
            V::Unit => "()".into(),
            V::List(l) => {
                let mut o = vec![];
                for x in l.iter() {
                    o.push(self.debug(x)?);
                }
                format!("[{}]", o.join(", "))
            }
            V::Tuple(l) => {
                let mut o = vec![];
                for x in l.iter() {
                    o.push(self.debug(x)?);
                }
                format!("({})", o.join(", "))
            }
            V::Adt(_) => {
                let ty = self.type_of(&v);
                if let Some(f) = self.find_assoc(&ty, "fmt", Some("std::fmt::Debug"))? {
                    return self.run_fmt(f, v.clone());
                }
                mark(&format!("debug({})", dbg(&v)))
            }
            o => mark(&format!("debug({})", dbg(o))),
        })
    }

    pub fn fmt_string(&mut self, f: &str, pos: &[V], named: &[(String, V)], env: Option<(&Env, &Rc<Frame>)>) -> R<String> {
        let mut out = String::new();
        let cs: Vec<char> = f.chars().collect();
        let mut i = 0;
        let mut next = 0;
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => {
                    out.push('{');
                    i += 2;
                }
                '}' if cs.get(i + 1) == Some(&'}') => {
                    out.push('}');
                    i += 2;
                }
                '{' => {
                    let mut j = i + 1;
                    while j < cs.len() && cs[j] != '}' {
                        j += 1;
                    }
                    let spec: String = cs[i + 1..j].iter().collect();
                    let (name, fl) = match spec.split_once(':') {
                        Some((a, b)) => (a.trim().to_string(), b.to_string()),
                        None => (spec.trim().to_string(), String::new()),
                    };
                    let v = if name.is_empty() {
                        next += 1;
                        match pos.get(next - 1) {
                            Some(v) => v.clone(),
                            None => return top("format argument"),
                        }
                    } else if let Ok(k) = name.parse::<usize>() {
                        match pos.get(k) {
                            Some(v) => v.clone(),
                            None => return top("format argument"),
                        }
                    } else if let Some((_, v)) = named.iter().find(|(k, _)| *k == name) {
                        v.clone()
                    } else if let Some((e, fr)) = env {
                        match lookup(e, &name) {
                            Some(c) => c.borrow().clone(),
                            None => {
                                let id = syn::parse_str::<syn::Expr>(&name).map_err(|_| Ctl::Top("format name".into()))?;
                                self.eval(&id, e, fr, None)?
                            }
                        }
                    } else {
                        return top(format!("format name {name}"));
                    };
                    let t = if fl.contains('?') { self.debug(&v)? } else { self.display(&v)? };
                    if !fl.is_empty() && fl.chars().any(|c| c.is_ascii_digit() || "<>^xXob".contains(c)) {
                        if has_sym(&t) {
                            return top("width in format string");
                        }
                        let zero = fl.starts_with('0');
                        let w: usize = fl.trim_start_matches(['<', '>', '^', '0']).chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0);
                        let t2 = match (fl.chars().last(), t.parse::<i128>()) {
                            (Some('x'), Ok(n)) => format!("{n:x}"),
                            (Some('X'), Ok(n)) => format!("{n:X}"),
                            (Some('b'), Ok(n)) => format!("{n:b}"),
                            (Some('o'), Ok(n)) => format!("{n:o}"),
                            _ => t.clone(),
                        };
                        let pad = w.saturating_sub(t2.chars().count());
                        let num = t.parse::<i128>().is_ok();
                        if zero {
                            out.push_str(&"0".repeat(pad));
                            out.push_str(&t2);
                        } else if fl.starts_with('>') || (num && !fl.starts_with('<')) {
                            out.push_str(&" ".repeat(pad));
                            out.push_str(&t2);
                        } else {
                            out.push_str(&t2);
                            out.push_str(&" ".repeat(pad));
                        }
                    } else {
                        out.push_str(&t);
                    }
                    i = j + 1;
                }
                c => {
                    out.push(c);
                    i += 1;
                }
            }
        }
        Ok(out)
    }

    // ------------------------------------------------------------------ functions

    /// find `name` among the inherent and trait implementations of the type
    pub fn find_assoc(&mut self, ty: &Ty, name: &str, tr: Option<&str>) -> R<Option<FnRef>> {
        let st = ty.clone();
        if matches!(st, Ty::Infer) {
            return Ok(None);
        }
        let impls = self.prog.borrow().impls.clone();
        for pass in 0..2 {
            for im in impls.iter() {
                // inherent first
                if (pass == 0) != im.trait_.is_none() {
                    continue;
                }
                if let Some(t) = tr {
                    match &im.trait_ {
                        Some(x) if same_trait(&x.0, t) => {}
                        _ => continue,
                    }
                }
                let has = im.fns.contains_key(name);
                let default = if has {
                    None
                } else {
                    match &im.trait_ {
                        Some((t, _)) => match self.prog.borrow().defs.get(t) {
                            Some(Def::Trait(td)) => td.fns.get(name).filter(|f| f.block.is_some()).cloned(),
                            _ => None,
                        },
                        None => None,
                    }
                };
                if !has && default.is_none() {
                    continue;
                }
                // blanket impls (`impl<T> Tr for T`) only on explicit trait
                if let Some(mut b) = self.match_impl(im, &st) {
                    if let syn::Type::Path(p) = &im.self_ty {
                        if p.path.get_ident().map(|i| b.contains_key(&i.to_string())).unwrap_or(false) && matches!(st, Ty::Atom(_)) {
                            continue;
                        }
                    }
                    if let Some((_, targs)) = &im.trait_ {
                        let _ = targs;
                    }
                    if default.is_some() {
                        b.insert("Self".into(), st.clone());
                    }
                    let decl = match default {
                        Some(d) => d,
                        None => im.fns[name].clone(),
                    };
                    return Ok(Some(FnRef {
                        name: format!("{}::{}", st.show(), name),
                        decl: Some(decl),
                        self_ty: Some(st.clone()),
                        generics: Rc::new(b),
                        targs: vec![],
                        trait_: im.trait_.as_ref().map(|t| t.0.clone()),
                    }));
                }
            }
        }
        Ok(None)
    }

    pub fn call_fn(&mut self, f: &FnRef, args: Vec<V>, site: &str) -> R<V> {
        self.tick()?;
        let decl = match &f.decl {
            Some(d) => d.clone(),
            None => return top(format!("no body for {}", f.name)),
        };
        let full = match &f.self_ty {
            Some(t) => format!("{}::{}", t.show(), decl.name),
            None => format!("{}::{}", decl.module, decl.name),
        };
        if let Some(v) = self.host.clone().call(self, &full, &f.targs, &args, site)? {
            return Ok(v);
        }
        self.visited.insert(format!("{}::{}", decl.file, full));
        if self.depth > 48 {
            return top(format!("recursion through {full}"));
        }
        let block = match &decl.block {
            Some(b) => b.clone(),
            None => return top(format!("{full} has no body")),
        };
        let mut g: HashMap<String, Ty> = (*f.generics).clone();
        // explicit and inferred generic arguments of the function itself
        let names = gen_names(&decl.sig.generics);
        for (i, n) in names.iter().enumerate() {
            if let Some(t) = f.targs.get(i) {
                g.insert(n.clone(), t.clone());
            } else if !g.contains_key(n) || f.targs.is_empty() {
                let mut found = Ty::Infer;
                let tmp = Frame {
                    module: decl.module.clone(),
                    file: decl.file.clone(),
                    fn_name: decl.name.clone(),
                    self_ty: f.self_ty.clone(),
                    generics: Rc::new(names.iter().map(|n| (n.clone(), Ty::Atom(format!("\0{n}")))).collect()),
                    ret: None,
                    is_async: false,
                };
                for (inp, a) in decl.sig.inputs.iter().zip(args.iter()) {
                    if let syn::FnArg::Typed(t) = inp {
                        if let syn::Type::ImplTrait(it) = &*t.ty {
                            // impl Fn(..) -> S
                            for b in &it.bounds {
                                if let syn::TypeParamBound::Trait(tb) = b {
                                    if let syn::PathArguments::Parenthesized(p) = &tb.path.segments.last().unwrap().arguments {
                                        if let syn::ReturnType::Type(_, rt) = &p.output {
                                            let pat = self.ty_of(rt, &tmp);
                                            let rt = self.ret_ty_of(a);
                                            let mut b = HashMap::new();
                                            if unify(&pat, &rt, &mut b) {
                                                if let Some(t) = b.get(n) {
                                                    found = t.clone();
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        } else {
                            let pat = self.ty_of(&t.ty, &tmp);
                            let at = self.type_of(a);
                            let mut b = HashMap::new();
                            let pat2 = pat.strip_ref().clone();
                            if unify(&pat2, &at, &mut b) {
                                if let Some(t) = b.get(n) {
                                    if !matches!(t, Ty::Infer) {
                                        found = t.clone();
                                    }
                                }
                            }
                        }
                    }
                }
                g.insert(n.clone(), found);
            }
        }
        let mut fr = Frame {
            module: decl.module.clone(),
            file: decl.file.clone(),
            fn_name: decl.name.clone(),
            self_ty: f.self_ty.clone(),
            generics: Rc::new(g),
            ret: None,
            is_async: decl.sig.asyncness.is_some(),
        };
        if let syn::ReturnType::Type(_, t) = &decl.sig.output {
            fr.ret = Some(self.ty_of(t, &fr));
        }
        let fr = Rc::new(fr);
        let env = new_env(None);
        if decl.sig.inputs.len() != args.len() {
            return top(format!("{full}: {} arguments for {} parameters", args.len(), decl.sig.inputs.len()));
        }
        for (inp, a) in decl.sig.inputs.iter().zip(args.into_iter()) {
            match inp {
                syn::FnArg::Receiver(_) => bind(&env, "self", a),
                syn::FnArg::Typed(t) => {
                    let ty = self.ty_of(&t.ty, &fr);
                    let a = self.coerce(a, &ty)?;
                    if !self.bind_pat(&t.pat, a, &env, &fr)? {
                        return top("parameter pattern");
                    }
                }
            }
        }
        if decl.sig.asyncness.is_some() {
            return Ok(V::Fut(Rc::new(RefCell::new(Some(Thunk { body: ThunkBody::Block(block), env, frame: fr })))));
        }
        self.stack.push((full.clone(), f.self_ty.clone()));
        self.depth += 1;
        let r = self.run_body(&block, &env, &fr);
        self.depth -= 1;
        self.stack.pop();
        r
    }

    pub fn ret_ty_of(&mut self, f: &V) -> Ty {
        match f {
            V::Fn(fr) => {
                if let Some(d) = &fr.decl {
                    if let syn::ReturnType::Type(_, t) = &d.sig.output {
                        let frame = Frame {
                            module: d.module.clone(),
                            file: d.file.clone(),
                            fn_name: d.name.clone(),
                            self_ty: fr.self_ty.clone(),
                            generics: fr.generics.clone(),
                            ret: None,
                            is_async: false,
                        };
                        return self.ty_of(t, &frame);
                    }
                    return Ty::Tuple(vec![]);
                }
                Ty::Infer
            }
            V::Sym(s) if s.ty.starts_with("fn->") => Ty::Atom(s.ty[4..].to_string()),
            _ => Ty::Infer,
        }
    }

    pub fn run_body(&mut self, b: &syn::Block, env: &Env, fr: &Rc<Frame>) -> R<V> {
        let ret = fr.ret.clone();
        match self.block(b, env, fr, ret.as_ref()) {
            Ok(v) => match &ret {
                Some(t) => self.coerce(v, t),
                None => Ok(v),
            },
            Err(Ctl::Return(v)) => match &ret {
                Some(t) => self.coerce(v, t),
                None => Ok(v),
            },
            Err(e) => Err(e),
        }
    }

    /// a spawned task
    pub fn run_task(&mut self, id: usize, fut: V, site: &str) -> R<()> {
        let old = self.task;
        self.task = id;
        let r = self.await_(fut, site);
        self.effect("task_end", vec![V::Int(id as i128)], site);
        self.task = old;
        match r {
            Ok(_) => {}
            Err(Ctl::Panic(m)) => self.effect("task_panic", vec![V::Int(id as i128), s(m)], site),
            Err(e) => return Err(e),
        }
        Ok(())
    }

    /// closed world: everything that was spawned runs
    pub fn run_deferred(&mut self) -> R<()> {
        while !self.deferred.is_empty() {
            let (id, f, site) = self.deferred.remove(0);
            self.run_task(id, f, &site)?;
        }
        Ok(())
    }

    pub fn await_(&mut self, v: V, site: &str) -> R<V> {
        let v = self.strip(v)?;
        match v {
            V::Fut(f) => {
                let th = f.borrow_mut().take();
                match th {
                    Some(th) => match &th.body {
                        ThunkBody::Block(b) => {
                            self.depth += 1;
                            if self.depth > 64 {
                                return top("await depth");
                            }
                            let r = self.run_body(b, &th.env, &th.frame);
                            self.depth -= 1;
                            r
                        }
                        ThunkBody::Ready(v) => Ok(v.clone()),
                        ThunkBody::Sym(k, t) => {
                            self.effect("await", vec![symv(k, t)], site);
                            Ok(symv(format!("{k}.await"), t))
                        }
                    },
                    None => top("future awaited twice"),
                }
            }
            V::Sym(x) => {
                if let Some(v) = self.host.clone().sym_method(self, &x, ".await", &[], site)? {
                    return Ok(v);
                }
                self.effect("await", vec![V::Sym(x.clone())], site);
                Ok(symv(format!("{}.await", x.key), ""))
            }
            V::Adt(a) => {
                if let Some((_, v)) = a.fields.iter().find(|(k, _)| k == "@future") {
                    let v = v.clone();
                    return self.await_(v, site);
                }
                top(format!("await of {}", a.ty))
            }
            o => top(format!("await of {}", dbg(&o))),
        }
    }

    pub fn call_value(&mut self, f: &V, args: Vec<V>) -> R<V> {
        self.tick()?;
        let f = self.strip(f.clone())?;
        match &f {
            V::Closure(c) => {
                let env = new_env(Some(c.env.clone()));
                if c.ast.inputs.len() != args.len() {
                    return top("closure arity");
                }
                for (p, a) in c.ast.inputs.iter().zip(args) {
                    if !self.bind_pat(p, a, &env, &c.frame)? {
                        return top("closure pattern");
                    }
                }
                self.depth += 1;
                if self.depth > 64 {
                    self.depth -= 1;
                    return top("closure depth");
                }
                let mut fr = (*c.frame).clone();
                fr.ret = match &c.ast.output {
                    syn::ReturnType::Type(_, t) => Some(self.ty_of(t, &c.frame)),
                    _ => None,
                };
                let fr = Rc::new(fr);
                let ret = fr.ret.clone();
                let r = if c.ast.asyncness.is_some() {
                    let b: syn::Block = match &*c.ast.body {
                        syn::Expr::Block(b) => b.block.clone(),
                        e => syn::parse_quote!({ #e }),
                    };
                    Ok(V::Fut(Rc::new(RefCell::new(Some(Thunk { body: ThunkBody::Block(Rc::new(b)), env, frame: fr })))))
                } else {
                    match self.eval(&c.ast.body, &env, &fr, ret.as_ref()) {
                        Err(Ctl::Return(v)) => Ok(v),
                        r => r,
                    }
                };
                self.depth -= 1;
                r
            }
            V::Fn(fr) => self.call_fnref(fr, args, None, ""),
            V::Sym(x) => {
                if let Some(v) = self.host.clone().sym_method(self, x, "()", &args, "")? {
                    return Ok(v);
                }
                let a = args.iter().map(dbg).collect::<Vec<_>>().join(", ");
                Ok(symv(format!("{}({a})", x.key), ""))
            }
            V::Cell(c) => {
                let v = c.borrow().clone();
                self.call_value(&v, args)
            }
            o => top(format!("call of {}", dbg(o))),
        }
    }

    pub fn call_fnref(&mut self, f: &FnRef, args: Vec<V>, hint: Option<&Ty>, site: &str) -> R<V> {
        if f.decl.is_some() {
            return self.call_fn(f, args, site);
        }
        // constructor or library path
        if let Some(v) = self.construct(&f.name, &args)? {
            return Ok(v);
        }
        if let Some(st) = &f.self_ty {
            let last = f.name.rsplit("::").next().unwrap_or("").to_string();
            return self.assoc(&st.clone(), f.trait_.clone().as_deref(), &last, &f.targs.clone(), args, hint, site);
        }
        crate::models::call_path(self, &f.name, &f.targs, args, hint, site)
    }

    /// tuple struct / variant constructors of the program and of the library
    pub fn construct(&mut self, path: &str, args: &[V]) -> R<Option<V>> {
        match path {
            "std::option::Option::Some" => return Ok(Some(some(args[0].clone()))),
            "std::result::Result::Ok" => return Ok(Some(ok(args[0].clone()))),
            "std::result::Result::Err" => return Ok(Some(err(args[0].clone()))),
            _ => {}
        }
        let d = self.prog.borrow().defs.get(path).cloned();
        if let Some(Def::Struct(st, m)) = d {
            if let syn::Fields::Unnamed(u) = &st.fields {
                let fr = self.mod_frame(&m);
                let mut fs = vec![];
                for (i, (a, f)) in args.iter().zip(u.unnamed.iter()).enumerate() {
                    let t = self.ty_of(&f.ty, &fr);
                    fs.push((i.to_string(), self.coerce(a.clone(), &t)?));
                }
                return Ok(Some(V::Adt(Rc::new(AdtV { ty: path.into(), variant: None, fields: fs }))));
            }
        }
        if let Some((en, va)) = path.rsplit_once("::") {
            let d = self.prog.borrow().defs.get(en).cloned();
            if let Some(Def::Enum(e, m)) = d {
                if let Some(v) = e.variants.iter().find(|v| decode_ident(&v.ident.to_string()) == va) {
                    let fr = self.mod_frame(&m);
                    let mut fs = vec![];
                    for (i, (a, f)) in args.iter().zip(v.fields.iter()).enumerate() {
                        let t = self.ty_of(&f.ty, &fr);
                        fs.push((i.to_string(), self.coerce(a.clone(), &t)?));
                    }
                    return Ok(Some(V::Adt(Rc::new(AdtV { ty: en.into(), variant: Some(va.into()), fields: fs }))));
                }
            }
        }
        Ok(None)
    }

    pub fn mod_frame(&self, m: &str) -> Frame {
        let file = self.prog.borrow().modules.get(m).map(|x| x.file.clone()).unwrap_or_default();
        Frame { module: m.into(), file, fn_name: String::new(), self_ty: None, generics: Default::default(), ret: None, is_async: false }
    }

    /// `Type::name(args)` / `<Type as Trait>::name(args)`
    pub fn assoc(&mut self, ty: &Ty, tr: Option<&str>, name: &str, targs: &[Ty], args: Vec<V>, hint: Option<&Ty>, site: &str) -> R<V> {
        self.tick()?;
        if let Some(v) = self.host.clone().assoc_call(self, ty, tr, name, &args, site)? {
            return Ok(v);
        }
        if let Some(mut f) = self.find_assoc(ty, name, tr)? {
            f.targs = targs.to_vec();
            return self.call_fn(&f, args, site);
        }
        // derived Default
        if name == "default" && args.is_empty() {
            return self.default_of(ty);
        }
        // method in function syntax: Trait::method(recv, ..) / Type::method(recv, ..)
        if !args.is_empty() {
            if let Some(v) = crate::models::assoc_path(self, ty, name, targs, &args, hint, site)? {
                return Ok(v);
            }
            let recv = args[0].clone();
            return self.method_site(recv, name, args[1..].to_vec(), targs, hint, site);
        }
        if let Some(v) = crate::models::assoc_path(self, ty, name, targs, &args, hint, site)? {
            return Ok(v);
        }
        top(format!("{}::{name}", ty.show()))
    }

    pub fn default_of(&mut self, ty: &Ty) -> R<V> {
        Ok(match ty {
            Ty::Adt(p, _) => match p.as_str() {
                "std::string::String" | "str" => s(""),
                "bool" => V::Bool(false),
                "char" => V::Char('\0'),
                "f32" | "f64" => V::Float(0.0),
                x if PRIMS.contains(&x) => V::Int(0),
                _ => {
                    if let Some(f) = self.find_assoc(ty, "default", Some("std::default::Default"))? {
                        return self.call_fn(&f, vec![], "default");
                    }
                    let d = self.prog.borrow().defs.get(p).cloned();
                    match d {
                        Some(Def::Struct(st, m)) => {
                            let fr = self.mod_frame(&m);
                            let mut fs = vec![];
                            for (i, f) in st.fields.iter().enumerate() {
                                let t = self.ty_of(&f.ty, &fr);
                                let v = self.default_of(&t)?;
                                fs.push((f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), v));
                            }
                            V::Adt(Rc::new(AdtV { ty: p.clone(), variant: None, fields: fs }))
                        }
                        Some(Def::Enum(e, _)) => {
                            match e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))) {
                                Some(v) => V::Adt(Rc::new(AdtV { ty: p.clone(), variant: Some(v.ident.to_string()), fields: vec![] })),
                                None => return top("default of enum"),
                            }
                        }
                        _ => match ty.last() {
                            "Vec" | "VecDeque" | "Punctuated" => list(vec![]),
                            "HashMap" | "IndexMap" => V::Map(Rc::new(vec![]), false),
                            "BTreeMap" => V::Map(Rc::new(vec![]), true),
                            "HashSet" => V::Set(Rc::new(vec![]), false),
                            "BTreeSet" => V::Set(Rc::new(vec![]), true),
                            "Option" => none(),
                            "TokenStream" => toks(vec![]),
                            "PhantomData" => V::Unit,
                            "AtomicUsize" | "AtomicU64" | "AtomicU32" => V::Cell(Rc::new(RefCell::new(V::Int(0)))),
                            "AtomicBool" => V::Cell(Rc::new(RefCell::new(V::Bool(false)))),
                            "Rc" | "Arc" | "RefCell" | "Cell" | "Mutex" | "RwLock" => {
                                let inner = ty.args().first().cloned().unwrap_or(Ty::Infer);
                                let v = self.default_of(&inner)?;
                                V::Cell(Rc::new(RefCell::new(v)))
                            }
                            "Box" => {
                                let inner = ty.args().first().cloned().unwrap_or(Ty::Infer);
                                return self.default_of(&inner);
                            }
                            _ => symv(format!("default of {p}"), "@default"),
                        },
                    }
                }
            },
            Ty::Tuple(t) if t.is_empty() => V::Unit,
            Ty::Tuple(t) => {
                let mut o = vec![];
                for x in t {
                    o.push(self.default_of(x)?);
                }
                tuple(o)
            }
            Ty::Ref(t, _) => return self.default_of(t),
            _ => symv("default", "@default"),
        })
    }

    /// adjust a value to a declared type (lazily typed collections, defaults, futures)
    pub fn coerce(&mut self, v: V, ty: &Ty) -> R<V> {
        if let (V::Sym(x), Ty::Adt(_, a)) = (&v, ty) {
            if x.key.starts_with("chan#") && a.len() == 1 && !matches!(a[0], Ty::Infer) {
                if let Some((k, _)) = x.key.rsplit_once('.') {
                    self.chan_ty.insert(k.to_string(), a[0].show());
                }
            }
        }
        Ok(match (&v, ty) {
            (V::Sym(x), _) if x.ty == "@default" && !matches!(ty, Ty::Infer | Ty::Opaque(..)) => {
                let t = ty.strip_ref().clone();
                self.default_of(&t)?
            }
            (V::List(l), Ty::Adt(..)) => match ty.last() {
                "String" => {
                    let mut o = String::new();
                    for x in l.iter() {
                        o.push_str(&self.display(x)?);
                    }
                    s(o)
                }
                "TokenStream" => {
                    let mut o = vec![];
                    for x in l.iter() {
                        o.extend(crate::toks::to_toks(self, x)?);
                    }
                    toks(o)
                }
                "HashMap" | "BTreeMap" | "HashSet" | "BTreeSet" => crate::models::collect(self, It::buf(l.to_vec()), Some(ty))?,
                "Result" | "Option" => {
                    if l.iter().all(|x| matches!(x, V::Adt(a) if a.ty.ends_with("::Result") || a.ty.ends_with("::Option"))) {
                        crate::models::collect(self, It::buf(l.to_vec()), Some(ty))?
                    } else {
                        v
                    }
                }
                _ => v,
            },
            (V::Iter(_), Ty::Adt(..)) if ty.last() == "Vec" => {
                let it = self.into_it(v)?;
                crate::models::collect(self, it, Some(ty))?
            }
            _ => v,
        })
    }

    pub fn into_it(&mut self, v: V) -> R<It> {
        match v {
            V::Ref(p) => {
                let inner = self.read(&p)?;
                match inner {
                    V::List(l) => {
                        let mut o = vec![];
                        for i in 0..l.len() {
                            let mut pr = p.proj.clone();
                            pr.push(Proj::Idx(i));
                            o.push(V::Ref(Place { cell: p.cell.clone(), proj: pr }));
                        }
                        Ok(It::buf(o))
                    }
                    V::Map(m, _) => {
                        let mut o = vec![];
                        for (i, (k, _)) in m.iter().enumerate() {
                            let mut pr = p.proj.clone();
                            pr.push(Proj::MapVal(i));
                            o.push(tuple(vec![k.clone(), V::Ref(Place { cell: p.cell.clone(), proj: pr })]));
                        }
                        Ok(It::buf(o))
                    }
                    V::Adt(a) if a.ty != "std::option::Option" => {
                        let ty = Ty::Adt(a.ty.clone(), vec![]);
                        if self.find_assoc(&ty, "next", Some("std::iter::Iterator"))?.is_some() {
                            return Ok(It::User(p));
                        }
                        self.into_it(V::Adt(a))
                    }
                    o => self.into_it(o),
                }
            }
            V::List(l) | V::Set(l, _) => Ok(It::buf(l.to_vec())),
            V::Map(m, _) => Ok(It::buf(m.iter().map(|(k, v)| tuple(vec![k.clone(), v.clone()])).collect())),
            V::Iter(rc) => Ok(It::Shared(rc)),
            V::Range(a, b, _) if is_bound(a, b) => top("iteration up to a length that is not known".to_string()),
            V::Range(a, b, inc) => Ok(It::Range(a.unwrap_or(0), b.map(|b| if inc { b + 1 } else { b }))),
            V::Adt(a) if a.ty == "std::option::Option" || a.ty == "std::result::Result" => Ok(It::buf(match a.variant.as_deref() {
                Some("Some") | Some("Ok") => vec![a.fields[0].1.clone()],
                _ => vec![],
            })),
            V::Adt(a) => {
                let ty = Ty::Adt(a.ty.clone(), vec![]);
                if self.find_assoc(&ty, "next", Some("std::iter::Iterator"))?.is_some() {
                    let p = self.temp(V::Adt(a));
                    return Ok(It::User(p));
                }
                if let Some(f) = self.find_assoc(&ty, "into_iter", None)? {
                    let v = self.call_fn(&f, vec![V::Adt(a)], "into_iter")?;
                    return self.into_it(v);
                }
                // darling Fields / syn Punctuated and friends: a single list field
                if let Some((_, l)) = a.fields.iter().find(|(k, _)| k == "fields" || k == "inner" || k == "named" || k == "unnamed" || k == "elems") {
                    let l = l.clone();
                    if matches!(l, V::List(_) | V::Map(..)) {
                        return self.into_it(l);
                    }
                }
                top(format!("iteration over {}", a.ty))
            }
            V::Cell(c) => {
                let v = c.borrow().clone();
                self.into_it(v)
            }
            V::Toks(t) => {
                let mut o = vec![];
                for x in t.iter() {
                    o.push(toks(vec![x.clone()]));
                }
                Ok(It::buf(o))
            }
            V::Sym(x) => {
                let host = self.host.clone();
                if let Some(v) = host.sym_method(self, &x, "into_iter", &[], "")? {
                    return self.into_it(v);
                }
                Ok(It::Open(x.key.clone(), String::new(), 0, 2))
            }
            o => top(format!("iteration over {}", dbg(&o))),
        }
    }

    // ------------------------------------------------------------------ paths

    pub fn site(&self, fr: &Frame, sp: proc_macro2::Span) -> String {
        format!("{}:{} in {}", fr.file, sp.start().line, if fr.fn_name.is_empty() { "item" } else { &fr.fn_name })
    }

    pub fn targs_of(&mut self, a: &syn::PathArguments, fr: &Frame) -> Vec<Ty> {
        match a {
            syn::PathArguments::AngleBracketed(a) => a
                .args
                .iter()
                .filter_map(|x| match x {
                    syn::GenericArgument::Type(t) => Some(self.ty_of(t, fr)),
                    _ => None,
                })
                .collect(),
            _ => vec![],
        }
    }

    fn eval_path(&mut self, p: &syn::ExprPath, env: &Env, fr: &Rc<Frame>, hint: Option<&Ty>) -> R<V> {
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.leading_colon.is_none() {
            let n = decode_ident(&p.path.segments[0].ident.to_string());
            if let Some(c) = lookup(env, &n) {
                return Ok(c.try_borrow().map_err(|_| Ctl::Top("busy variable".into()))?.clone());
            }
        }
        let f = self.path_fn(p, fr)?;
        self.path_value(f, hint, fr)
    }

    /// what an expression path names: a function reference; constants are recognised by `path_value`
    pub fn path_fn(&mut self, p: &syn::ExprPath, fr: &Rc<Frame>) -> R<FnRef> {
        let segs = path_segs(&p.path);
        let lead = p.path.leading_colon.is_some();
        let targs = self.targs_of(&p.path.segments.last().unwrap().arguments, fr);
        if let Some(q) = &p.qself {
            let ty = self.ty_of(&q.ty, fr);
            let tr: Vec<String> = segs.iter().take(q.position).cloned().collect();
            let trait_ = if tr.is_empty() { None } else { Some(self.prog.borrow().resolve(&fr.module, &tr, lead)) };
            if segs.len() - q.position == 2 {
                // <T>::Assoc::name or <T as Trait>::Assoc::name
                let at = self.assoc_ty(&ty, trait_.as_deref().unwrap_or(""), &segs[q.position]);
                return Ok(FnRef { name: format!("@::{}", segs.last().unwrap()), decl: None, self_ty: Some(at), generics: Default::default(), targs, trait_: None });
            }
            return Ok(FnRef { name: format!("@::{}", segs.last().unwrap()), decl: None, self_ty: Some(ty), generics: Default::default(), targs, trait_ });
        }
        // type-relative path: generic parameter, Self, primitive
        if segs.len() >= 2 && !lead {
            let base = if segs[0] == "Self" {
                fr.self_ty.clone()
            } else if let Some(t) = fr.generics.get(&segs[0]) {
                Some(t.clone())
            } else {
                ty_prim(&segs[0])
            };
            if let Some(mut b) = base {
                for mid in &segs[1..segs.len() - 1] {
                    b = self.assoc_ty(&b, "", mid);
                }
                return Ok(FnRef { name: format!("@::{}", segs.last().unwrap()), decl: None, self_ty: Some(b), generics: Default::default(), targs, trait_: None });
            }
        }
        if segs.len() == 1 && segs[0] == "Self" {
            // constructor
            if let Some(Ty::Adt(path, _)) = &fr.self_ty {
                return Ok(FnRef { name: path.clone(), decl: None, self_ty: None, generics: Default::default(), targs, trait_: None });
            }
        }
        let full = self.prog.borrow().resolve(&fr.module, &segs, lead);
        if let Some(Def::Fn(d)) = self.prog.borrow().val_defs.get(&full) {
            return Ok(FnRef { name: full, decl: Some(d.clone()), self_ty: None, generics: Default::default(), targs, trait_: None });
        }
        if segs.len() >= 2 {
            let (pre, last) = full.rsplit_once("::").unwrap_or(("", &full));
            let d = self.prog.borrow().defs.get(pre).cloned();
            match d {
                Some(Def::Enum(e, _)) if e.variants.iter().any(|v| decode_ident(&v.ident.to_string()) == last) => {
                    return Ok(FnRef { name: full, decl: None, self_ty: None, generics: Default::default(), targs, trait_: None });
                }
                Some(Def::Trait(t)) => {
                    return Ok(FnRef { name: full.clone(), decl: None, self_ty: None, generics: Default::default(), targs, trait_: Some(t.path.clone()) });
                }
                Some(Def::Struct(..)) | Some(Def::Enum(..)) | Some(Def::Alias(..)) => {
                    let mut tp = p.path.clone();
                    tp.segments.pop();
                    if let Some(mut x) = tp.segments.pop() {
                        // drop trailing punct
                        let v = x.value_mut().clone();
                        tp.segments.push(v);
                    }
                    let ty = self.ty_of(&syn::Type::Path(syn::TypePath { qself: None, path: tp }), fr);
                    return Ok(FnRef { name: format!("@::{last}"), decl: None, self_ty: Some(ty), generics: Default::default(), targs, trait_: None });
                }
                _ => {}
            }
            // atoms used as types: `Atom::method`
            if let Some(l) = pre.rsplit("::").next() {
                if l.starts_with(SO) {
                    return Ok(FnRef { name: format!("@::{last}"), decl: None, self_ty: Some(Ty::Atom(l.to_string())), generics: Default::default(), targs, trait_: None });
                }
            }
            // library type with arguments of its own: Vec::<T>::new
            let mut tp = p.path.clone();
            tp.segments.pop();
            if let Some(seg) = tp.segments.last() {
                let n = seg.ident.to_string();
                if n.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) && !self.prog.borrow().modules.contains_key(pre) {
                    let v = seg.clone();
                    tp.segments.pop();
                    tp.segments.push(v);
                    let has_impl = {
                        let pr = self.prog.borrow();
                        pr.impls.iter().any(|i| i.fns.contains_key(last) || i.trait_.is_some())
                    };
                    if has_impl && !full.starts_with("std::option::Option::Some") {
                        let ty = self.ty_of(&syn::Type::Path(syn::TypePath { qself: None, path: tp }), fr);
                        if last.chars().next().map(|c| c.is_lowercase()).unwrap_or(false) {
                            if let Some(mut f) = self.find_assoc(&ty, last, None)? {
                                f.targs = targs;
                                return Ok(f);
                            }
                        }
                        let mut ta: Vec<Ty> = targs;
                        if ta.is_empty() {
                            ta = ty.args().to_vec();
                        }
                        return Ok(FnRef { name: full, decl: None, self_ty: None, generics: Default::default(), targs: ta, trait_: None });
                    }
                }
            }
        }
        Ok(FnRef { name: full, decl: None, self_ty: None, generics: Default::default(), targs, trait_: None })
    }

    /// constants, unit constructors and function values
    pub fn path_value(&mut self, f: FnRef, hint: Option<&Ty>, fr: &Rc<Frame>) -> R<V> {
        if f.decl.is_some() {
            return Ok(V::Fn(Rc::new(f)));
        }
        if let Some(st) = &f.self_ty {
            let name = f.name.rsplit("::").next().unwrap().to_string();
            if let Some(v) = self.assoc_const(st, f.trait_.as_deref(), &name)? {
                return Ok(v);
            }
            if let Some(mut x) = self.find_assoc(st, &name, f.trait_.as_deref())? {
                x.targs = f.targs.clone();
                return Ok(V::Fn(Rc::new(x)));
            }
            // Self::Variant
            if let Ty::Adt(p, _) = st {
                let full = format!("{p}::{name}");
                if let Some(v) = self.unit_or_ctor(&full)? {
                    return Ok(v);
                }
            }
            return Ok(V::Fn(Rc::new(f)));
        }
        if f.name == "std::option::Option::None" {
            return Ok(none());
        }
        let d = self.prog.borrow().val_defs.get(&f.name).cloned();
        match d {
            Some(Def::Const(c, m)) => {
                if let Some(v) = self.consts.get(&f.name) {
                    return Ok(v.clone());
                }
                let fr2 = Rc::new(self.mod_frame(&m));
                let t = self.ty_of(&c.ty, &fr2);
                let v = self.eval(&c.expr, &new_env(None), &fr2, Some(&t))?;
                self.consts.insert(f.name.clone(), v.clone());
                return Ok(v);
            }
            Some(Def::Static(c, m)) => {
                if let Some(v) = self.consts.get(&f.name) {
                    return Ok(v.clone());
                }
                let fr2 = Rc::new(self.mod_frame(&m));
                let t = self.ty_of(&c.ty, &fr2);
                let v = self.eval(&c.expr, &new_env(None), &fr2, Some(&t))?;
                self.consts.insert(f.name.clone(), v.clone());
                return Ok(v);
            }
            _ => {}
        }
        if let Some(v) = self.unit_or_ctor(&f.name)? {
            return Ok(v);
        }
        if let Some(v) = self.host.clone().call(self, &format!("const {}", f.name), &f.targs, &[], "")? {
            return Ok(v);
        }
        if let Some(v) = crate::models::const_path(self, &f.name) {
            return Ok(v);
        }
        let _ = (hint, fr);
        Ok(V::Fn(Rc::new(f)))
    }

    fn unit_or_ctor(&mut self, full: &str) -> R<Option<V>> {
        let d = self.prog.borrow().defs.get(full).cloned();
        if let Some(Def::Struct(st, _)) = d {
            return Ok(Some(match st.fields {
                syn::Fields::Unit => V::Adt(Rc::new(AdtV { ty: full.into(), variant: None, fields: vec![] })),
                _ => V::Fn(Rc::new(FnRef { name: full.into(), decl: None, self_ty: None, generics: Default::default(), targs: vec![], trait_: None })),
            }));
        }
        if let Some((en, va)) = full.rsplit_once("::") {
            let d = self.prog.borrow().defs.get(en).cloned();
            if let Some(Def::Enum(e, _)) = d {
                if let Some(v) = e.variants.iter().find(|v| decode_ident(&v.ident.to_string()) == va) {
                    return Ok(Some(match v.fields {
                        syn::Fields::Unit => V::Adt(Rc::new(AdtV { ty: en.into(), variant: Some(va.into()), fields: vec![] })),
                        _ => V::Fn(Rc::new(FnRef { name: full.into(), decl: None, self_ty: None, generics: Default::default(), targs: vec![], trait_: None })),
                    }));
                }
            }
        }
        Ok(None)
    }

    pub fn assoc_const(&mut self, ty: &Ty, tr: Option<&str>, name: &str) -> R<Option<V>> {
        if !name.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) {
            return Ok(None);
        }
        if let Some(v) = self.host.clone().assoc_const(self, ty, tr, name)? {
            return Ok(Some(v));
        }
        let impls = self.prog.borrow().impls.clone();
        for im in impls.iter() {
            if let Some(c) = im.consts.get(name) {
                if let Some(t) = tr {
                    if !im.trait_.as_ref().map(|x| same_trait(&x.0, t)).unwrap_or(false) {
                        continue;
                    }
                }
                if let Some(b) = self.match_impl(im, ty) {
                    let fr = Rc::new(Frame {
                        module: im.module.clone(),
                        file: im.file.clone(),
                        fn_name: name.into(),
                        self_ty: Some(ty.clone()),
                        generics: Rc::new(b),
                        ret: None,
                        is_async: false,
                    });
                    let t = self.ty_of(&c.ty, &fr);
                    return Ok(Some(self.eval(&c.expr, &new_env(None), &fr, Some(&t))?));
                }
            }
        }
        Ok(crate::models::assoc_const(ty, name))
    }

    // ------------------------------------------------------------------ blocks and statements

    pub fn block(&mut self, b: &syn::Block, env: &Env, fr: &Rc<Frame>, hint: Option<&Ty>) -> R<V> {
        // the expansion of a tracing macro: a log record
        if b.stmts.iter().any(|s| matches!(s, syn::Stmt::Item(syn::Item::Static(x)) if x.ident == "__CALLSITE")) {
            let site = self.site(fr, b.span());
            self.effect("log", vec![], &site);
            return Ok(V::Unit);
        }
        let env = new_env(Some(env.clone()));
        let fr = self.block_items(b, fr)?;
        let n = b.stmts.len();
        let mut last = V::Unit;
        for (i, st) in b.stmts.iter().enumerate() {
            self.tick()?;
            let is_last = i + 1 == n;
            match st {
                syn::Stmt::Item(_) => {}
                syn::Stmt::Local(l) => {
                    if !cfg_true(&l.attrs) {
                        continue;
                    }
                    let ty = match &l.pat {
                        syn::Pat::Type(t) => Some(self.ty_of(&t.ty, &fr)),
                        _ => None,
                    };
                    match &l.init {
                        Some(init) => {
                            let mut v = self.eval(&init.expr, &env, &fr, ty.as_ref())?;
                            if let Some(t) = &ty {
                                v = self.coerce(v, t)?;
                            }
                            match &init.diverge {
                                None => {
                                    if !self.bind_pat(&l.pat, v, &env, &fr)? {
                                        return top("irrefutable pattern failed");
                                    }
                                }
                                Some((_, els)) => {
                                    if !self.bind_pat(&l.pat, v, &env, &fr)? {
                                        self.eval(els, &env, &fr, None)?;
                                        return top("let-else fell through");
                                    }
                                }
                            }
                        }
                        None => {
                            self.bind_uninit(&l.pat, &env);
                        }
                    }
                }
                syn::Stmt::Expr(e, semi) => {
                    if !cfg_true(expr_attrs(e)) {
                        continue;
                    }
                    let h = if is_last && semi.is_none() { hint } else { None };
                    let v = self.eval(e, &env, &fr, h)?;
                    if is_last && semi.is_none() {
                        last = v;
                    } else {
                        let site = self.site(&fr, e.span());
                        self.drop_value(v, &site)?;
                    }
                }
                syn::Stmt::Macro(m) => {
                    if !cfg_true(&m.attrs) {
                        continue;
                    }
                    let h = if is_last && m.semi_token.is_none() { hint } else { None };
                    let v = crate::toks::eval_macro(self, &m.mac, &env, &fr, h)?;
                    if is_last && m.semi_token.is_none() {
                        last = v;
                    }
                }
            }
        }
        Ok(last)
    }

    /// local items of a block live in an anonymous module
    fn block_items(&mut self, b: &syn::Block, fr: &Rc<Frame>) -> R<Rc<Frame>> {
        let items: Vec<syn::Item> = b
            .stmts
            .iter()
            .filter_map(|s| match s {
                syn::Stmt::Item(i) => Some(i.clone()),
                _ => None,
            })
            .collect();
        if items.is_empty() {
            return Ok(fr.clone());
        }
        let m2 = format!("{}::{{blk{:x}}}", fr.module, b as *const _ as usize);
        if !self.prog.borrow().modules.contains_key(&m2) {
            let repo = self.repo.clone();
            let mut p = self.prog.borrow_mut();
            p.add_module(&m2, &fr.file, Some(fr.module.clone()));
            p.add_items(&repo, &m2, &fr.file, &repo, items);
        }
        let mut f = (**fr).clone();
        f.module = m2;
        Ok(Rc::new(f))
    }

    fn bind_uninit(&mut self, p: &syn::Pat, env: &Env) {
        match p {
            syn::Pat::Ident(i) => bind(env, &decode_ident(&i.ident.to_string()), V::Unit),
            syn::Pat::Type(t) => self.bind_uninit(&t.pat, env),
            _ => {}
        }
    }

    /// a value goes out of use: run the program's Drop impls
    pub fn drop_value(&mut self, v: V, site: &str) -> R<()> {
        match v {
            V::Adt(a) => {
                let known = self.prog.borrow().defs.contains_key(&a.ty);
                if known {
                    let ty = Ty::Adt(a.ty.clone(), vec![]);
                    let p = self.temp(V::Adt(a.clone()));
                    if let Some(f) = self.find_assoc(&ty, "drop", Some("std::ops::Drop"))? {
                        self.call_fn(&f, vec![V::Ref(p.clone())], site)?;
                    }
                    if let V::Adt(b) = self.read(&p)? {
                        for (_, x) in b.fields.iter() {
                            self.drop_value(x.clone(), site)?;
                        }
                    }
                } else {
                    for (_, x) in a.fields.iter() {
                        self.drop_value(x.clone(), site)?;
                    }
                }
            }
            V::List(l) | V::Tuple(l) => {
                for x in l.iter() {
                    self.drop_value(x.clone(), site)?;
                }
            }
            V::Map(m, _) => {
                for (_, x) in m.iter() {
                    self.drop_value(x.clone(), site)?;
                }
            }
            V::Sym(x) if x.ty.ends_with("JoinHandle") || x.ty.ends_with("UnboundedReceiver") || x.ty.ends_with("UnboundedSender") => {
                self.effect("drop", vec![V::Sym(x)], site);
            }
            _ => {}
        }
        Ok(())
    }

    // ------------------------------------------------------------------ patterns

    pub fn bind_pat(&mut self, p: &syn::Pat, v: V, env: &Env, fr: &Rc<Frame>) -> R<bool> {
        let mut out = vec![];
        let r = self.pat(p, v, env, fr, &mut out)?;
        if r {
            for (n, v) in out {
                bind(env, &n, v);
            }
        }
        Ok(r)
    }

    fn sub(&self, v: &V, place: &Option<Place>, f: &str) -> R<V> {
        if let Some(p) = place {
            let mut pr = p.proj.clone();
            pr.push(Proj::Field(f.into()));
            return Ok(V::Ref(Place { cell: p.cell.clone(), proj: pr }));
        }
        v.field(f).ok_or_else(|| Ctl::Top(format!("pattern field {f} of {}", dbg(v))))
    }

    pub fn pat(&mut self, p: &syn::Pat, v: V, env: &Env, fr: &Rc<Frame>, out: &mut Vec<(String, V)>) -> R<bool> {
        self.tick()?;
        match p {
            syn::Pat::Wild(_) => Ok(true),
            syn::Pat::Rest(_) => Ok(true),
            syn::Pat::Paren(x) => self.pat(&x.pat, v, env, fr, out),
            syn::Pat::Type(t) => {
                let ty = self.ty_of(&t.ty, fr);
                let v = self.coerce(v, &ty)?;
                self.pat(&t.pat, v, env, fr, out)
            }
            syn::Pat::Reference(r) => {
                let v = match v {
                    V::Ref(p) => self.read(&p)?,
                    o => o,
                };
                self.pat(&r.pat, v, env, fr, out)
            }
            syn::Pat::Ident(i) => {
                let n = decode_ident(&i.ident.to_string());
                if i.by_ref.is_none() && i.subpat.is_none() && i.mutability.is_none() {
                    // constant or unit variant?
                    if n.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) {
                        let full = self.prog.borrow().resolve(&fr.module, &[n.clone()], false);
                        if full == "std::option::Option::None" || self.prog.borrow().val_defs.contains_key(&full) || self.is_unit_path(&full) {
                            return self.pat_path(&full, v, fr);
                        }
                    }
                }
                if let Some((_, sp)) = &i.subpat {
                    if !self.pat(sp, v.clone(), env, fr, out)? {
                        return Ok(false);
                    }
                }
                out.push((n, v));
                Ok(true)
            }
            syn::Pat::Tuple(t) => {
                let (val, place) = self.deref_all(v)?;
                match &val {
                    V::Tuple(items) => {
                        let rest = t.elems.iter().position(|e| matches!(e, syn::Pat::Rest(_)));
                        let n = t.elems.len();
                        for (k, e) in t.elems.iter().enumerate() {
                            let idx = match rest {
                                Some(r) if k == r => continue,
                                Some(r) if k > r => items.len() - (n - k),
                                _ => k,
                            };
                            let x = self.sub(&val, &place, &idx.to_string())?;
                            if !self.pat(e, x, env, fr, out)? {
                                return Ok(false);
                            }
                        }
                        Ok(true)
                    }
                    V::Unit => Ok(t.elems.is_empty()),
                    V::Sym(x) => {
                        for (k, e) in t.elems.iter().enumerate() {
                            let f = self.sym_field(x, &k.to_string())?;
                            if !self.pat(e, f, env, fr, out)? {
                                return Ok(false);
                            }
                        }
                        Ok(true)
                    }
                    o => top(format!("tuple pattern on {}", dbg(o))),
                }
            }
            syn::Pat::TupleStruct(t) => {
                let full = self.pat_full(&t.qself, &t.path, fr);
                let v2 = match self.variant_of(v, &full)? {
                    Some(v) => v,
                    None => return Ok(false),
                };
                let (val, place) = self.deref_all(v2)?;
                let nf = match &val {
                    V::Adt(a) => a.fields.len(),
                    _ => t.elems.len(),
                };
                let rest = t.elems.iter().position(|e| matches!(e, syn::Pat::Rest(_)));
                let n = t.elems.len();
                for (k, e) in t.elems.iter().enumerate() {
                    let idx = match rest {
                        Some(r) if k == r => continue,
                        Some(r) if k > r => nf + k - n,
                        _ => k,
                    };
                    if matches!(e, syn::Pat::Wild(_)) {
                        continue;
                    }
                    let x = match &val {
                        V::Sym(y) => self.sym_field(y, &idx.to_string())?,
                        _ => self.sub(&val, &place, &idx.to_string())?,
                    };
                    if !self.pat(e, x, env, fr, out)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            syn::Pat::Struct(t) => {
                let full = self.pat_full(&t.qself, &t.path, fr);
                let v2 = match self.variant_of(v, &full)? {
                    Some(v) => v,
                    None => return Ok(false),
                };
                let (val, place) = self.deref_all(v2)?;
                for f in &t.fields {
                    let name = match &f.member {
                        syn::Member::Named(i) => decode_ident(&i.to_string()),
                        syn::Member::Unnamed(i) => i.index.to_string(),
                    };
                    if matches!(&*f.pat, syn::Pat::Wild(_)) {
                        continue;
                    }
                    let x = match &val {
                        V::Sym(y) => self.sym_field(y, &name)?,
                        V::Toks(_) => self.field(val.clone(), &name)?,
                        _ => self.sub(&val, &place, &name)?,
                    };
                    if !self.pat(&f.pat, x, env, fr, out)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            syn::Pat::Path(pp) => {
                let full = self.pat_full(&pp.qself, &pp.path, fr);
                self.pat_path(&full, v, fr)
            }
            syn::Pat::Lit(l) => {
                let lv = self.lit(&l.lit)?;
                self.eq(&v, &lv)
            }
            syn::Pat::Or(o) => {
                for c in &o.cases {
                    let mut o2 = vec![];
                    if self.pat(c, v.clone(), env, fr, &mut o2)? {
                        out.extend(o2);
                        return Ok(true);
                    }
                }
                Ok(false)
            }
            syn::Pat::Range(r) => {
                let x = self.strip(v)?;
                if let Some(a) = &r.start {
                    let a = self.eval(a, env, fr, None)?;
                    if self.cmp(&x, &a)? == std::cmp::Ordering::Less {
                        return Ok(false);
                    }
                }
                if let Some(b) = &r.end {
                    let b = self.eval(b, env, fr, None)?;
                    let c = self.cmp(&x, &b)?;
                    let okk = match r.limits {
                        syn::RangeLimits::HalfOpen(_) => c == std::cmp::Ordering::Less,
                        _ => c != std::cmp::Ordering::Greater,
                    };
                    if !okk {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            syn::Pat::Slice(sl) => {
                let (val, place) = self.deref_all(v)?;
                let items = match &val {
                    V::List(l) => l.clone(),
                    V::Toks(_) => return top("slice pattern"),
                    V::Sym(_) => {
                        let it = self.into_it(val.clone())?;
                        let mut it = it;
                        Rc::new(iter::drain(self, &mut it)?)
                    }
                    o => return top(format!("slice pattern on {}", dbg(o))),
                };
                let is_rest = |e: &syn::Pat| match e {
                    syn::Pat::Rest(_) => true,
                    syn::Pat::Ident(i) => matches!(i.subpat.as_ref().map(|s| &*s.1), Some(syn::Pat::Rest(_))),
                    _ => false,
                };
                let rest = sl.elems.iter().position(is_rest);
                let n = sl.elems.len();
                match rest {
                    None if items.len() != n => return Ok(false),
                    Some(_) if items.len() < n - 1 => return Ok(false),
                    _ => {}
                }
                for (k, e) in sl.elems.iter().enumerate() {
                    if Some(k) == rest {
                        if let syn::Pat::Ident(i) = e {
                            let end = items.len() - (n - 1 - k);
                            out.push((i.ident.to_string(), list(items[k..end].to_vec())));
                        }
                        continue;
                    }
                    let idx = match rest {
                        Some(r) if k > r => items.len() - (n - k),
                        _ => k,
                    };
                    let x = match &place {
                        Some(p) => {
                            let mut pr = p.proj.clone();
                            pr.push(Proj::Idx(idx));
                            V::Ref(Place { cell: p.cell.clone(), proj: pr })
                        }
                        None => items[idx].clone(),
                    };
                    if !self.pat(e, x, env, fr, out)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            syn::Pat::Const(_) | syn::Pat::Macro(_) => top("pattern"),
            _ => top("pattern kind"),
        }
    }

    fn is_unit_path(&self, full: &str) -> bool {
        let pr = self.prog.borrow();
        if let Some(Def::Struct(s, _)) = pr.defs.get(full) {
            return matches!(s.fields, syn::Fields::Unit);
        }
        if let Some((en, va)) = full.rsplit_once("::") {
            if let Some(Def::Enum(e, _)) = pr.defs.get(en) {
                return e.variants.iter().any(|v| v.ident == va);
            }
        }
        false
    }

    fn pat_full(&mut self, _q: &Option<syn::QSelf>, p: &syn::Path, fr: &Rc<Frame>) -> String {
        let segs = path_segs(p);
        if segs[0] == "Self" {
            if let Some(Ty::Adt(x, _)) = &fr.self_ty {
                let mut o = x.clone();
                for s in &segs[1..] {
                    o.push_str("::");
                    o.push_str(s);
                }
                return o;
            }
        }
        self.prog.borrow().resolve(&fr.module, &segs, p.leading_colon.is_some())
    }

    fn pat_path(&mut self, full: &str, v: V, fr: &Rc<Frame>) -> R<bool> {
        let is_const = self.prog.borrow().val_defs.contains_key(full);
        if is_const {
            let f = FnRef { name: full.into(), decl: None, self_ty: None, generics: Default::default(), targs: vec![], trait_: None };
            let c = self.path_value(f, None, fr)?;
            return self.eq(&v, &c);
        }
        if let Some((pre, last)) = full.rsplit_once("::") {
            if let Some(c) = crate::models::assoc_const(&Ty::Adt(pre.into(), vec![]), last) {
                return self.eq(&v, &c);
            }
        }
        Ok(self.variant_of(v, full)?.is_some())
    }

    /// is the value an instance of the constructor `full`? (symbols: decided)
    pub fn variant_of(&mut self, v: V, full: &str) -> R<Option<V>> {
        let (val, place) = self.deref_all(v)?;
        let last = full.rsplit("::").next().unwrap();
        match &val {
            V::Adt(a) => {
                let matches = match &a.variant {
                    Some(x) => x == last,
                    None => {
                        let t = a.ty.rsplit("::").next().unwrap();
                        if t != last {
                            // a struct pattern can only name the struct itself
                            return if self.prog.borrow().defs.contains_key(full) { top(format!("pattern {full} on {}", a.ty)) } else { Ok(None) };
                        }
                        true
                    }
                };
                if !matches {
                    return Ok(None);
                }
                Ok(Some(match place {
                    Some(p) => V::Ref(p),
                    None => val,
                }))
            }
            V::Cell(c) => {
                let x = V::Ref(Place { cell: c.clone(), proj: vec![] });
                self.variant_of(x, full)
            }
            V::Sym(x) => {
                let host = self.host.clone();
                if let Some(r) = host.sym_variant(self, x, full)? {
                    return Ok(r);
                }
                // known enum of the program
                let en = full.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
                let opts: Vec<String> = {
                    let pr = self.prog.borrow();
                    match pr.defs.get(&en) {
                        Some(Def::Enum(e, _)) => e.variants.iter().map(|v| v.ident.to_string()).collect(),
                        _ => match full {
                            f if f.starts_with("std::option::Option::") => vec!["None".into(), "Some".into()],
                            f if f.starts_with("std::result::Result::") => vec!["Ok".into(), "Err".into()],
                            f if f.starts_with("std::task::Poll::") => vec!["Pending".into(), "Ready".into()],
                            f if f.starts_with("std::ops::ControlFlow::") => vec!["Continue".into(), "Break".into()],
                            _ => vec![],
                        },
                    }
                };
                if opts.is_empty() {
                    if matches!(self.prog.borrow().defs.get(full), Some(Def::Struct(..))) {
                        return Ok(Some(val));
                    }
                    let c = self.decide(&format!("is({}, {})", x.key, last), &["no", "yes"])?;
                    return Ok(if c == 1 { Some(symv(format!("{}.{}", x.key, last), "")) } else { None });
                }
                let labels: Vec<&str> = opts.iter().map(|x| x.as_str()).collect();
                let c = self.decide(&format!("variant({})", x.key), &labels)?;
                if opts[c] == last {
                    Ok(Some(symv(format!("{}.{}", x.key, last), &x.ty.clone())))
                } else {
                    Ok(None)
                }
            }
            V::Toks(t) => crate::toks::toks_variant(self, t, full),
            V::Str(_) | V::Int(_) | V::Bool(_) => {
                // serde_json::Value::String(..) etc. are not modelled as variants
                top(format!("pattern {full} on {}", dbg(&val)))
            }
            V::Unit => Ok(Some(V::Unit)),
            o => top(format!("pattern {full} on {}", dbg(o))),
        }
    }

    pub fn sym_field(&mut self, x: &Rc<SymV>, f: &str) -> R<V> {
        if let Some(v) = self.host.clone().sym_field(self, x, f)? {
            return Ok(v);
        }
        Ok(symv(format!("{}.{f}", x.key), ""))
    }

    pub fn lit(&mut self, l: &syn::Lit) -> R<V> {
        Ok(match l {
            syn::Lit::Str(x) => s(x.value()),
            syn::Lit::Bool(b) => V::Bool(b.value),
            syn::Lit::Int(i) => {
                let d = i.base10_digits();
                match d.parse::<i128>() {
                    Ok(n) => V::Int(n),
                    Err(_) => return top("integer literal"),
                }
            }
            syn::Lit::Char(c) => V::Char(c.value()),
            syn::Lit::Byte(b) => V::Int(b.value() as i128),
            syn::Lit::Float(f) => V::Float(f.base10_parse().unwrap_or(0.0)),
            syn::Lit::ByteStr(b) => list(b.value().into_iter().map(|x| V::Int(x as i128)).collect()),
            _ => return top("literal"),
        })
    }

    // ------------------------------------------------------------------ places of expressions

    pub fn place(&mut self, e: &syn::Expr, env: &Env, fr: &Rc<Frame>) -> R<Option<Place>> {
        match e {
            syn::Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => {
                let n = decode_ident(&p.path.segments[0].ident.to_string());
                Ok(lookup(env, &n).map(|cell| Place { cell, proj: vec![] }))
            }
            syn::Expr::Paren(p) => self.place(&p.expr, env, fr),
            syn::Expr::Group(p) => self.place(&p.expr, env, fr),
            syn::Expr::Field(f) => {
                let base = match self.place(&f.base, env, fr)? {
                    Some(b) => b,
                    None => match self.eval(&f.base, env, fr, None)? {
                        V::Ref(p) => p,
                        V::Cell(c) => Place { cell: c, proj: vec![] },
                        _ => return Ok(None),
                    },
                };
                let name = match &f.member {
                    syn::Member::Named(i) => decode_ident(&i.to_string()),
                    syn::Member::Unnamed(i) => i.index.to_string(),
                };
                // base must be an aggregate
                let bv = self.strip(self.read(&base)?)?;
                let bv = match bv {
                    V::Cell(c) => c.borrow().clone(),
                    o => o,
                };
                match &bv {
                    V::Adt(_) | V::Tuple(_) if bv.field(&name).is_some() => {
                        let mut pr = base.proj.clone();
                        pr.push(Proj::Field(name));
                        Ok(Some(Place { cell: base.cell, proj: pr }))
                    }
                    _ => Ok(None),
                }
            }
            syn::Expr::Index(ix) => {
                let base = match self.place(&ix.expr, env, fr)? {
                    Some(b) => b,
                    None => return Ok(None),
                };
                let i = self.eval(&ix.index, env, fr, None)?;
                let i = self.strip(i)?;
                let bv = self.strip(self.read(&base)?)?;
                match (&bv, &i) {
                    (V::List(l), V::Int(n)) => {
                        if *n as usize >= l.len() {
                            return Err(Ctl::Panic(format!("index out of bounds at {}", self.site(fr, ix.span()))));
                        }
                        let mut pr = base.proj.clone();
                        pr.push(Proj::Idx(*n as usize));
                        Ok(Some(Place { cell: base.cell, proj: pr }))
                    }
                    _ => Ok(None),
                }
            }
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                let base = match self.place(&u.expr, env, fr)? {
                    Some(b) => b,
                    None => match self.eval(&u.expr, env, fr, None)? {
                        V::Ref(p) => return Ok(Some(p)),
                        V::Cell(c) => return Ok(Some(Place { cell: c, proj: vec![] })),
                        _ => return Ok(None),
                    },
                };
                match self.read(&base)? {
                    V::Ref(p) => Ok(Some(p)),
                    V::Cell(c) => Ok(Some(Place { cell: c, proj: vec![] })),
                    _ => Ok(Some(base)),
                }
            }
            _ => Ok(None),
        }
    }

    pub fn field(&mut self, v: V, name: &str) -> R<V> {
        let v = self.strip(v)?;
        match &v {
            V::Adt(_) | V::Tuple(_) => {
                if let Some(x) = v.field(name) {
                    return Ok(x);
                }
                // Deref to a field
                let ty = self.type_of(&v);
                if let Some(f) = self.find_assoc(&ty, "deref", Some("std::ops::Deref"))? {
                    let inner = self.call_fn(&f, vec![v.clone()], "deref")?;
                    return self.field(inner, name);
                }
                top(format!("field {name} of {}", dbg(&v)))
            }
            V::Sym(x) => self.sym_field(x, name),
            V::Toks(t) => crate::toks::toks_field(self, t, name),
            V::Cell(c) => {
                let x = c.borrow().clone();
                self.field(x, name)
            }
            o => top(format!("field {name} of {}", dbg(o))),
        }
    }

    // ------------------------------------------------------------------ expressions

    pub fn eval(&mut self, e: &syn::Expr, env: &Env, fr: &Rc<Frame>, hint: Option<&Ty>) -> R<V> {
        use syn::Expr::*;
        self.tick()?;
        match e {
            Lit(l) => self.lit(&l.lit),
            Path(p) => self.eval_path(p, env, fr, hint),
            Paren(p) => self.eval(&p.expr, env, fr, hint),
            Group(p) => self.eval(&p.expr, env, fr, hint),
            Block(b) => {
                let lab = b.label.as_ref().map(|l| l.name.ident.to_string());
                match self.block(&b.block, env, fr, hint) {
                    Err(Ctl::Break(Some(l), v)) if Some(&l) == lab.as_ref() => Ok(v),
                    r => r,
                }
            }
            Unsafe(b) => self.block(&b.block, env, fr, hint),
            Const(b) => self.block(&b.block, env, fr, hint),
            Async(b) => Ok(V::Fut(Rc::new(RefCell::new(Some(Thunk {
                body: ThunkBody::Block(Rc::new(b.block.clone())),
                env: env.clone(),
                frame: Rc::new(Frame { ret: None, ..(**fr).clone() }),
            }))))),
            Await(a) => {
                let v = self.eval(&a.base, env, fr, None)?;
                let site = self.site(fr, a.span());
                self.await_(v, &site)
            }
            Reference(r) => {
                if r.mutability.is_some() {
                    if let Some(p) = self.place(&r.expr, env, fr)? {
                        return Ok(V::Ref(p));
                    }
                    let v = self.eval(&r.expr, env, fr, None)?;
                    if matches!(v, V::Ref(_)) {
                        return Ok(v);
                    }
                    return Ok(V::Ref(self.temp(v)));
                }
                let h = match hint {
                    Some(Ty::Ref(t, _)) => Some(&**t),
                    o => o,
                };
                self.eval(&r.expr, env, fr, h)
            }
            Unary(u) => match u.op {
                syn::UnOp::Deref(_) => {
                    let v = self.eval(&u.expr, env, fr, None)?;
                    match v {
                        V::Ref(p) => self.read(&p),
                        V::Cell(c) => Ok(c.borrow().clone()),
                        V::Adt(a) => {
                            let ty = Ty::Adt(a.ty.clone(), vec![]);
                            if let Some(f) = self.find_assoc(&ty, "deref", Some("std::ops::Deref"))? {
                                return self.call_fn(&f, vec![V::Adt(a)], "deref");
                            }
                            Ok(V::Adt(a))
                        }
                        o => Ok(o),
                    }
                }
                syn::UnOp::Not(_) => {
                    let v = self.eval(&u.expr, env, fr, None)?;
                    match self.strip(v)? {
                        V::Int(n) => Ok(V::Int(!n)),
                        v => Ok(V::Bool(!self.truth(&v)?)),
                    }
                }
                syn::UnOp::Neg(_) => {
                    let v = self.eval(&u.expr, env, fr, None)?;
                    match self.strip(v)? {
                        V::Int(n) => Ok(V::Int(-n)),
                        V::Float(n) => Ok(V::Float(-n)),
                        V::Sym(x) => Ok(symv(format!("-{}", x.key), "")),
                        _ => top("negation"),
                    }
                }
                _ => top("unary"),
            },
            Binary(b) => self.binary(b, env, fr),
            Assign(a) => {
                let v = self.eval(&a.right, env, fr, None)?;
                self.assign(&a.left, v, env, fr)?;
                Ok(V::Unit)
            }
            Let(l) => {
                let v = self.scrutinee(&l.expr, env, fr)?;
                Ok(V::Bool(self.bind_pat(&l.pat, v, env, fr)?))
            }
            If(i) => {
                let env2 = new_env(Some(env.clone()));
                let c = self.eval(&i.cond, &env2, fr, None)?;
                if self.truth(&c)? {
                    self.block(&i.then_branch, &env2, fr, hint)
                } else {
                    match &i.else_branch {
                        Some((_, e)) => self.eval(e, env, fr, hint),
                        None => Ok(V::Unit),
                    }
                }
            }
            Match(m) => {
                let v = self.scrutinee(&m.expr, env, fr)?;
                for arm in &m.arms {
                    if !cfg_true(&arm.attrs) {
                        continue;
                    }
                    let env2 = new_env(Some(env.clone()));
                    if self.bind_pat(&arm.pat, v.clone(), &env2, fr)? {
                        if let Some((_, g)) = &arm.guard {
                            let c = self.eval(g, &env2, fr, None)?;
                            if !self.truth(&c)? {
                                continue;
                            }
                        }
                        return self.eval(&arm.body, &env2, fr, hint);
                    }
                }
                // rustc guarantees exhaustiveness: these decisions exclude each other
                if contains_sym(&v) {
                    return Err(Ctl::Infeasible);
                }
                top(format!("no arm matches {} at {}", dbg(&v), self.site(fr, m.span())))
            }
            While(w) => {
                let lab = w.label.as_ref().map(|l| l.name.ident.to_string());
                let mut n = 0;
                loop {
                    n += 1;
                    if n > 2000 {
                        return top("loop bound");
                    }
                    let env2 = new_env(Some(env.clone()));
                    let c = self.eval(&w.cond, &env2, fr, None)?;
                    if !self.truth(&c)? {
                        break;
                    }
                    match self.block(&w.body, &env2, fr, None) {
                        Ok(_) => {}
                        Err(Ctl::Break(l, _)) if l.is_none() || l == lab => break,
                        Err(Ctl::Continue(l)) if l.is_none() || l == lab => {}
                        Err(e) => return Err(e),
                    }
                }
                Ok(V::Unit)
            }
            Loop(w) => {
                let lab = w.label.as_ref().map(|l| l.name.ident.to_string());
                let mut n = 0;
                loop {
                    n += 1;
                    if n > 2000 {
                        return top("loop bound");
                    }
                    match self.block(&w.body, env, fr, None) {
                        Ok(_) => {}
                        Err(Ctl::Break(l, v)) if l.is_none() || l == lab => return Ok(v),
                        Err(Ctl::Continue(l)) if l.is_none() || l == lab => {}
                        Err(e) => return Err(e),
                    }
                }
            }
            ForLoop(w) => {
                let lab = w.label.as_ref().map(|l| l.name.ident.to_string());
                let v = self.eval(&w.expr, env, fr, None)?;
                let mut it = self.into_it(v)?;
                while let Some(x) = iter::next(self, &mut it)? {
                    let env2 = new_env(Some(env.clone()));
                    if !self.bind_pat(&w.pat, x, &env2, fr)? {
                        return top("for pattern");
                    }
                    match self.block(&w.body, &env2, fr, None) {
                        Ok(_) => {}
                        Err(Ctl::Break(l, _)) if l.is_none() || l == lab => break,
                        Err(Ctl::Continue(l)) if l.is_none() || l == lab => {}
                        Err(e) => return Err(e),
                    }
                }
                Ok(V::Unit)
            }
            Break(b) => {
                let v = match &b.expr {
                    Some(e) => self.eval(e, env, fr, None)?,
                    None => V::Unit,
                };
                Err(Ctl::Break(b.label.as_ref().map(|l| l.ident.to_string()), v))
            }
            Continue(c) => Err(Ctl::Continue(c.label.as_ref().map(|l| l.ident.to_string()))),
            Return(r) => {
                let v = match &r.expr {
                    Some(e) => {
                        let h = fr.ret.clone();
                        self.eval(e, env, fr, h.as_ref())?
                    }
                    None => V::Unit,
                };
                Err(Ctl::Return(v))
            }
            Closure(c) => Ok(V::Closure(Rc::new(ClosureV { ast: Rc::new(c.clone()), env: env.clone(), frame: fr.clone() }))),
            Tuple(t) => {
                if t.elems.is_empty() {
                    return Ok(V::Unit);
                }
                let mut o = vec![];
                for (i, x) in t.elems.iter().enumerate() {
                    let h = match hint {
                        Some(Ty::Tuple(ts)) => ts.get(i),
                        _ => None,
                    };
                    o.push(self.eval(x, env, fr, h)?);
                }
                Ok(tuple(o))
            }
            Array(a) => {
                let mut o = vec![];
                for x in &a.elems {
                    o.push(self.eval(x, env, fr, None)?);
                }
                Ok(list(o))
            }
            Repeat(r) => {
                let v = self.eval(&r.expr, env, fr, None)?;
                let n = self.eval(&r.len, env, fr, None)?;
                match self.strip(n)? {
                    V::Int(n) => Ok(list(vec![v; n as usize])),
                    _ => top("array length"),
                }
            }
            Struct(st) => self.struct_lit(st, env, fr),
            Field(f) => {
                let name = match &f.member {
                    syn::Member::Named(i) => decode_ident(&i.to_string()),
                    syn::Member::Unnamed(i) => i.index.to_string(),
                };
                let b = self.eval(&f.base, env, fr, None)?;
                self.field(b, &name)
            }
            Index(ix) => {
                let b = self.eval(&ix.expr, env, fr, None)?;
                let b = self.strip(b)?;
                let i = self.eval(&ix.index, env, fr, None)?;
                let i = self.strip(i)?;
                let site = self.site(fr, ix.span());
                crate::models::index(self, b, i, &site)
            }
            Range(r) => {
                let get = |ip: &mut Interp, e: &Option<Box<syn::Expr>>| -> R<Option<i128>> {
                    match e {
                        None => Ok(None),
                        Some(e) => {
                            let v = ip.eval(e, env, fr, None)?;
                            match ip.strip(v)? {
                                V::Int(n) => Ok(Some(n)),
                                V::Char(c) => Ok(Some(c as i128)),
                                V::Sym(x) if &*x.ty == "len" => Ok(as_bound(&V::Sym(x))),
                                o => top(format!("range bound {}", dbg(&o))),
                            }
                        }
                    }
                };
                let a = get(self, &r.start)?;
                let b = get(self, &r.end)?;
                Ok(V::Range(a, b, matches!(r.limits, syn::RangeLimits::Closed(_))))
            }
            Cast(c) => {
                let v = self.eval(&c.expr, env, fr, None)?;
                let t = self.ty_of(&c.ty, fr);
                let v = self.strip(v)?;
                Ok(match (&v, t.last()) {
                    (V::Int(n), "char") => V::Char(char::from_u32(*n as u32).unwrap_or('?')),
                    (V::Char(c), "char") => V::Char(*c),
                    (V::Char(c), _) => V::Int(*c as i128),
                    (V::Bool(b), _) => V::Int(*b as i128),
                    (V::Int(n), "u8") => V::Int(*n as u8 as i128),
                    (V::Int(n), "i8") => V::Int(*n as i8 as i128),
                    (V::Int(n), "u16") => V::Int(*n as u16 as i128),
                    (V::Int(n), "i16") => V::Int(*n as i16 as i128),
                    (V::Int(n), "u32") => V::Int(*n as u32 as i128),
                    (V::Int(n), "i32") => V::Int(*n as i32 as i128),
                    (V::Int(n), "u64") | (V::Int(n), "usize") => V::Int(*n as u64 as i128),
                    (V::Int(n), "i64") | (V::Int(n), "isize") => V::Int(*n as i64 as i128),
                    _ => v,
                })
            }
            Try(t) => {
                let v = self.eval(&t.expr, env, fr, None)?;
                let v = self.strip(v)?;
                match &v {
                    V::Adt(a) => match a.variant.as_deref() {
                        Some("Some") | Some("Ok") => Ok(a.fields[0].1.clone()),
                        Some("None") => Err(Ctl::Return(none())),
                        Some("Err") => {
                            let e = a.fields[0].1.clone();
                            let e = match &fr.ret {
                                Some(t) if t.last() == "Result" && t.args().len() == 2 => {
                                    let et = t.args()[1].clone();
                                    crate::models::convert_into(self, e, &et)?
                                }
                                _ => e,
                            };
                            Err(Ctl::Return(err(e)))
                        }
                        _ => top("? on value"),
                    },
                    V::Sym(x) => {
                        let optish = matches!(&fr.ret, Some(t) if t.last() == "Option");
                        if optish {
                            match self.as_option(&v)? {
                                Some(v) => Ok(v),
                                None => Err(Ctl::Return(none())),
                            }
                        } else {
                            match self.variant_of(v.clone(), "std::result::Result::Ok")? {
                                Some(okv) => self.field(okv, "0"),
                                None => Err(Ctl::Return(err(symv(format!("{}.Err.0", x.key), "")))),
                            }
                        }
                    }
                    o => top(format!("? on {}", dbg(o))),
                }
            }
            Call(c) => self.call_expr(c, env, fr, hint),
            MethodCall(m) => self.method_expr(m, env, fr, hint),
            Macro(m) => crate::toks::eval_macro(self, &m.mac, env, fr, hint),
            Infer(_) => Ok(V::Unit),
            _ => top(format!("expression at {}", self.site(fr, e.span()))),
        }
    }

    /// value of a scrutinee: by reference when it is a reference or a place behind one
    fn scrutinee(&mut self, e: &syn::Expr, env: &Env, fr: &Rc<Frame>) -> R<V> {
        if let syn::Expr::Reference(r) = e {
            if r.mutability.is_some() {
                return self.eval(e, env, fr, None);
            }
        }
        self.eval(e, env, fr, None)
    }

    fn assign(&mut self, left: &syn::Expr, v: V, env: &Env, fr: &Rc<Frame>) -> R<()> {
        match left {
            syn::Expr::Infer(_) => Ok(()),
            syn::Expr::Tuple(t) => {
                let v = self.strip(v)?;
                for (i, x) in t.elems.iter().enumerate() {
                    let y = v.field(&i.to_string()).ok_or_else(|| Ctl::Top("assign".into()))?;
                    self.assign(x, y, env, fr)?;
                }
                Ok(())
            }
            syn::Expr::Index(ix) => {
                let base = self.place(&ix.expr, env, fr)?;
                if let Some(p) = self.place(left, env, fr)? {
                    return self.write(&p, v);
                }
                let _ = base;
                top("indexed assignment")
            }
            _ => match self.place(left, env, fr)? {
                Some(p) => {
                    let old = if p.proj.is_empty() { p.cell.borrow().clone() } else { self.read(&p)? };
                    self.write(&p, v)?;
                    let site = self.site(fr, left.span());
                    if !matches!(old, V::Ref(_)) {
                        self.drop_value(old, &site)?;
                    }
                    Ok(())
                }
                None => {
                    // field of a symbol: an effect of the environment
                    let site = self.site(fr, left.span());
                    let b = self.eval(left, env, fr, None)?;
                    self.effect("assign", vec![b, v], &site);
                    Ok(())
                }
            },
        }
    }

    fn binary(&mut self, b: &syn::ExprBinary, env: &Env, fr: &Rc<Frame>) -> R<V> {
        use syn::BinOp::*;
        match b.op {
            And(_) => {
                let l = self.eval(&b.left, env, fr, None)?;
                if !self.truth(&l)? {
                    return Ok(V::Bool(false));
                }
                let r = self.eval(&b.right, env, fr, None)?;
                return Ok(V::Bool(self.truth(&r)?));
            }
            Or(_) => {
                let l = self.eval(&b.left, env, fr, None)?;
                if self.truth(&l)? {
                    return Ok(V::Bool(true));
                }
                let r = self.eval(&b.right, env, fr, None)?;
                return Ok(V::Bool(self.truth(&r)?));
            }
            AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitAndAssign(_) | BitOrAssign(_) | BitXorAssign(_) => {
                let r = self.eval(&b.right, env, fr, None)?;
                let p = match self.place(&b.left, env, fr)? {
                    Some(p) => p,
                    None => {
                        let site = self.site(fr, b.span());
                        let l = self.eval(&b.left, env, fr, None)?;
                        self.effect("assign_op", vec![l, r], &site);
                        return Ok(V::Unit);
                    }
                };
                let mut l = self.read(&p)?;
                let mut p = p;
                while let V::Ref(q) = l {
                    p = q;
                    l = self.read(&p)?;
                }
                let op = match b.op {
                    AddAssign(_) => "+",
                    SubAssign(_) => "-",
                    MulAssign(_) => "*",
                    DivAssign(_) => "/",
                    BitAndAssign(_) => "&",
                    BitOrAssign(_) => "|",
                    BitXorAssign(_) => "^",
                    _ => "%",
                };
                let n = self.arith(op, l, r)?;
                self.write(&p, n)?;
                return Ok(V::Unit);
            }
            _ => {}
        }
        let l = self.eval(&b.left, env, fr, None)?;
        let r = self.eval(&b.right, env, fr, None)?;
        use std::cmp::Ordering::*;
        Ok(match b.op {
            Eq(_) => V::Bool(self.user_eq(&l, &r)?),
            Ne(_) => V::Bool(!self.user_eq(&l, &r)?),
            Lt(_) => V::Bool(self.cmp(&l, &r)? == Less),
            Le(_) => V::Bool(self.cmp(&l, &r)? != Greater),
            Gt(_) => V::Bool(self.cmp(&l, &r)? == Greater),
            Ge(_) => V::Bool(self.cmp(&l, &r)? != Less),
            Add(_) => self.arith("+", l, r)?,
            Sub(_) => self.arith("-", l, r)?,
            Mul(_) => self.arith("*", l, r)?,
            Div(_) => self.arith("/", l, r)?,
            Rem(_) => self.arith("%", l, r)?,
            BitAnd(_) => self.arith("&", l, r)?,
            BitOr(_) => self.arith("|", l, r)?,
            BitXor(_) => self.arith("^", l, r)?,
            Shl(_) => self.arith("<<", l, r)?,
            Shr(_) => self.arith(">>", l, r)?,
            _ => return top("binary operator"),
        })
    }

    fn user_eq(&mut self, l: &V, r: &V) -> R<bool> {
        let lv = self.strip(l.clone())?;
        if let V::Adt(a) = &lv {
            let known = self.prog.borrow().defs.contains_key(&a.ty);
            if known && !matches!(self.strip(r.clone())?, V::Adt(_)) {
                // `impl PartialEq<str> for X`: pick the implementation by argument type
                let ty = self.type_of(&lv);
                if let Some(f) = self.find_assoc(&ty, "eq", Some("std::cmp::PartialEq"))? {
                    let v = self.call_fn(&f, vec![lv.clone(), r.clone()], "eq")?;
                    return self.truth(&v);
                }
            }
        }
        self.eq(l, r)
    }

    pub fn arith(&mut self, op: &str, l: V, r: V) -> R<V> {
        let l = self.strip(l)?;
        let r = self.strip(r)?;
        Ok(match (&l, &r) {
            (V::Int(a), V::Int(b)) => V::Int(match op {
                "+" => a.wrapping_add(*b),
                "-" => {
                    if *a >= 0 && *b >= 0 && a < b {
                        return Err(Ctl::Panic("subtraction underflow".into()));
                    }
                    a - b
                }
                "*" => a.wrapping_mul(*b),
                "/" if *b != 0 => a / b,
                "%" if *b != 0 => a % b,
                "&" => a & b,
                "|" => a | b,
                "^" => a ^ b,
                "<<" => a << (*b as u32 & 127),
                ">>" => a >> (*b as u32 & 127),
                _ => return top("arithmetic"),
            }),
            (V::Bool(a), V::Bool(b)) => V::Bool(match op {
                "&" => *a & *b,
                "|" => *a | *b,
                "^" => *a ^ *b,
                _ => return top("boolean arithmetic"),
            }),
            (V::Float(a), V::Float(b)) => V::Float(match op {
                "+" => a + b,
                "-" => a - b,
                "*" => a * b,
                "/" => a / b,
                _ => return top("float arithmetic"),
            }),
            (V::Sym(x), _) | (_, V::Sym(x)) if &*x.ty == "len" && len_arith(op, &l, &r).is_some() => len_arith(op, &l, &r).unwrap(),
            (V::Str(a), _) if op == "+" => {
                let b = self.display(&r)?;
                s(format!("{a}{b}"))
            }
            (V::Sym(x), V::Str(_)) if x.ty == "@default" => r,
            (V::Sym(x), V::Int(_)) if x.ty == "@default" => {
                return self.arith(op, V::Int(0), r);
            }
            (V::Sym(x), V::Bool(_)) | (V::Bool(_), V::Sym(x)) if matches!(op, "&" | "|" | "^") => {
                let _ = x;
                let a = self.truth(&l)?;
                let b = self.truth(&r)?;
                return self.arith(op, V::Bool(a), V::Bool(b));
            }
            (V::Set(a, so), V::Set(b, _)) if op == "|" => {
                let mut o = a.to_vec();
                for x in b.iter() {
                    let mut dup = false;
                    for y in o.clone().iter() {
                        if self.eq(x, y)? {
                            dup = true;
                        }
                    }
                    if !dup {
                        o.push(x.clone());
                    }
                }
                V::Set(Rc::new(o), *so)
            }
            _ => symv(format!("({} {op} {})", dbg(&l), dbg(&r)), "num"),
        })
    }

    fn struct_lit(&mut self, st: &syn::ExprStruct, env: &Env, fr: &Rc<Frame>) -> R<V> {
        let segs = path_segs(&st.path);
        let full = if st.qself.is_some() {
            return top("qualified struct literal");
        } else if segs[0] == "Self" {
            match &fr.self_ty {
                Some(Ty::Adt(p, _)) => {
                    let mut o = p.clone();
                    for s in &segs[1..] {
                        o.push_str("::");
                        o.push_str(s);
                    }
                    o
                }
                _ => return top("Self literal"),
            }
        } else {
            self.prog.borrow().resolve(&fr.module, &segs, st.path.leading_colon.is_some())
        };
        let mut full = full;
        if let Some(Def::Alias(a, m)) = self.prog.borrow().defs.get(&full).cloned() {
            let f2 = self.mod_frame(&m);
            if let Ty::Adt(p, _) = self.ty_of(&a.ty, &f2) {
                full = p;
            }
        }
        // declared field types
        let mut decl: Vec<(String, syn::Type)> = vec![];
        let mut module = String::new();
        let mut is_variant = false;
        {
            let pr = self.prog.borrow();
            if let Some(Def::Struct(x, m)) = pr.defs.get(&full) {
                module = m.clone();
                for (i, f) in x.fields.iter().enumerate() {
                    decl.push((f.ident.as_ref().map(|i| decode_ident(&i.to_string())).unwrap_or(i.to_string()), f.ty.clone()));
                }
            } else if let Some((en, va)) = full.rsplit_once("::") {
                if let Some(Def::Enum(x, m)) = pr.defs.get(en) {
                    module = m.clone();
                    is_variant = true;
                    if let Some(v) = x.variants.iter().find(|v| decode_ident(&v.ident.to_string()) == va) {
                        for (i, f) in v.fields.iter().enumerate() {
                            decl.push((f.ident.as_ref().map(|i| decode_ident(&i.to_string())).unwrap_or(i.to_string()), f.ty.clone()));
                        }
                    }
                }
            }
        }
        let dfr = self.mod_frame(&module);
        let mut fields: Vec<(String, V)> = vec![];
        for f in &st.fields {
            if !cfg_true(&f.attrs) {
                continue;
            }
            let name = match &f.member {
                syn::Member::Named(i) => decode_ident(&i.to_string()),
                syn::Member::Unnamed(i) => i.index.to_string(),
            };
            let t = decl.iter().find(|(n, _)| *n == name).map(|(_, t)| self.ty_of(t, &dfr));
            let mut v = self.eval(&f.expr, env, fr, t.as_ref())?;
            if let Some(t) = &t {
                v = self.coerce(v, t)?;
            }
            fields.push((name, v));
        }
        if let Some(r) = &st.rest {
            let base = self.eval(r, env, fr, Some(&Ty::Adt(full.clone(), vec![])))?;
            let base = match &base {
                V::Sym(x) if x.ty == "@default" => self.default_of(&Ty::Adt(full.clone(), vec![]))?,
                _ => self.strip(base)?,
            };
            if let V::Adt(a) = base {
                for (k, v) in a.fields.iter() {
                    if !fields.iter().any(|(n, _)| n == k) {
                        fields.push((k.clone(), v.clone()));
                    }
                }
            } else {
                return top("struct update");
            }
        }
        if is_variant {
            let (en, va) = full.rsplit_once("::").unwrap();
            return Ok(V::Adt(Rc::new(AdtV { ty: en.into(), variant: Some(va.into()), fields })));
        }
        // library enum variants (e.g. syn) keep the last segment as variant name
        Ok(V::Adt(Rc::new(AdtV { ty: full, variant: None, fields })))
    }

    fn param_hints(&mut self, f: &FnRef, skip_self: bool) -> Vec<Option<Ty>> {
        match &f.decl {
            Some(d) => {
                let mut g = (*f.generics).clone();
                for (n, t) in gen_names(&d.sig.generics).into_iter().zip(f.targs.iter()) {
                    g.insert(n, t.clone());
                }
                let fr = Frame {
                    module: d.module.clone(),
                    file: d.file.clone(),
                    fn_name: d.name.clone(),
                    self_ty: f.self_ty.clone(),
                    generics: Rc::new(g),
                    ret: None,
                    is_async: false,
                };
                d.sig
                    .inputs
                    .iter()
                    .filter(|i| !(skip_self && matches!(i, syn::FnArg::Receiver(_))))
                    .map(|i| match i {
                        syn::FnArg::Typed(t) => Some(self.ty_of(&t.ty, &fr)),
                        _ => None,
                    })
                    .collect()
            }
            None => vec![],
        }
    }

    fn call_expr(&mut self, c: &syn::ExprCall, env: &Env, fr: &Rc<Frame>, hint: Option<&Ty>) -> R<V> {
        let site = self.site(fr, c.span());
        // strip parens
        let mut func = &*c.func;
        while let syn::Expr::Paren(p) = func {
            func = &p.expr;
        }
        if let syn::Expr::Path(p) = func {
            let local = p.qself.is_none() && p.path.segments.len() == 1 && lookup(env, &decode_ident(&p.path.segments[0].ident.to_string())).is_some();
            if !local {
                let mut f = self.path_fn(p, fr)?;
                if let (Some(st), None) = (&f.self_ty, &f.decl) {
                    // find the implementation now (argument hints)
                    let name = f.name.rsplit("::").next().unwrap().to_string();
                    if !matches!(st, Ty::Atom(_)) {
                        if let Some(mut x) = self.find_assoc(st, &name, f.trait_.as_deref())? {
                            x.targs = f.targs.clone();
                            if x.trait_.is_none() {
                                x.trait_ = f.trait_.clone();
                            }
                            f = x;
                        } else if let Ty::Adt(pth, _) = st {
                            // Self::Variant(..)
                            let full = format!("{pth}::{name}");
                            let is_ctor = {
                                let pr = self.prog.borrow();
                                matches!(pr.defs.get(pth), Some(Def::Enum(e, _)) if e.variants.iter().any(|v| decode_ident(&v.ident.to_string()) == name))
                            };
                            if is_ctor {
                                f = FnRef { name: full, decl: None, self_ty: None, generics: Default::default(), targs: vec![], trait_: None };
                            }
                        }
                    }
                }
                let hints = self.param_hints(&f, false);
                let mut args = vec![];
                for (i, a) in c.args.iter().enumerate() {
                    let h = hints.get(i).cloned().flatten();
                    let h = h.or_else(|| if f.name == "std::option::Option::Some" || f.name == "std::result::Result::Ok" { hint.and_then(|t| t.args().first().cloned()) } else { None });
                    args.push(self.eval(a, env, fr, h.as_ref())?);
                }
                if f.decl.is_some() {
                    if let (Some(st), Some(d)) = (f.self_ty.clone(), f.decl.clone()) {
                        if d.in_trait.is_some() || f.trait_.is_some() {
                            if let Some(v) = self.host.clone().assoc_call(self, &st, f.trait_.as_deref().or(d.in_trait.as_deref()), &d.name, &args, &site)? {
                                return Ok(v);
                            }
                        }
                    }
                    return self.call_fn(&f, args, &site);
                }
                if let Some(v) = self.host.clone().call(self, &f.name, &f.targs, &args, &site)? {
                    return Ok(v);
                }
                if f.self_ty.is_none() {
                    // trait path `Trait::method(recv, ..)`
                    if let Some(t) = &f.trait_ {
                        let name = f.name.rsplit("::").next().unwrap().to_string();
                        if args.is_empty() {
                            if let Some(h) = hint {
                                return self.assoc(&h.clone(), Some(&t.clone()), &name, &f.targs.clone(), args, hint, &site);
                            }
                            return top("trait call without receiver");
                        }
                        return self.method_site(args[0].clone(), &name, args[1..].to_vec(), &f.targs.clone(), hint, &site);
                    }
                    if let Some(v) = self.construct(&f.name, &args)? {
                        return Ok(v);
                    }
                    if f.name.ends_with("Default::default") {
                        return match hint {
                            Some(t) => self.default_of(t),
                            None => Ok(symv("default", "@default")),
                        };
                    }
                    return crate::models::call_path(self, &f.name, &f.targs, args, hint, &site);
                }
                return self.call_fnref(&f, args, hint, &site);
            }
        }
        let f = self.eval(func, env, fr, None)?;
        let mut args = vec![];
        for a in &c.args {
            args.push(self.eval(a, env, fr, None)?);
        }
        self.call_value(&f, args)
    }

    fn method_expr(&mut self, m: &syn::ExprMethodCall, env: &Env, fr: &Rc<Frame>, hint: Option<&Ty>) -> R<V> {
        let site = self.site(fr, m.method.span());
        let name = decode_ident(&m.method.to_string());
        let recv = match self.place(&m.receiver, env, fr)? {
            Some(p) => V::Ref(p),
            None => {
                let h = if matches!(name.as_str(), "unwrap" | "expect" | "unwrap_or_default" | "clone" | "into_iter") { hint } else { None };
                self.eval(&m.receiver, env, fr, h)?
            }
        };
        let targs: Vec<Ty> = match &m.turbofish {
            Some(t) => t
                .args
                .iter()
                .filter_map(|x| match x {
                    syn::GenericArgument::Type(t) => Some(self.ty_of(t, fr)),
                    _ => None,
                })
                .collect(),
            None => vec![],
        };
        // user method: argument hints
        let rty = {
            let v = self.strip(recv.clone())?;
            self.type_of(&v)
        };
        let mut hints = vec![];
        if !m.args.is_empty() {
            if let Some(mut f) = self.find_assoc(&rty, &name, None)? {
                f.targs = targs.clone();
                hints = self.param_hints(&f, true);
            }
        }
        let mut args = vec![];
        for (i, a) in m.args.iter().enumerate() {
            let h = hints.get(i).cloned().flatten();
            args.push(self.eval(a, env, fr, h.as_ref())?);
        }
        self.method_site(recv, &name, args, &targs, hint, &site)
    }

    pub fn method(&mut self, recv: V, name: &str, args: Vec<V>, targs: &[Ty], hint: Option<&Ty>, _line: usize) -> R<V> {
        self.method_site(recv, name, args, targs, hint, "")
    }

    pub fn method_site(&mut self, recv: V, name: &str, args: Vec<V>, targs: &[Ty], hint: Option<&Ty>, site: &str) -> R<V> {
        self.tick()?;
        let (val, place) = self.deref_all(recv)?;
        // methods of the program's own types and traits
        let ty = self.type_of(&val);
        let is_cell = matches!(val, V::Cell(_));
        if !is_cell && !matches!(ty, Ty::Infer) {
            if let Some(mut f) = self.find_assoc(&ty, name, None)? {
                let d = f.decl.clone().unwrap();
                if let Some(syn::FnArg::Receiver(r)) = d.sig.inputs.first() {
                    if d.sig.inputs.len() == args.len() + 1 {
                        f.targs = targs.to_vec();
                        let me = match (r.reference.is_some(), r.mutability.is_some(), &place) {
                            (true, true, Some(p)) => V::Ref(p.clone()),
                            (true, true, None) => V::Ref(self.temp(val.clone())),
                            _ => val.clone(),
                        };
                        let mut all = vec![me];
                        all.extend(args);
                        return self.call_fn(&f, all, site);
                    }
                }
            }
        }
        // extractors lead to what they hold
        if let V::Adt(a) = &val {
            if a.ty == "axum::Extension" {
                let p = match &place {
                    Some(p) => p.clone(),
                    None => self.temp(val.clone()),
                };
                let mut pr = p.proj.clone();
                pr.push(Proj::Field("0".into()));
                return self.method_site(V::Ref(Place { cell: p.cell, proj: pr }), name, args, targs, hint, site);
            }
        }
        // program types that are streams: what their poll function is ready with
        if let (V::Adt(a), "next" | "select_next_some" | "try_next") = (&val, name) {
            if args.is_empty() && a.ty.contains("::") {
                if let Some(f) = self.find_assoc(&ty, "poll_next", None)? {
                    let me = match &place {
                        Some(p) => V::Ref(p.clone()),
                        None => V::Ref(self.temp(val.clone())),
                    };
                    let r = self.call_fn(&f, vec![me, symv("cx", "std::task::Context")], site)?;
                    return match self.strip(r)? {
                        V::Adt(p) if p.variant.as_deref() == Some("Ready") => Ok(crate::models::ready(p.fields[0].1.clone())),
                        o => top(format!("poll_next of {} is {}", a.ty, dbg(&o))),
                    };
                }
            }
        }
        if let (V::Adt(pa), "project" | "get_mut" | "as_mut" | "get_ref" | "project_ref") = (&val, name) {
            // pins are transparent
            if args.is_empty() && !pa.ty.starts_with("std::") && !pa.ty.starts_with('@') {
                if let Some(p) = &place {
                    return Ok(V::Ref(p.clone()));
                }
            }
        }
        // user traits implemented for library kinds whose type is not tracked
        if let V::Sym(x) = &val {
            let host = self.host.clone();
            if let Some(v) = host.sym_method(self, x, name, &args, site)? {
                return Ok(v);
            }
        }
        if let V::Adt(a) = &val {
            let host = self.host.clone();
            if let Some(v) = host.call(self, &format!("{}.{name}", a.ty), targs, &std::iter::once(val.clone()).chain(args.iter().cloned()).collect::<Vec<_>>(), site)? {
                return Ok(v);
            }
        }
        crate::models::method(self, val, place, name, args, targs, hint, site)
    }
}

pub fn contains_sym(v: &V) -> bool {
    match v {
        V::Sym(_) => true,
        V::Str(x) => has_sym(x),
        V::Tuple(l) | V::List(l) => l.iter().any(contains_sym),
        V::Adt(a) => a.fields.iter().any(|(_, v)| contains_sym(v)),
        V::Ref(_) => true,
        V::Toks(_) => true,
        _ => false,
    }
}

fn strs_differ(a: &[Part], b: &[Part]) -> bool {
    // literal prefixes that cannot agree, or a name (never empty, no brackets) against punctuation
    match (a.first(), b.first()) {
        (Some(Part::Lit(x)), Some(Part::Lit(y))) => {
            let n = x.len().min(y.len());
            if x.as_bytes()[..n] != y.as_bytes()[..n] {
                return true;
            }
        }
        (None, Some(_)) | (Some(_), None) => return true,
        _ => {}
    }
    if let (Some(Part::Lit(x)), Some(Part::Lit(y))) = (a.last(), b.last()) {
        let n = x.len().min(y.len());
        if x.as_bytes()[x.len() - n..] != y.as_bytes()[y.len() - n..] {
            return true;
        }
    }
    false
}

pub fn same_trait(a: &str, b: &str) -> bool {
    a == b || a.rsplit("::").next() == b.rsplit("::").next()
}

pub fn unify(pat: &Ty, t: &Ty, b: &mut HashMap<String, Ty>) -> bool {
    match (pat, t) {
        (Ty::Atom(n), _) if n.starts_with('\0') => {
            let n = n[1..].to_string();
            match b.get(&n).cloned() {
                Some(Ty::Infer) | None => {
                    b.insert(n, t.clone());
                    true
                }
                Some(x) => x == *t || matches!(t, Ty::Infer),
            }
        }
        (_, Ty::Infer) | (Ty::Infer, _) => true,
        (Ty::Atom(x), Ty::Atom(y)) => x == y,
        (Ty::Adt(p, pa), Ty::Adt(q, qa)) => {
            let same = p == q || same_lib(p, q);
            if !same {
                return false;
            }
            if qa.is_empty() || pa.is_empty() {
                return true;
            }
            // default parameters (hashers) may be missing on either side
            pa.iter().zip(qa.iter()).all(|(x, y)| unify(x, y, b))
        }
        (Ty::Ref(x, _), Ty::Ref(y, _)) => unify(x, y, b),
        (Ty::Tuple(x), Ty::Tuple(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| unify(p, q, b)),
        (Ty::Array(x, n), Ty::Array(y, m)) => {
            if let Some(g) = n.strip_prefix('\0') {
                b.insert(g.into(), Ty::Atom(m.clone()));
            }
            unify(x, y, b)
        }
        (Ty::Slice(x), Ty::Slice(y)) => unify(x, y, b),
        (Ty::Opaque(x, _), Ty::Opaque(y, _)) => x == y,
        (Ty::Never, Ty::Never) => true,
        (Ty::Proj(..), Ty::Proj(..)) => pat == t,
        _ => false,
    }
}

/// library paths that name the same type through different routes
fn same_lib(p: &str, q: &str) -> bool {
    fn std(x: &str) -> bool {
        x.starts_with("std::")
    }
    std(p) && std(q) && p.rsplit("::").next() == q.rsplit("::").next()
}

pub fn toks_text(t: &[Tok]) -> String {
    // identifiers and simple token runs print like proc_macro2 does for single identifiers
    if let [Tok::Ident(i)] = t {
        return i.clone();
    }
    let mut out = String::new();
    for x in t {
        match x {
            Tok::Ident(i) => {
                out.push_str(i);
                out.push(' ');
            }
            Tok::Punct(c, j) => {
                out.push(*c);
                if !*j {
                    out.push(' ');
                }
            }
            Tok::Str(s) => {
                out.push_str(&format!("\"{s}\" "));
            }
            Tok::Lit(l) => {
                out.push_str(l);
                out.push(' ');
            }
            Tok::Group(d, inner) => {
                let (o, c) = match d {
                    '(' => ("(", ")"),
                    '{' => ("{", "}"),
                    '[' => ("[", "]"),
                    _ => ("", ""),
                };
                out.push_str(o);
                out.push_str(&toks_text(inner));
                out.push_str(c);
                out.push(' ');
            }
        }
    }
    out.trim_end().to_string()
}

pub fn expr_attrs(e: &syn::Expr) -> &[syn::Attribute] {
    match e {
        syn::Expr::Block(b) => &b.attrs,
        syn::Expr::Call(b) => &b.attrs,
        syn::Expr::MethodCall(b) => &b.attrs,
        syn::Expr::If(b) => &b.attrs,
        syn::Expr::Match(b) => &b.attrs,
        syn::Expr::Macro(b) => &b.attrs,
        _ => &[],
    }
}
