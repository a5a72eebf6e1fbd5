//! Abstract values.
//!
//! A value is concrete where the analysed source fixes it and a *symbol* where it does not.
//! Symbols inside strings and identifiers are encoded as `\u{E000}<n>\u{E001}` where `<n>` indexes
//! the symbol table, so that every string operation that only moves text around is exact for every
//! possible text of the symbol.

use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub const SO: char = '\u{E000}';
pub const SC: char = '\u{E001}';

thread_local! {
    static SYMS: RefCell<(Vec<String>, HashMap<String, usize>)> = RefCell::new((Vec::new(), HashMap::new()));
}

pub fn sym_id(key: &str) -> usize {
    SYMS.with(|s| {
        let mut s = s.borrow_mut();
        if let Some(i) = s.1.get(key) {
            return *i;
        }
        let i = s.0.len();
        s.0.push(key.to_string());
        s.1.insert(key.to_string(), i);
        i
    })
}

pub fn sym_key(id: usize) -> String {
    SYMS.with(|s| s.borrow().0.get(id).cloned().unwrap_or_else(|| format!("?{id}")))
}

/// marker text of the symbol with this key
pub fn mark(key: &str) -> String {
    format!("{SO}{}{SC}", sym_id(key))
}

pub fn has_sym(s: &str) -> bool {
    s.contains(SO)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    Lit(String),
    Sym(String),
}

pub fn parts(s: &str) -> Vec<Part> {
    let mut out = Vec::new();
    let mut lit = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == SO {
            if !lit.is_empty() {
                out.push(Part::Lit(std::mem::take(&mut lit)));
            }
            let mut n = String::new();
            for d in it.by_ref() {
                if d == SC {
                    break;
                }
                n.push(d);
            }
            out.push(Part::Sym(sym_key(n.parse().unwrap_or(usize::MAX))));
        } else {
            lit.push(c);
        }
    }
    if !lit.is_empty() {
        out.push(Part::Lit(lit));
    }
    out
}

/// human readable rendering: symbols become `⟨key⟩`
pub fn show(s: &str) -> String {
    parts(s)
        .into_iter()
        .map(|p| match p {
            Part::Lit(l) => l,
            Part::Sym(k) => format!("⟨{k}⟩"),
        })
        .collect()
}

/// is the whole string exactly one symbol?
pub fn as_single_sym(s: &str) -> Option<String> {
    let p = parts(s);
    match &p[..] {
        [Part::Sym(k)] => Some(k.clone()),
        _ => None,
    }
}

// identifiers that pass through syn: __zlm12__
pub fn encode_ident(s: &str) -> String {
    let mut out = String::new();
    for p in parts(s) {
        match p {
            Part::Lit(l) => out.push_str(&l),
            Part::Sym(k) => out.push_str(&format!("__zlm{}__", sym_id(&k))),
        }
    }
    out
}

pub fn decode_ident(s: &str) -> String {
    if !s.contains("__zlm") {
        return s.to_string();
    }
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("__zlm") {
        let after = &rest[i + 5..];
        if let Some(j) = after.find("__") {
            if !after[..j].is_empty() && after[..j].chars().all(|c| c.is_ascii_digit()) {
                out.push_str(&rest[..i]);
                out.push(SO);
                out.push_str(&after[..j]);
                out.push(SC);
                rest = &after[j + 2..];
                continue;
            }
        }
        out.push_str(&rest[..i + 5]);
        rest = &rest[i + 5..];
    }
    out.push_str(rest);
    out
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Adt(String, Vec<Ty>),
    Ref(Box<Ty>, bool),
    Tuple(Vec<Ty>),
    Array(Box<Ty>, String),
    Slice(Box<Ty>),
    /// an arbitrary type (of the schematic input, or a generic parameter left open)
    Atom(String),
    /// `impl Trait` / `dyn Trait`
    Opaque(String, Vec<(String, Ty)>),
    FnPtr,
    Never,
    Infer,
    /// `<T as Trait>::Name` on an atom
    Proj(Box<Ty>, String, String),
}

impl Ty {
    pub fn show(&self) -> String {
        match self {
            Ty::Adt(p, a) if a.is_empty() => show(p),
            Ty::Adt(p, a) => format!("{}<{}>", show(p), a.iter().map(|t| t.show()).collect::<Vec<_>>().join(", ")),
            Ty::Ref(t, m) => format!("&{}{}", if *m { "mut " } else { "" }, t.show()),
            Ty::Tuple(a) => format!("({})", a.iter().map(|t| t.show()).collect::<Vec<_>>().join(", ")),
            Ty::Array(t, n) => format!("[{}; {}]", t.show(), n),
            Ty::Slice(t) => format!("[{}]", t.show()),
            Ty::Atom(a) => show(a),
            Ty::Opaque(a, _) => show(a),
            Ty::FnPtr => "fn".into(),
            Ty::Never => "!".into(),
            Ty::Infer => "_".into(),
            Ty::Proj(t, tr, n) => format!("<{} as {}>::{}", t.show(), tr, n),
        }
    }
    pub fn last(&self) -> &str {
        match self {
            Ty::Adt(p, _) => p.rsplit("::").next().unwrap_or(p),
            Ty::Ref(t, _) => t.last(),
            _ => "",
        }
    }
    pub fn args(&self) -> &[Ty] {
        match self {
            Ty::Adt(_, a) => a,
            Ty::Ref(t, _) => t.args(),
            _ => &[],
        }
    }
    pub fn strip_ref(&self) -> &Ty {
        match self {
            Ty::Ref(t, _) => t.strip_ref(),
            t => t,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Tok {
    Ident(String),
    Punct(char, bool),
    /// string literal (unescaped text)
    Str(String),
    /// any other literal, source text
    Lit(String),
    Group(char, Rc<Vec<Tok>>),
}

#[derive(Clone)]
pub struct AdtV {
    pub ty: String,
    pub variant: Option<String>,
    pub fields: Vec<(String, V)>,
}

pub struct SymV {
    pub key: String,
    pub ty: String,
}

#[derive(Clone, Debug)]
pub enum Proj {
    Field(String),
    Idx(usize),
    /// value of the n-th map entry
    MapVal(usize),
}

#[derive(Clone)]
pub struct Place {
    pub cell: Rc<RefCell<V>>,
    pub proj: Vec<Proj>,
}

pub struct ClosureV {
    pub ast: Rc<syn::ExprClosure>,
    pub env: crate::interp::Env,
    pub frame: Rc<crate::interp::Frame>,
}

pub struct Thunk {
    pub body: ThunkBody,
    pub env: crate::interp::Env,
    pub frame: Rc<crate::interp::Frame>,
}

pub enum ThunkBody {
    Block(Rc<syn::Block>),
    /// an already evaluated future
    Ready(V),
    /// opaque future of the environment
    Sym(String, String),
}

#[derive(Clone)]
pub struct FnRef {
    pub name: String,
    pub decl: Option<Rc<crate::load::FnDecl>>,
    pub self_ty: Option<Ty>,
    pub generics: Rc<HashMap<String, Ty>>,
    pub targs: Vec<Ty>,
    pub trait_: Option<String>,
}

#[derive(Clone)]
pub enum V {
    Unit,
    Bool(bool),
    Int(i128),
    Char(char),
    Float(f64),
    Str(Rc<str>),
    List(Rc<Vec<V>>),
    Map(Rc<Vec<(V, V)>>, bool),
    Set(Rc<Vec<V>>, bool),
    Tuple(Rc<Vec<V>>),
    Adt(Rc<AdtV>),
    Closure(Rc<ClosureV>),
    Fn(Rc<FnRef>),
    Toks(Rc<Vec<Tok>>),
    Sym(Rc<SymV>),
    Ref(Place),
    Iter(Rc<RefCell<crate::iter::It>>),
    Fut(Rc<RefCell<Option<Thunk>>>),
    Range(Option<i128>, Option<i128>, bool),
    /// shared mutable cell (Rc<RefCell<..>>, Arc<Mutex<..>>)
    Cell(Rc<RefCell<V>>),
    TyVal(Ty),
}

pub fn s(x: impl AsRef<str>) -> V {
    V::Str(Rc::from(x.as_ref()))
}
pub fn list(v: Vec<V>) -> V {
    V::List(Rc::new(v))
}
pub fn tuple(v: Vec<V>) -> V {
    V::Tuple(Rc::new(v))
}
pub fn adt(ty: &str, variant: Option<&str>, fields: Vec<(&str, V)>) -> V {
    V::Adt(Rc::new(AdtV {
        ty: ty.into(),
        variant: variant.map(|x| x.to_string()),
        fields: fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect(),
    }))
}
pub fn some(v: V) -> V {
    adt("std::option::Option", Some("Some"), vec![("0", v)])
}
pub fn none() -> V {
    adt("std::option::Option", Some("None"), vec![])
}
pub fn ok(v: V) -> V {
    adt("std::result::Result", Some("Ok"), vec![("0", v)])
}
pub fn err(v: V) -> V {
    adt("std::result::Result", Some("Err"), vec![("0", v)])
}
pub fn opt(v: Option<V>) -> V {
    match v {
        Some(v) => some(v),
        None => none(),
    }
}
pub fn symv(key: impl AsRef<str>, ty: &str) -> V {
    V::Sym(Rc::new(SymV { key: key.as_ref().into(), ty: ty.into() }))
}
thread_local! {
    static LENS: RefCell<HashMap<String, (Vec<String>, i128)>> = RefCell::new(HashMap::new());
    static BOUNDS: RefCell<Vec<V>> = RefCell::new(Vec::new());
}
/// range bounds at or above this stand for an entry of `BOUNDS`
pub const BOUND: i128 = 1 << 100;

/// the length of a text: the sum of the lengths of the symbols in it, and a constant
pub fn len_value(mut syms: Vec<String>, off: i128) -> V {
    if syms.is_empty() {
        return V::Int(off);
    }
    syms.sort();
    let key = format!("len({}){off:+}", syms.join(" + "));
    LENS.with(|l| l.borrow_mut().insert(key.clone(), (syms, off)));
    symv(key, "len")
}
pub fn len_parts(v: &V) -> Option<(Vec<String>, i128)> {
    match v {
        V::Int(n) => Some((vec![], *n)),
        V::Sym(x) if &*x.ty == "len" => LENS.with(|l| l.borrow().get(&*x.key).cloned()),
        _ => None,
    }
}
pub fn len_of_text(x: &str) -> V {
    let (mut syms, mut off) = (vec![], 0);
    for p in parts(x) {
        match p {
            Part::Lit(l) => off += l.len() as i128,
            Part::Sym(k) => syms.push(k),
        }
    }
    len_value(syms, off)
}
/// what remains of the symbols of `a` without those of `b`
fn without(a: &[String], b: &[String]) -> Vec<String> {
    let mut r = a.to_vec();
    for x in b {
        if let Some(i) = r.iter().position(|y| y == x) {
            r.remove(i);
        }
    }
    r
}
/// `a - b` as far as it is decided by symbols not being empty: (least, is exact)
pub fn len_diff(a: &V, b: &V) -> Option<(i128, bool)> {
    let (x, y) = (len_parts(a)?, len_parts(b)?);
    let (p, q) = (without(&x.0, &y.0), without(&y.0, &x.0));
    if !q.is_empty() {
        return None;
    }
    Some((x.1 - y.1 + p.len() as i128, p.is_empty()))
}
pub fn len_arith(op: &str, a: &V, b: &V) -> Option<V> {
    let (mut x, y) = (len_parts(a)?, len_parts(b)?);
    match op {
        "+" => {
            x.0.extend(y.0);
            Some(len_value(x.0, x.1 + y.1))
        }
        "-" => {
            if !without(&y.0, &x.0).is_empty() {
                return None;
            }
            Some(len_value(without(&x.0, &y.0), x.1 - y.1))
        }
        _ => None,
    }
}
/// the place in the marked text that is `n` bytes into every text it stands for
pub fn offset_in(x: &str, n: &V) -> Option<usize> {
    let want = match n {
        V::Int(i) if *i >= BOUND => BOUNDS.with(|b| b.borrow().get((*i - BOUND) as usize).cloned())?,
        o => o.clone(),
    };
    let (want, off) = len_parts(&want)?;
    let (mut seen, mut lit, mut at) = (vec![], 0i128, 0usize);
    let all = parts(x);
    for (i, p) in all.iter().enumerate() {
        match p {
            Part::Lit(l) => {
                if seen.len() == want.len() && without(&seen, &want).is_empty() && off >= lit && off <= lit + l.len() as i128 {
                    let k = at + (off - lit) as usize;
                    return x.is_char_boundary(k).then_some(k);
                }
                lit += l.len() as i128;
                at += l.len();
            }
            Part::Sym(k) => {
                if seen.len() == want.len() && without(&seen, &want).is_empty() && off == lit {
                    return Some(at);
                }
                seen.push(k.clone());
                at += mark(k).len();
            }
        }
        if i + 1 == all.len() && seen.len() == want.len() && without(&seen, &want).is_empty() && off == lit {
            return Some(at);
        }
    }
    if all.is_empty() && want.is_empty() && off == 0 {
        return Some(0);
    }
    None
}
/// a length as the bound of a range
pub fn as_bound(v: &V) -> Option<i128> {
    len_parts(v)?;
    Some(BOUNDS.with(|b| {
        let mut b = b.borrow_mut();
        b.push(v.clone());
        BOUND + b.len() as i128 - 1
    }))
}
pub fn is_bound(a: Option<i128>, e: Option<i128>) -> bool {
    a.map(|a| a >= BOUND).unwrap_or(false) || e.map(|e| e >= BOUND).unwrap_or(false)
}

pub fn sym_str(key: impl AsRef<str>) -> V {
    s(mark(key.as_ref()))
}
pub fn ident(x: impl AsRef<str>) -> V {
    V::Toks(Rc::new(vec![Tok::Ident(x.as_ref().to_string())]))
}
pub fn toks(v: Vec<Tok>) -> V {
    V::Toks(Rc::new(v))
}

impl V {
    pub fn is_variant(&self, v: &str) -> bool {
        matches!(self, V::Adt(a) if a.variant.as_deref() == Some(v))
    }
    pub fn field(&self, f: &str) -> Option<V> {
        match self {
            V::Adt(a) => a.fields.iter().find(|(k, _)| k == f).map(|(_, v)| v.clone()),
            V::Tuple(t) => f.parse::<usize>().ok().and_then(|i| t.get(i).cloned()),
            _ => None,
        }
    }
    pub fn as_str(&self) -> Option<Rc<str>> {
        match self {
            V::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            V::Unit => "unit",
            V::Bool(_) => "bool",
            V::Int(_) => "int",
            V::Char(_) => "char",
            V::Float(_) => "float",
            V::Str(_) => "str",
            V::List(_) => "list",
            V::Map(..) => "map",
            V::Set(..) => "set",
            V::Tuple(_) => "tuple",
            V::Adt(_) => "adt",
            V::Closure(_) => "closure",
            V::Fn(_) => "fn",
            V::Toks(_) => "tokens",
            V::Sym(_) => "symbol",
            V::Ref(_) => "ref",
            V::Iter(_) => "iter",
            V::Fut(_) => "future",
            V::Range(..) => "range",
            V::Cell(_) => "cell",
            V::TyVal(_) => "type",
        }
    }
}

pub fn show_toks(t: &[Tok]) -> String {
    let mut out = String::new();
    for x in t {
        match x {
            Tok::Ident(i) => {
                out.push_str(&show(i));
                out.push(' ');
            }
            Tok::Punct(c, joint) => {
                out.push(*c);
                if !*joint {
                    out.push(' ');
                }
            }
            Tok::Str(s) => {
                out.push_str(&format!("\"{}\" ", show(s)));
            }
            Tok::Lit(s) => {
                out.push_str(s);
                out.push(' ');
            }
            Tok::Group(d, inner) => {
                let (o, c) = match d {
                    '(' => ("(", ")"),
                    '{' => ("{", "}"),
                    '[' => ("[", "]"),
                    _ => ("", ""),
                };
                out.push_str(o);
                out.push_str(&show_toks(inner));
                out.push_str(c);
                out.push(' ');
            }
        }
    }
    out
}

pub fn dbg(v: &V) -> String {
    match v {
        V::Unit => "()".into(),
        V::Bool(b) => b.to_string(),
        V::Int(i) => i.to_string(),
        V::Char(c) => format!("{c:?}"),
        V::Float(f) => f.to_string(),
        V::Str(s) => format!("\"{}\"", show(s)),
        V::List(l) => format!("[{}]", l.iter().map(dbg).collect::<Vec<_>>().join(", ")),
        V::Set(l, _) => format!("{{{}}}", l.iter().map(dbg).collect::<Vec<_>>().join(", ")),
        V::Tuple(l) => format!("({})", l.iter().map(dbg).collect::<Vec<_>>().join(", ")),
        V::Map(m, _) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", dbg(k), dbg(v))).collect::<Vec<_>>().join(", ")),
        V::Adt(a) => {
            let n = match &a.variant {
                Some(v) => v.clone(),
                None => a.ty.rsplit("::").next().unwrap_or("").to_string(),
            };
            if a.fields.is_empty() {
                n
            } else {
                format!("{n}{{{}}}", a.fields.iter().map(|(k, v)| format!("{k}: {}", dbg(v))).collect::<Vec<_>>().join(", "))
            }
        }
        V::Toks(t) => format!("`{}`", show_toks(t).trim()),
        V::Sym(s) => format!("⟨{}⟩", s.key),
        V::Ref(p) => format!("&{}", read_dbg(p)),
        V::TyVal(t) => t.show(),
        V::Cell(c) => format!("cell({})", c.try_borrow().map(|v| dbg(&v)).unwrap_or_default()),
        o => format!("<{}>", o.kind()),
    }
}

fn read_dbg(_p: &Place) -> String {
    "place".into()
}
