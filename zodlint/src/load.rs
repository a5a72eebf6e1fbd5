//! Loading of the analysed program: every crate's module tree, items, impls and name resolution.

use crate::value::Ty;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::rc::Rc;

pub struct FnDecl {
    pub name: String,
    pub sig: syn::Signature,
    pub block: Option<Rc<syn::Block>>,
    pub attrs: Vec<syn::Attribute>,
    pub module: String,
    pub file: String,
    pub line: usize,
    /// generic parameter names of the surrounding impl / trait
    pub outer_generics: Vec<String>,
    pub in_trait: Option<String>,
    pub vis_pub: bool,
}

pub struct ImplBlock {
    pub module: String,
    pub file: String,
    pub line: usize,
    pub generics: syn::Generics,
    pub trait_: Option<(String, Vec<syn::GenericArgument>)>,
    pub self_ty: syn::Type,
    pub fns: BTreeMap<String, Rc<FnDecl>>,
    pub consts: HashMap<String, Rc<syn::ImplItemConst>>,
    pub types: HashMap<String, Rc<syn::ImplItemType>>,
    pub attrs: Vec<syn::Attribute>,
    pub item: Rc<syn::ItemImpl>,
    /// generic names and the type pattern (resolved once)
    pub pat: std::cell::OnceCell<(Vec<String>, Ty)>,
}

pub struct TraitDef {
    pub path: String,
    pub module: String,
    pub fns: BTreeMap<String, Rc<FnDecl>>,
    pub item: Rc<syn::ItemTrait>,
}

#[derive(Clone)]
pub enum Def {
    Fn(Rc<FnDecl>),
    Struct(Rc<syn::ItemStruct>, String),
    Enum(Rc<syn::ItemEnum>, String),
    Trait(Rc<TraitDef>),
    Const(Rc<syn::ItemConst>, String),
    Static(Rc<syn::ItemStatic>, String),
    Alias(Rc<syn::ItemType>, String),
    Mod(String),
}

#[derive(Default)]
pub struct Module {
    pub path: String,
    pub file: String,
    pub parent: Option<String>,
    pub uses: HashMap<String, Vec<String>>,
    pub globs: Vec<Vec<String>>,
}

#[derive(Default)]
pub struct Program {
    pub modules: HashMap<String, Module>,
    pub defs: HashMap<String, Def>,
    /// several items of one name in one module (value and type namespace)
    pub val_defs: HashMap<String, Def>,
    pub impls: Rc<Vec<Rc<ImplBlock>>>,
    pub macros: HashMap<String, Rc<crate::macros::MacroDef>>,
    pub crates: Vec<String>,
    pub files: Vec<(String, String)>,
    pub macro_calls: Vec<(String, String, syn::Macro)>,
    pub inner_attrs: Vec<(String, Vec<syn::Attribute>)>,
    pub errors: Vec<String>,
    /// macros invoked at item level that could not be expanded: (module, name, tokens)
    pub foreign_item_macros: Vec<(String, String, String, proc_macro2::TokenStream)>,
}

pub fn path_segs(p: &syn::Path) -> Vec<String> {
    p.segments.iter().map(|s| crate::value::decode_ident(&s.ident.to_string())).collect()
}

pub fn cfg_true(attrs: &[syn::Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            if let Ok(m) = a.parse_args::<syn::Meta>() {
                if !cfg_meta(&m) {
                    return false;
                }
            }
        }
    }
    true
}

fn cfg_meta(m: &syn::Meta) -> bool {
    match m {
        syn::Meta::Path(p) => {
            if p.is_ident("test") {
                false
            } else {
                // debug_assertions, unix: on; anything unknown (guards): off
                p.is_ident("debug_assertions") || p.is_ident("unix")
            }
        }
        syn::Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                true
            } else {
                let v = quote::quote!(#nv).to_string();
                v.contains("\"linux\"") || v.contains("\"64\"") || v.contains("\"x86_64\"") || v.contains("\"unix\"")
            }
        }
        syn::Meta::List(l) => {
            let inner: Vec<syn::Meta> = l
                .parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect())
                .unwrap_or_default();
            if l.path.is_ident("not") {
                !inner.iter().any(cfg_meta)
            } else if l.path.is_ident("any") {
                inner.iter().any(cfg_meta)
            } else {
                inner.iter().all(cfg_meta)
            }
        }
    }
}

const PRELUDE: &[(&str, &str)] = &[
    ("Vec", "std::vec::Vec"),
    ("String", "std::string::String"),
    ("ToString", "std::string::ToString"),
    ("Option", "std::option::Option"),
    ("Some", "std::option::Option::Some"),
    ("None", "std::option::Option::None"),
    ("Result", "std::result::Result"),
    ("Ok", "std::result::Result::Ok"),
    ("Err", "std::result::Result::Err"),
    ("Box", "std::boxed::Box"),
    ("Default", "std::default::Default"),
    ("Clone", "std::clone::Clone"),
    ("Iterator", "std::iter::Iterator"),
    ("IntoIterator", "std::iter::IntoIterator"),
    ("DoubleEndedIterator", "std::iter::DoubleEndedIterator"),
    ("Extend", "std::iter::Extend"),
    ("FromIterator", "std::iter::FromIterator"),
    ("ToOwned", "std::borrow::ToOwned"),
    ("From", "std::convert::From"),
    ("Into", "std::convert::Into"),
    ("TryFrom", "std::convert::TryFrom"),
    ("TryInto", "std::convert::TryInto"),
    ("AsRef", "std::convert::AsRef"),
    ("Drop", "std::ops::Drop"),
    ("Fn", "std::ops::Fn"),
    ("FnMut", "std::ops::FnMut"),
    ("FnOnce", "std::ops::FnOnce"),
    ("drop", "std::mem::drop"),
    ("Send", "std::marker::Send"),
    ("Sync", "std::marker::Sync"),
    ("Sized", "std::marker::Sized"),
    ("PartialEq", "std::cmp::PartialEq"),
    ("Debug", "std::fmt::Debug"),
];

pub const PRIMS: &[&str] = &[
    "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64", "bool", "char", "str",
];

impl Program {
    pub fn load(repo: &Path) -> Program {
        let mut p = Program::default();
        let mut todo = Vec::new();
        for (name, root, dir) in [
            ("zod_core", "core/src/lib.rs", "core"),
            ("zod_derive", "derive/src/lib.rs", "derive"),
            ("zod", "src/lib.rs", ""),
        ] {
            let _ = dir;
            p.crates.push(name.into());
            todo.push((name.to_string(), repo.join(root)));
        }
        for (name, file) in todo {
            p.load_file(repo, &name, &file, None);
        }
        p
    }

    fn load_file(&mut self, repo: &Path, module: &str, file: &Path, parent: Option<String>) {
        let rel = file.strip_prefix(repo).unwrap_or(file).to_string_lossy().to_string();
        let src = match std::fs::read_to_string(file) {
            Ok(s) => s,
            Err(e) => {
                self.errors.push(format!("{rel}: {e}"));
                return;
            }
        };
        self.files.push((rel.clone(), src.clone()));
        let ast = match syn::parse_file(&src) {
            Ok(a) => a,
            Err(e) => {
                self.errors.push(format!("{rel}: {e}"));
                return;
            }
        };
        self.inner_attrs.push((rel.clone(), ast.attrs.clone()));
        self.modules.insert(
            module.into(),
            Module { path: module.into(), file: rel.clone(), parent, ..Default::default() },
        );
        // directory in which child modules live
        let stem = file.file_stem().unwrap().to_string_lossy().to_string();
        let base = file.parent().unwrap().to_path_buf();
        let dir = if stem == "lib" || stem == "mod" || stem == "main" { base } else { base.join(stem) };
        self.add_items(repo, module, &rel, &dir, ast.items);
    }

    pub fn add_module(&mut self, path: &str, file: &str, parent: Option<String>) {
        self.modules
            .insert(path.into(), Module { path: path.into(), file: file.into(), parent, ..Default::default() });
    }

    pub fn remove_module(&mut self, path: &str) {
        let pre = format!("{path}::");
        self.modules.retain(|k, _| k != path && !k.starts_with(&pre));
        self.defs.retain(|k, _| !k.starts_with(&pre));
        self.val_defs.retain(|k, _| !k.starts_with(&pre));
        Rc::make_mut(&mut self.impls).retain(|i| i.module != path && !i.module.starts_with(&pre));
    }

    fn def(&mut self, module: &str, name: &str, d: Def) {
        let key = format!("{module}::{name}");
        match &d {
            Def::Fn(_) | Def::Const(..) | Def::Static(..) => {
                self.val_defs.insert(key, d);
            }
            _ => {
                self.defs.insert(key, d);
            }
        }
    }

    pub fn add_items(&mut self, repo: &Path, module: &str, file: &str, dir: &Path, items: Vec<syn::Item>) {
        use syn::Item::*;
        let mut macro_items = Vec::new();
        for item in items {
            match item {
                Fn(f) => {
                    if !cfg_true(&f.attrs) || f.attrs.iter().any(|a| a.path().is_ident("test")) {
                        continue;
                    }
                    let d = FnDecl {
                        name: crate::value::decode_ident(&f.sig.ident.to_string()),
                        line: line_of(f.sig.ident.span()),
                        sig: f.sig,
                        block: Some(Rc::new(*f.block)),
                        attrs: f.attrs,
                        module: module.into(),
                        file: file.into(),
                        outer_generics: vec![],
                        in_trait: None,
                        vis_pub: matches!(f.vis, syn::Visibility::Public(_)),
                    };
                    let n = d.name.clone();
                    self.def(module, &n, Def::Fn(Rc::new(d)));
                }
                Struct(s) => {
                    if cfg_true(&s.attrs) {
                        let n = crate::value::decode_ident(&s.ident.to_string());
                        self.def(module, &n, Def::Struct(Rc::new(s), module.into()));
                    }
                }
                Enum(s) => {
                    if cfg_true(&s.attrs) {
                        let n = crate::value::decode_ident(&s.ident.to_string());
                        self.def(module, &n, Def::Enum(Rc::new(s), module.into()));
                    }
                }
                Const(c) => {
                    if !cfg_true(&c.attrs) {
                        continue;
                    }
                    if c.ident == "_" {
                        // `const _: () = { items };`
                        if let syn::Expr::Block(b) = &*c.expr {
                            let m2 = format!("{module}::const{}", self.modules.len());
                            self.add_module(&m2, file, Some(module.into()));
                            let its: Vec<syn::Item> = b
                                .block
                                .stmts
                                .iter()
                                .filter_map(|s| match s {
                                    syn::Stmt::Item(i) => Some(i.clone()),
                                    syn::Stmt::Macro(m) => Some(syn::Item::Macro(syn::ItemMacro {
                                        attrs: m.attrs.clone(),
                                        ident: None,
                                        mac: m.mac.clone(),
                                        semi_token: m.semi_token,
                                    })),
                                    _ => None,
                                })
                                .collect();
                            self.add_items(repo, &m2, file, dir, its);
                        }
                        continue;
                    }
                    let n = crate::value::decode_ident(&c.ident.to_string());
                    self.def(module, &n, Def::Const(Rc::new(c), module.into()));
                }
                Static(c) => {
                    if cfg_true(&c.attrs) {
                        let n = c.ident.to_string();
                        self.def(module, &n, Def::Static(Rc::new(c), module.into()));
                    }
                }
                Type(t) => {
                    if cfg_true(&t.attrs) {
                        let n = t.ident.to_string();
                        self.def(module, &n, Def::Alias(Rc::new(t), module.into()));
                    }
                }
                Mod(m) => {
                    if !cfg_true(&m.attrs) {
                        continue;
                    }
                    let n = m.ident.to_string();
                    let path = format!("{module}::{n}");
                    self.def(module, &n, Def::Mod(path.clone()));
                    match m.content {
                        Some((_, items)) => {
                            self.add_module(&path, file, Some(module.into()));
                            self.inner_attrs.push((file.to_string(), m.attrs.clone()));
                            self.add_items(repo, &path, file, &dir.join(&n), items);
                        }
                        None => {
                            let attr_path = m.attrs.iter().find_map(|a| {
                                if !a.path().is_ident("path") {
                                    return None;
                                }
                                match &a.meta {
                                    syn::Meta::NameValue(nv) => match &nv.value {
                                        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()),
                                        _ => None,
                                    },
                                    _ => None,
                                }
                            });
                            let f1 = match attr_path {
                                Some(p) => dir.join(p),
                                None => {
                                    let a = dir.join(format!("{n}.rs"));
                                    if a.exists() {
                                        a
                                    } else {
                                        dir.join(&n).join("mod.rs")
                                    }
                                }
                            };
                            let f1: PathBuf = f1;
                            self.load_file(repo, &path, &f1, Some(module.into()));
                        }
                    }
                }
                Trait(t) => {
                    if !cfg_true(&t.attrs) {
                        continue;
                    }
                    let n = t.ident.to_string();
                    let path = format!("{module}::{n}");
                    let gens = gen_names(&t.generics);
                    let mut fns = BTreeMap::new();
                    for it in &t.items {
                        if let syn::TraitItem::Fn(f) = it {
                            if !cfg_true(&f.attrs) {
                                continue;
                            }
                            let d = FnDecl {
                                name: f.sig.ident.to_string(),
                                sig: f.sig.clone(),
                                block: f.default.clone().map(Rc::new),
                                attrs: f.attrs.clone(),
                                module: module.into(),
                                file: file.into(),
                                line: line_of(f.sig.ident.span()),
                                outer_generics: gens.clone(),
                                in_trait: Some(path.clone()),
                                vis_pub: true,
                            };
                            fns.insert(d.name.clone(), Rc::new(d));
                        }
                    }
                    let td = TraitDef { path: path.clone(), module: module.into(), fns, item: Rc::new(t) };
                    self.def(module, &n, Def::Trait(Rc::new(td)));
                }
                Impl(i) => {
                    if cfg_true(&i.attrs) {
                        self.add_impl(module, file, i);
                    }
                }
                Use(u) => {
                    if cfg_true(&u.attrs) {
                        self.add_use(module, &u.tree, Vec::new());
                    }
                }
                ExternCrate(e) => {
                    let n = e.ident.to_string();
                    let alias = e.rename.as_ref().map(|r| r.1.to_string()).unwrap_or(n.clone());
                    if let Some(m) = self.modules.get_mut(module) {
                        m.uses.insert(alias, vec!["".into(), n]);
                    }
                }
                Macro(m) => {
                    if !cfg_true(&m.attrs) {
                        continue;
                    }
                    if m.mac.path.is_ident("macro_rules") {
                        if let Some(id) = &m.ident {
                            match crate::macros::MacroDef::parse(m.mac.tokens.clone()) {
                                Ok(d) => {
                                    self.macros.insert(format!("{}", id), Rc::new(d));
                                }
                                Err(e) => self.errors.push(format!("{file}: macro {id}: {e}")),
                            }
                        }
                    } else {
                        macro_items.push(m);
                    }
                }
                _ => {}
            }
        }
        for m in macro_items {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if let Some(def) = self.macros.get(&name).cloned() {
                match def.expand(m.mac.tokens.clone()) {
                    Ok(ts) => match syn::parse2::<syn::File>(ts) {
                        Ok(f) => self.add_items(repo, module, file, dir, f.items),
                        Err(e) => self.errors.push(format!("{file}: expansion of {name}!: {e}")),
                    },
                    Err(e) => self.errors.push(format!("{file}: {name}!: {e}")),
                }
            } else if name == "pin_project" || name == "cfg_if" {
                if let Ok(f) = syn::parse2::<syn::File>(m.mac.tokens.clone()) {
                    self.add_items(repo, module, file, dir, f.items);
                }
            } else {
                self.foreign_item_macros.push((module.into(), file.into(), path_segs(&m.mac.path).join("::"), m.mac.tokens.clone()));
            }
        }
    }

    pub fn add_impl(&mut self, module: &str, file: &str, i: syn::ItemImpl) {
        let mut fns = BTreeMap::new();
        let mut consts = HashMap::new();
        let mut types = HashMap::new();
        let gens = gen_names(&i.generics);
        let trait_ = i.trait_.as_ref().map(|(_, p, _)| {
            let args = match &p.segments.last().unwrap().arguments {
                syn::PathArguments::AngleBracketed(a) => a.args.iter().cloned().collect(),
                _ => vec![],
            };
            (self.resolve_lenient(module, &path_segs(p), p.leading_colon.is_some()), args)
        });
        for it in &i.items {
            match it {
                syn::ImplItem::Fn(f) if cfg_true(&f.attrs) => {
                    let d = FnDecl {
                        name: crate::value::decode_ident(&f.sig.ident.to_string()),
                        sig: f.sig.clone(),
                        block: Some(Rc::new(f.block.clone())),
                        attrs: f.attrs.clone(),
                        module: module.into(),
                        file: file.into(),
                        line: line_of(f.sig.ident.span()),
                        outer_generics: gens.clone(),
                        in_trait: trait_.as_ref().map(|t| t.0.clone()),
                        vis_pub: matches!(f.vis, syn::Visibility::Public(_)) || trait_.is_some(),
                    };
                    fns.insert(d.name.clone(), Rc::new(d));
                }
                syn::ImplItem::Const(c) => {
                    consts.insert(crate::value::decode_ident(&c.ident.to_string()), Rc::new(c.clone()));
                }
                syn::ImplItem::Type(t) => {
                    types.insert(t.ident.to_string(), Rc::new(t.clone()));
                }
                _ => {}
            }
        }
        Rc::make_mut(&mut self.impls).push(Rc::new(ImplBlock {
            module: module.into(),
            file: file.into(),
            line: line_of(i.impl_token.span),
            generics: i.generics.clone(),
            trait_,
            self_ty: (*i.self_ty).clone(),
            fns,
            consts,
            types,
            attrs: i.attrs.clone(),
            item: Rc::new(i),
            pat: Default::default(),
        }));
    }

    fn add_use(&mut self, module: &str, t: &syn::UseTree, mut pre: Vec<String>) {
        match t {
            syn::UseTree::Path(p) => {
                pre.push(crate::value::decode_ident(&p.ident.to_string()));
                self.add_use(module, &p.tree, pre)
            }
            syn::UseTree::Name(n) => {
                let id = n.ident.to_string();
                let (alias, full) = if id == "self" {
                    (pre.last().cloned().unwrap_or_default(), pre.clone())
                } else {
                    let mut f = pre.clone();
                    f.push(crate::value::decode_ident(&id));
                    (crate::value::decode_ident(&id), f)
                };
                if let Some(m) = self.modules.get_mut(module) {
                    m.uses.insert(alias, full);
                }
            }
            syn::UseTree::Rename(n) => {
                let mut f = pre.clone();
                if n.ident != "self" {
                    f.push(n.ident.to_string());
                }
                if let Some(m) = self.modules.get_mut(module) {
                    m.uses.insert(n.rename.to_string(), f);
                }
            }
            syn::UseTree::Glob(_) => {
                if let Some(m) = self.modules.get_mut(module) {
                    m.globs.push(pre);
                }
            }
            syn::UseTree::Group(g) => {
                for t in &g.items {
                    self.add_use(module, t, pre.clone());
                }
            }
        }
    }

    fn crate_of(module: &str) -> &str {
        module.split("::").next().unwrap()
    }

    fn has_def(&self, key: &str) -> bool {
        self.defs.contains_key(key) || self.val_defs.contains_key(key)
    }

    /// canonical path of a name written in `module`
    pub fn resolve(&self, module: &str, segs: &[String], leading: bool) -> String {
        self.resolve_depth(module, segs, leading, 0)
    }
    pub fn resolve_lenient(&self, module: &str, segs: &[String], leading: bool) -> String {
        self.resolve_depth(module, segs, leading, 0)
    }

    fn resolve_depth(&self, module: &str, segs: &[String], leading: bool, depth: usize) -> String {
        if depth > 24 || segs.is_empty() {
            return segs.join("::");
        }
        let first = segs[0].as_str();
        if first.is_empty() {
            return self.resolve_depth(module, &segs[1..], true, depth + 1);
        }
        if leading {
            return self.in_extern(first, &segs[1..], depth);
        }
        match first {
            "crate" | "$crate" => {
                let c = Self::crate_of(module).to_string();
                return self.walk(c, &segs[1..], depth);
            }
            "self" => return self.walk(self.real_module(module), &segs[1..], depth),
            "super" => {
                let m = self.real_module(module);
                let par = self.modules.get(&m).and_then(|m| m.parent.clone()).unwrap_or_else(|| m.clone());
                let rest = &segs[1..];
                if rest.first().map(|s| s == "super").unwrap_or(false) {
                    return self.resolve_depth(&par, rest, false, depth + 1);
                }
                return self.walk(self.real_module(&par), rest, depth);
            }
            _ => {}
        }
        let mut cur = Some(module.to_string());
        while let Some(m) = cur {
            if let Some(r) = self.lookup_in(&m, first, depth, true) {
                return self.walk(r, &segs[1..], depth);
            }
            // anonymous (block / const) modules see their parents' items
            cur = if is_anon(&m) { self.modules.get(&m).and_then(|x| x.parent.clone()) } else { None };
        }
        if self.crates.iter().any(|c| c == first) {
            return self.walk(first.to_string(), &segs[1..], depth);
        }
        if let Some((_, p)) = PRELUDE.iter().find(|(n, _)| *n == first) {
            let mut out = p.to_string();
            for s in &segs[1..] {
                out.push_str("::");
                out.push_str(s);
            }
            return out;
        }
        self.in_extern(first, &segs[1..], depth)
    }

    fn real_module(&self, module: &str) -> String {
        let mut m = module.to_string();
        while is_anon(&m) {
            match self.modules.get(&m).and_then(|x| x.parent.clone()) {
                Some(p) => m = p,
                None => break,
            }
        }
        m
    }

    fn in_extern(&self, first: &str, rest: &[String], depth: usize) -> String {
        let f = match first {
            "core" | "alloc" => "std",
            f => f,
        };
        if self.crates.iter().any(|c| c == f) {
            return self.walk(f.to_string(), rest, depth);
        }
        let mut out = f.to_string();
        for s in rest {
            out.push_str("::");
            out.push_str(s);
        }
        out
    }

    fn lookup_in(&self, module: &str, name: &str, depth: usize, _private: bool) -> Option<String> {
        let key = format!("{module}::{name}");
        if let Some(Def::Mod(p)) = self.defs.get(&key) {
            return Some(p.clone());
        }
        if self.has_def(&key) {
            return Some(key);
        }
        let m = self.modules.get(module)?;
        if let Some(u) = m.uses.get(name) {
            if depth < 20 {
                if u.first().map(|x| x == name).unwrap_or(false) && u.len() == 1 {
                    return Some(self.in_extern(name, &[], depth + 1));
                }
                // `use x::y` where x == own name of the import: avoid self recursion
                if u.first().map(|x| x == name).unwrap_or(false) && !self.crates.iter().any(|c| c == name) && !self.has_def(&key) {
                    return Some(self.in_extern(&u[0], &u[1..], depth + 1));
                }
                return Some(self.resolve_depth(module, u, false, depth + 1));
            }
        }
        if depth < 12 {
            for g in &m.globs {
                let target = self.resolve_depth(module, g, false, depth + 4);
                if target == module {
                    continue;
                }
                if self.modules.contains_key(&target) {
                    if let Some(r) = self.lookup_in(&target, name, depth + 4, false) {
                        return Some(r);
                    }
                } else if let Some(Def::Enum(e, _)) = self.defs.get(&target) {
                    if e.variants.iter().any(|v| v.ident == name) {
                        return Some(format!("{target}::{name}"));
                    }
                }
            }
        }
        None
    }

    fn walk(&self, mut cur: String, rest: &[String], depth: usize) -> String {
        for (i, s) in rest.iter().enumerate() {
            if self.modules.contains_key(&cur) {
                match self.lookup_in(&cur, s, depth + 1, false) {
                    Some(r) => cur = r,
                    None => {
                        cur = format!("{cur}::{}", rest[i..].join("::"));
                        return cur;
                    }
                }
            } else if let Some(Def::Alias(..)) = self.defs.get(&cur) {
                cur = format!("{cur}::{s}");
            } else {
                cur = format!("{cur}::{s}");
            }
        }
        cur
    }

    pub fn all_fns(&self) -> Vec<Rc<FnDecl>> {
        let mut out: Vec<Rc<FnDecl>> = Vec::new();
        for d in self.val_defs.values() {
            if let Def::Fn(f) = d {
                out.push(f.clone());
            }
        }
        for d in self.defs.values() {
            if let Def::Trait(t) = d {
                out.extend(t.fns.values().cloned());
            }
        }
        for i in self.impls.iter() {
            out.extend(i.fns.values().cloned());
        }
        out.sort_by(|a, b| (&a.file, a.line).cmp(&(&b.file, b.line)));
        out
    }
}

pub fn is_anon(m: &str) -> bool {
    let last = m.rsplit("::").next().unwrap_or(m);
    (last.starts_with("const") && last[5..].chars().all(|c| c.is_ascii_digit()) && last.len() > 5) || last.starts_with("{blk")
}

pub fn gen_names(g: &syn::Generics) -> Vec<String> {
    g.params
        .iter()
        .filter_map(|p| match p {
            syn::GenericParam::Type(t) => Some(t.ident.to_string()),
            syn::GenericParam::Const(c) => Some(c.ident.to_string()),
            _ => None,
        })
        .collect()
}

pub fn line_of(s: proc_macro2::Span) -> usize {
    s.start().line
}

pub fn norm_std(p: &str) -> String {
    // last two segments, used as the key of library models
    let v: Vec<&str> = p.split("::").collect();
    if v.len() >= 2 {
        format!("{}::{}", v[v.len() - 2], v[v.len() - 1])
    } else {
        p.to_string()
    }
}

pub type Shared = Rc<RefCell<Program>>;

pub fn ty_prim(n: &str) -> Option<Ty> {
    if PRIMS.contains(&n) {
        Some(Ty::Adt(n.to_string(), vec![]))
    } else {
        None
    }
}
