//! `macro_rules!` expander (matcher and transcriber) for the macros defined in the analysed crates.

use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::HashMap;
use syn::parse::{ParseStream, Parser};

pub struct MacroDef {
    rules: Vec<(Vec<Pat>, TokenStream)>,
}

#[derive(Clone, Debug)]
enum Pat {
    Tok(TokenTree),
    Group(Delimiter, Vec<Pat>),
    Var(String, String),
    Rep(Vec<Pat>, Option<TokenTree>, char),
}

#[derive(Clone, Debug)]
enum Bind {
    One(TokenStream),
    Many(Vec<HashMap<String, Bind>>),
}

type Binds = HashMap<String, Bind>;

impl MacroDef {
    pub fn parse(ts: TokenStream) -> Result<MacroDef, String> {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut rules = Vec::new();
        let mut i = 0;
        while i < toks.len() {
            let pat = match &toks[i] {
                TokenTree::Group(g) => parse_pat(g.stream())?,
                TokenTree::Punct(p) if p.as_char() == ';' => {
                    i += 1;
                    continue;
                }
                t => return Err(format!("unexpected {t}")),
            };
            // `=>`
            let body = match toks.get(i + 3) {
                Some(TokenTree::Group(g)) => g.stream(),
                _ => return Err("macro body".into()),
            };
            rules.push((pat, body));
            i += 4;
        }
        Ok(MacroDef { rules })
    }

    pub fn expand(&self, input: TokenStream) -> Result<TokenStream, String> {
        for (pat, body) in &self.rules {
            let pat = pat.clone();
            let res = (|ps: ParseStream| -> syn::Result<Binds> {
                let mut b = Binds::new();
                match_pats(&pat, ps, &mut b)?;
                if !ps.is_empty() {
                    return Err(ps.error("trailing"));
                }
                Ok(b)
            })
            .parse2(input.clone());
            if let Ok(b) = res {
                return transcribe(body.clone(), &b, &mut Vec::new());
            }
        }
        Err("no macro rule matches".into())
    }
}

fn parse_pat(ts: TokenStream) -> Result<Vec<Pat>, String> {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match toks.get(i + 1) {
                Some(TokenTree::Ident(n)) => {
                    let frag = match (toks.get(i + 2), toks.get(i + 3)) {
                        (Some(TokenTree::Punct(c)), Some(TokenTree::Ident(f))) if c.as_char() == ':' => f.to_string(),
                        _ => return Err("fragment".into()),
                    };
                    out.push(Pat::Var(n.to_string(), frag));
                    i += 4;
                }
                Some(TokenTree::Group(g)) => {
                    let inner = parse_pat(g.stream())?;
                    let (sep, op, used) = rep_tail(&toks, i + 2)?;
                    out.push(Pat::Rep(inner, sep, op));
                    i += 2 + used;
                }
                _ => return Err("$".into()),
            },
            TokenTree::Group(g) => {
                out.push(Pat::Group(g.delimiter(), parse_pat(g.stream())?));
                i += 1;
            }
            t => {
                out.push(Pat::Tok(t.clone()));
                i += 1;
            }
        }
    }
    Ok(out)
}

fn rep_tail(toks: &[TokenTree], at: usize) -> Result<(Option<TokenTree>, char, usize), String> {
    let op = |t: Option<&TokenTree>| match t {
        Some(TokenTree::Punct(p)) if "*+?".contains(p.as_char()) => Some(p.as_char()),
        _ => None,
    };
    if let Some(c) = op(toks.get(at)) {
        // `$(..)+*`: '+' as separator
        if c != '?' {
            if let Some(c2) = op(toks.get(at + 1)) {
                if c == '+' && c2 == '*' && false {
                    return Ok((toks.get(at).cloned(), c2, 2));
                }
            }
        }
        return Ok((None, c, 1));
    }
    if let Some(c) = op(toks.get(at + 1)) {
        return Ok((toks.get(at).cloned(), c, 2));
    }
    Err("repetition operator".into())
}

fn match_pats(pats: &[Pat], ps: ParseStream, b: &mut Binds) -> syn::Result<()> {
    for (idx, p) in pats.iter().enumerate() {
        match p {
            Pat::Tok(t) => {
                let got: TokenTree = ps.parse()?;
                if got.to_string() != t.to_string() {
                    return Err(ps.error("token"));
                }
            }
            Pat::Group(d, inner) => {
                let got: TokenTree = ps.parse()?;
                match got {
                    TokenTree::Group(g) if g.delimiter() == *d => {
                        let inner = inner.clone();
                        let bb = (|q: ParseStream| -> syn::Result<Binds> {
                            let mut b2 = Binds::new();
                            match_pats(&inner, q, &mut b2)?;
                            if !q.is_empty() {
                                return Err(q.error("trailing"));
                            }
                            Ok(b2)
                        })
                        .parse2(g.stream())?;
                        b.extend(bb);
                    }
                    _ => return Err(ps.error("group")),
                }
            }
            Pat::Var(n, frag) => {
                let ts = parse_frag(frag, ps)?;
                b.insert(n.clone(), Bind::One(ts));
            }
            Pat::Rep(inner, sep, op) => {
                let mut items = Vec::new();
                let follow = pats.get(idx + 1);
                loop {
                    if ps.is_empty() {
                        break;
                    }
                    if let Some(Pat::Tok(t)) = follow {
                        // the token that ends the repetition
                        let f = ps.fork();
                        if let Ok(tt) = f.parse::<TokenTree>() {
                            if tt.to_string() == t.to_string() && inner_cannot_start(inner, &tt) {
                                break;
                            }
                        }
                    }
                    let fork = ps.fork();
                    if !items.is_empty() {
                        if let Some(s) = sep {
                            match fork.parse::<TokenTree>() {
                                Ok(t) if t.to_string() == s.to_string() => {}
                                _ => break,
                            }
                        }
                    }
                    let mut b2 = Binds::new();
                    if match_pats(inner, &fork, &mut b2).is_err() {
                        break;
                    }
                    use syn::parse::discouraged::Speculative;
                    ps.advance_to(&fork);
                    items.push(b2);
                    if *op == '?' {
                        break;
                    }
                }
                if *op == '+' && items.is_empty() {
                    return Err(ps.error("one or more"));
                }
                for n in var_names(inner) {
                    let many = items
                        .iter()
                        .map(|m| {
                            let mut h = HashMap::new();
                            if let Some(x) = m.get(&n) {
                                h.insert(n.clone(), x.clone());
                            }
                            h
                        })
                        .collect();
                    b.insert(n, Bind::Many(many));
                }
                // remember the count of variable-free repetitions is not supported
            }
        }
    }
    Ok(())
}

fn inner_cannot_start(inner: &[Pat], t: &TokenTree) -> bool {
    match inner.first() {
        Some(Pat::Tok(x)) => x.to_string() != t.to_string(),
        Some(Pat::Var(_, f)) => f != "tt",
        _ => true,
    }
}

fn var_names(p: &[Pat]) -> Vec<String> {
    let mut out = Vec::new();
    for x in p {
        match x {
            Pat::Var(n, _) => out.push(n.clone()),
            Pat::Group(_, i) | Pat::Rep(i, _, _) => out.extend(var_names(i)),
            _ => {}
        }
    }
    out
}

fn parse_frag(frag: &str, ps: ParseStream) -> syn::Result<TokenStream> {
    use quote::ToTokens;
    Ok(match frag {
        "ident" => {
            use syn::ext::IdentExt;
            syn::Ident::parse_any(ps)?.to_token_stream()
        }
        "ty" => {
            let t: syn::Type = ps.parse()?;
            let inner = t.to_token_stream();
            none_group(inner)
        }
        "expr" | "expr_2021" => none_group(ps.parse::<syn::Expr>()?.to_token_stream()),
        "literal" => ps.parse::<syn::Lit>()?.to_token_stream(),
        "tt" => ps.parse::<TokenTree>()?.to_token_stream(),
        "path" => ps.parse::<syn::Path>()?.to_token_stream(),
        "block" => ps.parse::<syn::Block>()?.to_token_stream(),
        "lifetime" => ps.parse::<syn::Lifetime>()?.to_token_stream(),
        "vis" => ps.parse::<syn::Visibility>()?.to_token_stream(),
        "item" => ps.parse::<syn::Item>()?.to_token_stream(),
        "meta" => ps.parse::<syn::Meta>()?.to_token_stream(),
        "pat" | "pat_param" => syn::Pat::parse_multi_with_leading_vert(ps)?.to_token_stream(),
        "stmt" => ps.parse::<syn::Stmt>()?.to_token_stream(),
        _ => return Err(ps.error("fragment kind")),
    })
}

fn none_group(ts: TokenStream) -> TokenStream {
    // plain splice: the substituted fragments here are types and simple expressions
    ts
}

fn transcribe(ts: TokenStream, b: &Binds, _st: &mut Vec<usize>) -> Result<TokenStream, String> {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = Vec::new();
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match toks.get(i + 1) {
                Some(TokenTree::Ident(n)) => {
                    let n = n.to_string();
                    if n == "crate" {
                        out.push(TokenTree::Ident(proc_macro2::Ident::new("crate", p.span())));
                        i += 2;
                        continue;
                    }
                    match b.get(&n) {
                        Some(Bind::One(ts)) => out.extend(ts.clone()),
                        Some(Bind::Many(_)) => return Err(format!("${n} outside repetition")),
                        None => return Err(format!("${n} unbound")),
                    }
                    i += 2;
                }
                Some(TokenTree::Group(g)) => {
                    let (sep, _op, used) = rep_tail(&toks, i + 2)?;
                    let names = used_vars(g.stream());
                    let n = names
                        .iter()
                        .filter_map(|n| match b.get(n) {
                            Some(Bind::Many(m)) => Some(m.len()),
                            _ => None,
                        })
                        .max()
                        .ok_or("repetition without variables")?;
                    for k in 0..n {
                        let mut b2 = b.clone();
                        for name in &names {
                            if let Some(Bind::Many(m)) = b.get(name) {
                                if let Some(h) = m.get(k) {
                                    for (kk, vv) in h {
                                        b2.insert(kk.clone(), vv.clone());
                                    }
                                }
                            }
                        }
                        if k > 0 {
                            if let Some(s) = &sep {
                                out.push(s.clone());
                            }
                        }
                        out.extend(transcribe(g.stream(), &b2, _st)?);
                    }
                    i += 2 + used;
                }
                _ => return Err("$".into()),
            },
            TokenTree::Group(g) => {
                let inner = transcribe(g.stream(), b, _st)?;
                let mut ng = Group::new(g.delimiter(), inner);
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
                i += 1;
            }
            t => {
                out.push(t.clone());
                i += 1;
            }
        }
    }
    Ok(out.into_iter().collect())
}

fn used_vars(ts: TokenStream) -> Vec<String> {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                match toks.get(i + 1) {
                    Some(TokenTree::Ident(n)) => out.push(n.to_string()),
                    Some(TokenTree::Group(g)) => out.extend(used_vars(g.stream())),
                    _ => {}
                }
                i += 2;
            }
            TokenTree::Group(g) => {
                out.extend(used_vars(g.stream()));
                i += 1;
            }
            _ => i += 1,
        }
    }
    out
}
