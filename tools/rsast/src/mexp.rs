//! A small `macro_rules!` expander: enough for the macros this repository defines itself.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::HashMap;
use syn::parse::{Parse, ParseStream, Parser};

#[derive(Clone, Debug)]
enum Bind {
    One(TokenStream),
    Many(Vec<HashMap<String, Bind>>),
}

#[derive(Clone)]
pub struct Rules {
    arms: Vec<(TokenStream, TokenStream)>,
}

pub fn parse_rules(ts: TokenStream) -> Option<Rules> {
    let mut it = ts.into_iter().peekable();
    let mut arms = vec![];
    while it.peek().is_some() {
        let m = match it.next()? {
            TokenTree::Group(g) => g.stream(),
            _ => return None,
        };
        // =>
        it.next()?;
        it.next()?;
        let b = match it.next()? {
            TokenTree::Group(g) => g.stream(),
            _ => return None,
        };
        arms.push((m, b));
        if let Some(TokenTree::Punct(p)) = it.peek() {
            if p.as_char() == ';' {
                it.next();
            }
        }
    }
    Some(Rules { arms })
}

pub fn expand(rules: &Rules, input: TokenStream) -> Option<TokenStream> {
    for (m, b) in &rules.arms {
        let mtoks: Vec<TokenTree> = m.clone().into_iter().collect();
        let itoks: Vec<TokenTree> = input.clone().into_iter().collect();
        if let Some((binds, rest)) = match_seq(&mtoks, &itoks) {
            if rest == itoks.len() {
                return transcribe(b.clone(), &binds);
            }
        }
    }
    None
}

fn frag_len(kind: &str, toks: &[TokenTree]) -> Option<usize> {
    // number of tokens the fragment takes from the front of toks
    if toks.is_empty() {
        return if kind == "vis" { Some(0) } else { None };
    }
    match kind {
        "tt" => return Some(1),
        "ident" => return if let TokenTree::Ident(_) = toks[0] { Some(1) } else { None },
        "literal" => {
            return match &toks[0] {
                TokenTree::Literal(_) => Some(1),
                TokenTree::Ident(i) if i == "true" || i == "false" => Some(1),
                TokenTree::Punct(p) if p.as_char() == '-' => Some(2),
                _ => None,
            }
        }
        "lifetime" => return Some(2),
        _ => {}
    }
    fn count<T: Parse>(toks: &[TokenTree]) -> Option<usize> {
        let total = toks.len();
        let ts: TokenStream = toks.iter().cloned().collect();
        let p = |input: ParseStream| -> syn::Result<usize> {
            let _: T = input.parse()?;
            let rest: TokenStream = input.parse()?;
            Ok(rest.into_iter().count())
        };
        p.parse2(ts).ok().map(|r| total - r)
    }
    fn count_pat(toks: &[TokenTree]) -> Option<usize> {
        let total = toks.len();
        let ts: TokenStream = toks.iter().cloned().collect();
        let p = |input: ParseStream| -> syn::Result<usize> {
            let _ = syn::Pat::parse_multi_with_leading_vert(input)?;
            let rest: TokenStream = input.parse()?;
            Ok(rest.into_iter().count())
        };
        p.parse2(ts).ok().map(|r| total - r)
    }
    match kind {
        "expr" => count::<syn::Expr>(toks),
        "ty" => count::<syn::Type>(toks),
        "path" => count::<syn::Path>(toks),
        "block" => count::<syn::Block>(toks),
        "vis" => count::<syn::Visibility>(toks),
        "pat" | "pat_param" => count_pat(toks),
        "item" => count::<syn::Item>(toks),
        _ => None,
    }
}

fn tt_eq(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Ident(x), TokenTree::Ident(y)) => x == y,
        (TokenTree::Punct(x), TokenTree::Punct(y)) => x.as_char() == y.as_char(),
        (TokenTree::Literal(x), TokenTree::Literal(y)) => x.to_string() == y.to_string(),
        _ => false,
    }
}

fn match_seq(m: &[TokenTree], i: &[TokenTree]) -> Option<(HashMap<String, Bind>, usize)> {
    let mut binds = HashMap::new();
    let mut mp = 0;
    let mut ip = 0;
    while mp < m.len() {
        match &m[mp] {
            TokenTree::Punct(p) if p.as_char() == '$' => match m.get(mp + 1)? {
                TokenTree::Ident(name) => {
                    let kind = match m.get(mp + 3)? {
                        TokenTree::Ident(k) => k.to_string(),
                        _ => return None,
                    };
                    let n = frag_len(&kind, &i[ip..])?;
                    let ts: TokenStream = i[ip..ip + n].iter().cloned().collect();
                    let ts = if kind == "expr" && n > 1 {
                        TokenStream::from(TokenTree::Group(Group::new(Delimiter::Parenthesis, ts)))
                    } else {
                        ts
                    };
                    binds.insert(name.to_string(), Bind::One(ts));
                    ip += n;
                    mp += 4;
                }
                TokenTree::Group(g) => {
                    let sub: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut q = mp + 2;
                    let mut sep: Option<TokenTree> = None;
                    let op = loop {
                        match m.get(q)? {
                            TokenTree::Punct(p) if "*+?".contains(p.as_char()) => break p.as_char(),
                            t => {
                                if sep.is_some() {
                                    return None;
                                }
                                sep = Some(t.clone());
                                q += 1;
                            }
                        }
                    };
                    let mut reps = vec![];
                    loop {
                        if op == '?' && reps.len() == 1 {
                            break;
                        }
                        let mut at = ip;
                        if !reps.is_empty() {
                            if let Some(s) = &sep {
                                match i.get(at) {
                                    Some(t) if tt_eq(s, t) => at += 1,
                                    _ => break,
                                }
                            }
                        }
                        if at >= i.len() {
                            break;
                        }
                        match match_seq(&sub, &i[at..]) {
                            Some((b, n)) if n > 0 => {
                                reps.push(b);
                                ip = at + n;
                            }
                            _ => break,
                        }
                    }
                    if op == '+' && reps.is_empty() {
                        return None;
                    }
                    let mut names = vec![];
                    collect_names(&sub, &mut names);
                    for n in names {
                        binds.insert(n, Bind::Many(reps.clone()));
                    }
                    mp = q + 1;
                }
                _ => return None,
            },
            TokenTree::Group(g) => {
                match i.get(ip)? {
                    TokenTree::Group(h) if h.delimiter() == g.delimiter() => {
                        let a: Vec<TokenTree> = g.stream().into_iter().collect();
                        let b: Vec<TokenTree> = h.stream().into_iter().collect();
                        let (bb, n) = match_seq(&a, &b)?;
                        if n != b.len() {
                            return None;
                        }
                        binds.extend(bb);
                    }
                    _ => return None,
                }
                mp += 1;
                ip += 1;
            }
            t => {
                if !tt_eq(t, i.get(ip)?) {
                    return None;
                }
                mp += 1;
                ip += 1;
            }
        }
    }
    Some((binds, ip))
}

fn collect_names(m: &[TokenTree], out: &mut Vec<String>) {
    let mut k = 0;
    while k < m.len() {
        match &m[k] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(i)) = m.get(k + 1) {
                    out.push(i.to_string());
                }
            }
            TokenTree::Group(g) => {
                collect_names(&g.stream().into_iter().collect::<Vec<_>>(), out);
            }
            _ => {}
        }
        k += 1;
    }
}

fn transcribe(body: TokenStream, binds: &HashMap<String, Bind>) -> Option<TokenStream> {
    let toks: Vec<TokenTree> = body.into_iter().collect();
    let mut out = TokenStream::new();
    let mut k = 0;
    while k < toks.len() {
        match &toks[k] {
            TokenTree::Punct(p) if p.as_char() == '$' => match toks.get(k + 1) {
                Some(TokenTree::Ident(i)) => {
                    if i == "crate" {
                        out.extend([toks[k + 1].clone()]);
                    } else {
                        match binds.get(&i.to_string()) {
                            Some(Bind::One(ts)) => out.extend(ts.clone()),
                            _ => return None,
                        }
                    }
                    k += 2;
                }
                Some(TokenTree::Group(g)) => {
                    let sub: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut q = k + 2;
                    let mut sep: Option<TokenTree> = None;
                    loop {
                        match toks.get(q)? {
                            TokenTree::Punct(p) if "*+?".contains(p.as_char()) => break,
                            t => {
                                sep = Some(t.clone());
                                q += 1;
                            }
                        }
                    }
                    let mut names = vec![];
                    collect_names(&sub, &mut names);
                    let reps = names.iter().find_map(|n| match binds.get(n) {
                        Some(Bind::Many(r)) => Some(r.clone()),
                        _ => None,
                    })?;
                    for (n, r) in reps.iter().enumerate() {
                        if n > 0 {
                            if let Some(s) = &sep {
                                out.extend([s.clone()]);
                            }
                        }
                        let mut b = binds.clone();
                        b.extend(r.clone());
                        out.extend(transcribe(g.stream(), &b)?);
                    }
                    k = q + 1;
                }
                _ => return None,
            },
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), transcribe(g.stream(), binds)?);
                ng.set_span(g.span());
                out.extend([TokenTree::Group(ng)]);
                k += 1;
            }
            t => {
                out.extend([t.clone()]);
                k += 1;
            }
        }
    }
    Some(out)
}
