//! Expansion of simple `macro_rules!` item macros used in the repository
//! (one rule, `$x:frag` and `$(...)sep*` repetitions one level deep).
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::HashMap;

#[derive(Debug, Clone)]
enum Pat {
    Var(String),
    Rep(Vec<Pat>, Option<char>),
    Tok(String),
}

fn parse_pat(ts: TokenStream) -> Vec<Pat> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match &v[i + 1] {
                TokenTree::Ident(id) => {
                    out.push(Pat::Var(id.to_string()));
                    i += 4; // $ x : frag
                    continue;
                }
                TokenTree::Group(g) => {
                    let inner = parse_pat(g.stream());
                    let mut sep = None;
                    i += 2;
                    if let TokenTree::Punct(p) = &v[i] {
                        if p.as_char() != '*' && p.as_char() != '+' {
                            sep = Some(p.as_char());
                            i += 1;
                        }
                    }
                    i += 1;
                    out.push(Pat::Rep(inner, sep));
                    continue;
                }
                _ => {}
            },
            t => out.push(Pat::Tok(t.to_string())),
        }
        i += 1;
    }
    out
}

#[derive(Default, Clone)]
struct Bind {
    one: HashMap<String, TokenTree>,
    many: HashMap<String, Vec<TokenTree>>,
}

fn match_pat(pats: &[Pat], toks: &[TokenTree], pos: &mut usize, b: &mut Bind) -> bool {
    for p in pats {
        match p {
            Pat::Var(x) => {
                if *pos >= toks.len() {
                    return false;
                }
                b.one.insert(x.clone(), toks[*pos].clone());
                *pos += 1;
            }
            Pat::Tok(s) => {
                if *pos >= toks.len() || toks[*pos].to_string() != *s {
                    return false;
                }
                *pos += 1;
            }
            Pat::Rep(inner, sep) => {
                loop {
                    let save = *pos;
                    let mut nb = Bind::default();
                    if *pos >= toks.len() || !match_pat(inner, toks, pos, &mut nb) {
                        *pos = save;
                        break;
                    }
                    for (k, v) in nb.one {
                        b.many.entry(k).or_default().push(v);
                    }
                    if let Some(s) = sep {
                        if *pos < toks.len() && toks[*pos].to_string() == s.to_string() {
                            *pos += 1;
                        } else {
                            break;
                        }
                    }
                }
            }
        }
    }
    true
}

fn transcribe(ts: TokenStream, b: &Bind, idx: Option<usize>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < v.len() => match &v[i + 1] {
                TokenTree::Ident(id) => {
                    let k = id.to_string();
                    if let Some(t) = b.one.get(&k) {
                        out.push(t.clone());
                    } else if let (Some(n), Some(m)) = (idx, b.many.get(&k)) {
                        out.push(m[n].clone());
                    }
                    i += 2;
                    continue;
                }
                TokenTree::Group(g) => {
                    let mut n = 0;
                    for (k, m) in &b.many {
                        if g.stream().to_string().contains(&format!("$ {}", k)) || g.stream().to_string().contains(&format!("${}", k)) {
                            n = n.max(m.len());
                        }
                    }
                    i += 2;
                    let mut sep: Option<TokenTree> = None;
                    if let TokenTree::Punct(p) = &v[i] {
                        if p.as_char() != '*' && p.as_char() != '+' {
                            sep = Some(v[i].clone());
                            i += 1;
                        }
                    }
                    i += 1;
                    for k in 0..n {
                        if k > 0 {
                            if let Some(s) = &sep {
                                out.push(s.clone());
                            }
                        }
                        out.extend(transcribe(g.stream(), b, Some(k)));
                    }
                    continue;
                }
                _ => out.push(v[i].clone()),
            },
            TokenTree::Group(g) => {
                let inner = transcribe(g.stream(), b, idx);
                out.push(TokenTree::Group(Group::new(g.delimiter(), inner)));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

/// expand item-position invocations of macros defined in the same file
pub fn expand_file(f: syn::File) -> Result<syn::File, String> {
    let mut rules: HashMap<String, (Vec<Pat>, TokenStream)> = HashMap::new();
    let mut out = f.clone();
    out.items.clear();
    for it in f.items {
        match &it {
            syn::Item::Macro(m) if m.ident.is_some() => {
                let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                if let (Some(TokenTree::Group(a)), Some(TokenTree::Group(c))) = (v.get(0), v.get(3)) {
                    let _ = Delimiter::Parenthesis;
                    rules.insert(m.ident.as_ref().unwrap().to_string(), (parse_pat(a.stream()), c.stream()));
                }
            }
            syn::Item::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if let Some((p, body)) = rules.get(&name) {
                    let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    let mut b = Bind::default();
                    let mut pos = 0;
                    if !match_pat(p, &toks, &mut pos, &mut b) {
                        return Err(format!("macro {} does not match", name));
                    }
                    let ts = transcribe(body.clone(), &b, None);
                    let nf: syn::File = syn::parse2(ts).map_err(|e| format!("macro {}: {}", name, e))?;
                    out.items.extend(nf.items);
                } else {
                    out.items.push(it);
                }
            }
            _ => out.items.push(it),
        }
    }
    Ok(out)
}
