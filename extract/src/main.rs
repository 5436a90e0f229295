//! vx: mechanical extraction of functions and types from /repo/src into one Verus
//! crate, following an overlay file (.vt) that carries contracts and lemmas.
//! usage: vx <repo-src> <overlay.vt> <out.rs> <report.json>
mod expand;
mod inline;
mod rewrite;

use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use rewrite::Ctx;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};

pub struct Repo {
    root: PathBuf,
    all: bool,
    files: HashMap<String, syn::File>,
}

impl Repo {
    pub fn file(&mut self, rel: &str) -> Result<&syn::File, String> {
        if !self.files.contains_key(rel) {
            let p = self.root.join(rel);
            let s = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p.display(), e))?;
            let f = s.parse::<proc_macro2::TokenStream>().map_err(|e| e.to_string()).and_then(|t| syn::parse2::<syn::File>(unraw(t)).map_err(|e| e.to_string())).map_err(|e| format!("{}: parse error: {}", p.display(), e))?;
            let f = expand::expand_file(f)?;
            self.files.insert(rel.to_string(), f);
        }
        Ok(&self.files[rel])
    }
}

fn ty_last(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => ty_last(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

/// find a free function or inherent/trait method; qual = "f" | "T::f" | "Trait@T::f"
fn find_fn(f: &syn::File, qual: &str) -> Option<(syn::Signature, syn::Block)> {
    let (ty, name) = match qual.rsplit_once("::") {
        Some((a, b)) => (Some(a), b),
        None => (None, qual),
    };
    let (tr, ty) = match ty {
        Some(t) => match t.split_once('@') {
            Some((a, b)) => (Some(a), Some(b)),
            None => (None, Some(t)),
        },
        None => (None, None),
    };
    for it in &f.items {
        match (it, ty) {
            (syn::Item::Fn(g), None) if g.sig.ident == name => {
                return Some((g.sig.clone(), (*g.block).clone()))
            }
            (syn::Item::Impl(im), Some(ty)) => {
                if ty_last(&im.self_ty) != ty {
                    continue;
                }
                match (&im.trait_, tr) {
                    (None, None) => {}
                    (Some((_, p, _)), Some(tr)) => {
                        let mut seg = p.segments.last().unwrap().clone();
                        let s = seg.to_token_stream().to_string().replace(' ', "");
                        if let syn::PathArguments::AngleBracketed(ab) = &mut seg.arguments {
                            for a in ab.args.iter_mut() {
                                if let syn::GenericArgument::Type(t) = a {
                                    rewrite::rewrite_type(t);
                                }
                            }
                        }
                        let s2 = seg.to_token_stream().to_string().replace(' ', "");
                        if s != tr && s2 != tr {
                            continue;
                        }
                    }
                    _ => continue,
                }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(g) = ii {
                        if g.sig.ident == name {
                            return Some((g.sig.clone(), g.block.clone()));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

#[derive(Default)]
pub struct Overlay {
    pub spec: String,
    pub ret: Option<String>,
    pub opts: Vec<String>,
    pub sections: BTreeMap<String, String>,
}

struct Out {
    /// functions and constants which are there for the verifier
    known: HashSet<String>,
    known_consts: HashSet<String>,
    text: String,
    fns: Vec<serde_json::Value>,
    problems: Vec<String>,
    types: Vec<String>,
    lits: BTreeMap<String, usize>,
    module: String,
    rules: BTreeMap<String, usize>,
    /// functions whose body is not handed to the verifier (its contract is assumed)
    assume: Vec<String>,
    assumed: Vec<serde_json::Value>,
    /// signatures of the functions under contract and names of all functions, when the contracts were written
    sigs: HashMap<String, String>,
    names: HashSet<String>,
    renamed: Vec<(String, String)>,
}

fn pretty(ts: &str) -> String {
    // a tiny layouter: newline after ; { } outside strings/parens
    let mut out = String::new();
    let mut depth = 0usize;
    let mut par = 0i32;
    let b: Vec<char> = ts.chars().collect();
    let mut i = 0;
    let nl = |out: &mut String, d: usize| {
        while out.ends_with(' ') {
            out.pop();
        }
        out.push('\n');
        for _ in 0..d {
            out.push_str("    ");
        }
    };
    while i < b.len() {
        let c = b[i];
        match c {
            '"' => {
                // raw string?
                let mut hashes = 0;
                {
                    let mut k = out.len();
                    let ob = out.as_bytes();
                    while k > 0 && ob[k - 1] == b'#' {
                        hashes += 1;
                        k -= 1;
                    }
                    if !(k > 0 && ob[k - 1] == b'r') {
                        if !(hashes == 0) {
                            hashes = 0;
                        }
                        if !(k > 0 && ob[k - 1] == b'r') {
                            hashes = usize::MAX;
                        }
                    }
                }
                out.push('"');
                i += 1;
                if hashes == usize::MAX {
                    while i < b.len() {
                        if b[i] == '\\' {
                            out.push(b[i]);
                            out.push(b[i + 1]);
                            i += 2;
                            continue;
                        }
                        out.push(b[i]);
                        if b[i] == '"' {
                            break;
                        }
                        i += 1;
                    }
                } else {
                    while i < b.len() {
                        out.push(b[i]);
                        if b[i] == '"' && b[i + 1..].iter().take(hashes).filter(|c| **c == '#').count() == hashes {
                            break;
                        }
                        i += 1;
                    }
                }
            }
            '\'' => {
                // char literal or lifetime
                out.push(c);
                if i + 2 < b.len() && (b[i + 1] == '\\' || b[i + 2] == '\'') {
                    i += 1;
                    while b[i] != '\'' || (b[i - 1] == '\\' && b[i - 2] != '\\') {
                        out.push(b[i]);
                        i += 1;
                    }
                    out.push('\'');
                }
            }
            '(' | '[' => {
                par += 1;
                out.push(c)
            }
            ')' | ']' => {
                par -= 1;
                out.push(c)
            }
            '{' => {
                out.push(c);
                depth += 1;
                nl(&mut out, depth);
            }
            '}' => {
                depth = depth.saturating_sub(1);
                nl(&mut out, depth);
                out.push(c);
                // keep `} else`, `} )`, `} ,` on one line
                let mut k = i + 1;
                while k < b.len() && b[k] == ' ' {
                    k += 1;
                }
                let rest: String = b[k..].iter().take(5).collect();
                if !(rest.starts_with("else") || rest.starts_with(')') || rest.starts_with(',') || rest.starts_with('.') || rest.starts_with(';') || rest.starts_with('?')) {
                    nl(&mut out, depth);
                    i = k;
                    continue;
                }
            }
            ';' => {
                out.push(c);
                nl(&mut out, depth);
                let mut k = i + 1;
                while k < b.len() && b[k] == ' ' {
                    k += 1;
                }
                i = k;
                continue;
            }
            ',' if par == 0 => {
                out.push(c);
                nl(&mut out, depth);
                let mut k = i + 1;
                while k < b.len() && b[k] == ' ' {
                    k += 1;
                }
                i = k;
                continue;
            }
            _ => out.push(c),
        }
        i += 1;
    }
    out
}

thread_local! {
    /// per function (path and name), the names bound by let and let mut in the text its contract was written for
    static BASE_VARS: std::cell::RefCell<HashMap<String, (Vec<String>, Vec<String>)>> = Default::default();
}

/// what the names of `base` are called now: the same names in the same order where they are still there,
/// otherwise what stands in their place
fn align(base: &[String], now: &[String]) -> Vec<String> {
    let (n, m) = (base.len(), now.len());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            l[i][j] = if base[i] == now[j] { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) };
        }
    }
    let mut at: Vec<Option<usize>> = vec![None; n];
    let (mut i, mut j) = (0, 0);
    while i < n && j < m {
        if base[i] == now[j] && l[i][j] == l[i + 1][j + 1] + 1 { at[i] = Some(j); i += 1; j += 1; }
        else if l[i + 1][j] >= l[i][j + 1] { i += 1 } else { j += 1 }
    }
    let mut out = vec![];
    for i in 0..n {
        let j = match at[i] {
            Some(j) => j,
            None => {
                // the place within the gap between the names found again
                let from = (0..i).rev().find(|k| at[*k].is_some());
                let (bi, nj) = match from { Some(k) => (k + 1, at[k].unwrap() + 1), None => (0, 0) };
                let end = (i..n).find_map(|k| at[k]).unwrap_or(m);
                let j = nj + (i - bi);
                if j < end { j } else { i.min(m.saturating_sub(1)) }
            }
        };
        out.push(now.get(j).cloned().unwrap_or_else(|| base[i].clone()));
    }
    out.extend(now.iter().skip(n).cloned());
    out
}

fn subst_vars(s: &str, cx: &Ctx, key: &str) -> String {
    let (bl, bm) = BASE_VARS.with(|b| b.borrow().get(key).cloned()).unwrap_or((cx.lets.clone(), cx.muts.clone()));
    let (lets, muts) = (align(&bl, &cx.lets), align(&bm, &cx.muts));
    let mut s = s.to_string();
    for (i, a) in cx.args.iter().enumerate().rev() {
        s = s.replace(&format!("$arg{}", i), a);
    }
    for (i, a) in muts.iter().enumerate().rev() {
        s = s.replace(&format!("$mut{}", i), a);
    }
    for (i, a) in lets.iter().enumerate().rev() {
        s = s.replace(&format!("$let{}", i), a);
    }
    for (i, a) in cx.loop_pats.iter().enumerate().rev() {
        s = s.replace(&format!("$pat{}", i), a);
    }
    for i in (0..cx.n_loops).rev() {
        s = s.replace(&format!("$it{}", i), &format!("__it{}", i));
    }
    s
}

/// split a literal into words and single other characters
pub
fn chunks(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            cur.push(c);
        } else {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
            v.push(c.to_string());
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    if v.len() > 12 {
        let rest = v.split_off(2).concat();
        v.push(rest);
    }
    v
}

fn spec_fn_body(text: &str, name: &str) -> Option<String> {
    for pat in [format!("spec fn {}(", name), format!("spec fn {}<", name)] {
        if let Some(i) = text.find(&pat) {
            let rest = text[i..].chars().take(6000).collect::<String>().replace("'\"'", "'?'");
            let j = rest.find('{')?;
            let (mut d, mut in_str, mut esc) = (0, false, false);
            for (k, c) in rest[j..].char_indices() {
                if esc { esc = false; continue; }
                match c {
                    '\\' => esc = true,
                    '"' => in_str = !in_str,
                    '{' if !in_str => d += 1,
                    '}' if !in_str => { d -= 1; if d == 0 { return Some(rest[j..j + k + 1].to_string()); } }
                    _ => {}
                }
            }
        }
    }
    None
}

fn str_lits(text: &str) -> Vec<String> {
    // every plain string literal in a token text
    let ts: TokenStream = match text.parse() {
        Ok(t) => t,
        Err(_) => return vec![],
    };
    fn walk(ts: TokenStream, v: &mut Vec<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => walk(g.stream(), v),
                proc_macro2::TokenTree::Literal(l) => {
                    let l2: Result<syn::LitStr, _> = syn::parse_str(&l.to_string());
                    if let Ok(x) = l2 {
                        v.push(x.value());
                    }
                }
                _ => {}
            }
        }
    }
    let mut v = vec![];
    walk(ts, &mut v);
    v
}

fn emit_fn(repo: &mut Repo, out: &mut Out, path: &str, qual: &str, ov: Overlay) {
    let line = |o: &Out| o.text.lines().count() + 1;
    let found = match repo.file(path).map(|f| find_fn(f, qual)) {
        Ok(Some(x)) => Some(x),
        _ => find_anywhere(repo, qual),
    };
    let (sig, block) = match found {
        Some(x) => x,
        None if renamed(repo, out, path, qual).is_some() => {
            let to = renamed(repo, out, path, qual).unwrap();
            *out.rules.entry("function found under a new name".into()).or_insert(0) += 1;
            out.renamed.push((to.clone(), qual.to_string()));
            return emit_fn(repo, out, path, &to, ov);
        }
        None => {
            // its callers are verified with whatever they call instead
            out.assumed.push(serde_json::json!({"path": path, "fn": qual, "why": ["no function of this name any more"], "module": out.module}));
            return;
        }
    };
    let mut block = block;
    let inlined = if ov.opts.iter().any(|o| o.contains("external_body")) { 0 } else { inline_helpers(repo, out, path, &sig, &mut block) };
    if inlined > 0 { *out.rules.entry("call of a helper without contract -> its body".into()).or_insert(0) += inlined; }
    let forced = out.assume.iter().any(|a| a == qual);
    let var_key = format!("{} {}", path, qual);
    let mut cx = Ctx::new(&ov, qual);
    let mut why: Vec<String> = vec![];
    let res = if forced { why.push("the verifier does not accept its present text".to_string()); None } else {
        match rewrite::rewrite_fn(&mut cx, sig.clone(), block) { Ok(x) => Some(x), Err(e) => { why.push(e); None } }
    };
    let lost = if res.is_some() { check_sections(&ov, &cx, &mut why) } else { vec![] };
    if !why.is_empty() {
        let ov2 = Overlay { spec: ov.spec.clone(), ret: ov.ret.clone(), opts: ov.opts.iter().filter(|o| !o.contains("external_body")).cloned().collect(), sections: BTreeMap::new() };
        let mut cx = Ctx::new(&ov2, qual);
        let b: syn::Block = syn::parse_quote!({ unimplemented!() });
        match rewrite::rewrite_fn(&mut cx, sig, b) {
            Ok((sig_ts, _)) => {
                let spec = subst_vars(&ov.spec, &cx, &var_key);
                let start = line(out);
                let _ = writeln!(out.text, "// contract of {} :: {}, assumed: {}", path, qual, why.join("; ").replace('\n', " "));
                let at = "#[verifier::external_body]\n";
                match qual.rsplit_once("::").map(|(a, _)| a.rsplit('@').next().unwrap().to_string()) {
                    Some(t) => { let _ = writeln!(out.text, "impl {} {{\n{}pub {}\n{}{{ unimplemented!() }}\n}}", t, at, sig_ts, spec); }
                    None => { let _ = writeln!(out.text, "{}pub {}\n{}{{ unimplemented!() }}", at, sig_ts, spec); }
                }
                let end = line(out);
                out.assumed.push(serde_json::json!({"path": path, "fn": qual, "why": why, "module": out.module}));
                out.fns.push(serde_json::json!({"path": path, "fn": qual, "start": start, "end": end, "module": out.module, "loops": 0, "closures": 0, "external": true, "assumed": true}));
            }
            Err(e) => out.problems.push(format!("{} {}: {}", path, qual, e)),
        }
        return;
    }
    let (sig_ts, body_ts) = res.unwrap();
    for (k, n) in &cx.rules {
        *out.rules.entry(k.to_string()).or_insert(0) += n;
    }
    let mut body = body_ts.to_string();
    // literal lemmas
    if ov.opts.iter().any(|o| o == "lits") {
        let mut calls = String::new();
        let mut all = str_lits(&body);
        all.extend(str_lits(&ov.spec));
        for s in ov.sections.values() {
            all.extend(str_lits(s));
        }
        // and those of the spec functions the contract is made of
        let mut todo = vec![ov.spec.clone()];
        todo.extend(ov.sections.values().cloned());
        let mut seen: Vec<String> = vec![];
        while let Some(t) = todo.pop() {
            for w in t.split(|c: char| !c.is_alphanumeric() && c != '_') {
                if w.is_empty() || seen.iter().any(|x| x == w) { continue; }
                seen.push(w.to_string());
                if let Some(b) = spec_fn_body(&out.text, w) {
                    all.extend(str_lits(&b));
                    todo.push(b);
                }
            }
        }
        all.sort();
        all.dedup();
        for l in all {
            if chunks(&l).len() > 1 || l.chars().count() == 1 {
                let n = out.lits.len();
                let id = *out.lits.entry(l).or_insert(n);
                let _ = write!(calls, "lit_{}(); ", id);
            }
        }
        let pre = format!("{{ proof {{ {} }}", calls);
        body = body.replacen('{', &pre, 1);
    }
    // the empty literal says nothing by itself
    if str_lits(&body).iter().any(|l| l.is_empty()) && !str_lits(&ov.spec).iter().any(|l| l.is_empty()) && ov.sections.values().all(|s| !s.contains("\"\"")) {
        body = body.replacen('{', "{ proof { reveal_strlit(\"\"); assert(\"\"@ =~= Seq::<char>::empty()); }", 1);
    }
    let mut body = pretty(&body);
    // two rounds, closures may nest in loops
    for _ in 0..4 {
        for (i, t) in cx.placeholders.iter().enumerate() {
            let key = format!("__PH_{}__", i);
            if body.contains(&key) {
                let t = subst_vars(t, &cx, &var_key);
                body = body.replace(&format!("{} ;", key), &format!("\n{}\n", t)).replace(&format!("{};", key), &format!("\n{}\n", t)).replace(&key, &format!("\n{}\n", t));
            }
        }
    }
    let spec = subst_vars(&ov.spec, &cx, &var_key);
    let start = line(out);
    let _ = writeln!(out.text, "// extracted from {} :: {}", path, qual);
    let ty = qual.rsplit_once("::").map(|(a, _)| a.rsplit('@').next().unwrap().to_string());
    let vis = "pub ";
    let attrs: String = if cx.n_loops > 0 { "#[verifier::loop_isolation(false)]\n" } else { "" }.to_string() + &ov.opts.iter().filter_map(|o| o.strip_prefix("attr=")).map(|a| format!("#[{}]\n", a)).collect::<String>();
    match &ty {
        Some(t) => {
            let _ = writeln!(out.text, "impl {} {{\n{}{}{}\n{}{}\n}}", t, attrs, vis, sig_ts, spec, body);
        }
        None => {
            let _ = writeln!(out.text, "{}{}{}\n{}{}", attrs, vis, sig_ts, spec, body);
        }
    }
    let end = line(out);
    out.fns.push(serde_json::json!({"path": path, "fn": qual, "start": start, "end": end, "module": out.module,
        "sig": sig_str(&sig), "loops": cx.n_loops, "kinds": cx.kinds, "vars": [cx.lets, cx.muts], "lost": lost, "closures": cx.n_closures,
        "external": ov.opts.iter().any(|o| o.contains("external_body"))}));
}

/// names introduced by `fn` or `const` in a text
fn defined(text: &str, kw: &str) -> HashSet<String> {
    let mut out = HashSet::new();
    let (mut before, mut prev) = ("", "");
    for w in text.split(|c: char| !c.is_alphanumeric() && c != '_') {
        if w.is_empty() { continue; }
        // what is only said in specifications is not called by the code
        if prev == kw && before != "spec" && before != "proof" { out.insert(w.to_string()); }
        before = prev;
        prev = w;
    }
    out
}

/// calls of functions of the sources which have no contract are replaced by their bodies,
/// constants which are not extracted by their values
fn inline_helpers(repo: &mut Repo, out: &Out, path: &str, sig: &syn::Signature, block: &mut syn::Block) -> usize {
    if out.known.is_empty() { return 0; }
    all_files(repo);
    let here = repo.file(path).ok().cloned();
    let mut lookup = |name: &str, owned: bool| -> Option<(syn::Signature, syn::Block)> {
        if out.known.contains(name) { return None; }
        let free = |f: &syn::File| f.items.iter().find_map(|i| match i {
            syn::Item::Fn(g) if g.sig.ident == name => Some((g.sig.clone(), (*g.block).clone())),
            _ => None,
        });
        let inherent = |f: &syn::File| f.items.iter().filter_map(|i| match i {
            syn::Item::Impl(im) if im.trait_.is_none() => im.items.iter().find_map(|x| match x {
                syn::ImplItem::Fn(g) if g.sig.ident == name => Some((g.sig.clone(), g.block.clone())),
                _ => None,
            }),
            _ => None,
        }).collect::<Vec<_>>();
        if owned {
            // names of methods in use before say nothing about the type they are called on
            if KNOWN_METHODS.split_whitespace().any(|m| m == name) { return None; }
            let mut v: Vec<_> = repo.files.values().flat_map(|f| inherent(f)).collect();
            return if v.len() == 1 { v.pop() } else { None };
        }
        if let Some(x) = here.as_ref().and_then(|f| free(f)) { return Some(x); }
        let mut v: Vec<_> = repo.files.values().filter_map(|f| free(f)).collect();
        if v.len() == 1 { v.pop() } else { None }
    };
    let mut inl = inline::Inl { lookup: &mut lookup, caller: sig.clone(), depth: 0, names: vec![], stack: vec![] };
    inl.run(block);
    let n = inl.names.len();
    // constants
    struct C<'a> { files: Vec<&'a syn::File>, known: &'a HashSet<String>, n: usize }
    impl<'a> syn::visit_mut::VisitMut for C<'a> {
        fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
            if let syn::Expr::Path(p) = e {
                let name = p.path.segments.last().unwrap().ident.to_string();
                if name.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit()) && name.len() > 1 && !self.known.contains(&name) {
                    let hit = self.files.iter().find_map(|f| f.items.iter().find_map(|i| match i {
                        syn::Item::Const(c) if c.ident == name && matches!(&*c.expr, syn::Expr::Lit(_)) => Some((*c.expr).clone()),
                        syn::Item::Static(c) if c.ident == name && matches!(&*c.expr, syn::Expr::Lit(_)) => Some((*c.expr).clone()),
                        _ => None,
                    }));
                    if let Some(x) = hit { *e = x; self.n += 1; return; }
                }
            }
            syn::visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut files: Vec<&syn::File> = here.iter().collect();
    files.extend(repo.files.values());
    let mut c = C { files, known: &out.known_consts, n: 0 };
    syn::visit_mut::VisitMut::visit_block_mut(&mut c, block);
    n + c.n
}

const KNOWN_METHODS: &str = include_str!("../known_methods.txt");

fn all_files(repo: &mut Repo) {
    if repo.all { return; }
    repo.all = true;
    for f in source_files(&repo.root) {
        let rel = f.strip_prefix(&repo.root).unwrap().to_string_lossy().to_string();
        let _ = repo.file(&rel);
    }
}

fn source_files(root: &Path) -> Vec<PathBuf> {
    fn walk(d: &Path, v: &mut Vec<PathBuf>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() { walk(&p, v); } else if p.extension().map_or(false, |x| x == "rs") { v.push(p); }
            }
        }
    }
    let mut files = vec![];
    walk(root, &mut files);
    files.sort();
    files
}

/// every proof annotation must still have the place it is attached to
fn check_sections(ov: &Overlay, cx: &Ctx, why: &mut Vec<String>) -> Vec<String> {
    // an annotation whose place is gone is left out: what cannot be proved without it is reported as undecided
    let mut lost = vec![];
    for (k, _) in &ov.sections {
        let okk = if let Some(n) = k.strip_prefix("loop ").or(k.strip_prefix("loopstart ")).or(k.strip_prefix("loopend ")).or(k.strip_prefix("afterloop ")).or(k.strip_prefix("beforeloop ")) {
            n.trim().parse::<usize>().unwrap() < cx.n_loops
        } else if let Some(n) = k.strip_prefix("afterif ") {
            n.trim().parse::<usize>().unwrap() < cx.n_ifs
        } else if let Some(n) = k.strip_prefix("closure ") {
            n.trim().parse::<usize>().unwrap() < cx.n_closures
        } else {
            k == "entry" || k == "exit" || k == "end"
        };
        if !okk {
            lost.push(k.clone());
        }
    }
    if cx.n_loops > ov.sections.keys().filter(|k| k.starts_with("loop ")).count() && !ov.opts.iter().any(|o| o == "noloop") {
        why.push(format!("loop without contract ({} loops)", cx.n_loops));
    }
    for p in &cx.problems {
        why.push(p.clone());
    }
    lost
}

fn each_fn(f: &syn::File, g: &mut dyn FnMut(Option<String>, &syn::Signature)) {
    for it in &f.items {
        match it {
            syn::Item::Fn(x) => g(None, &x.sig),
            syn::Item::Impl(im) => for i in &im.items {
                if let syn::ImplItem::Fn(x) = i { g(if im.trait_.is_none() { Some(ty_last(&im.self_ty)) } else { Some(String::new()) }, &x.sig); }
            },
            _ => {}
        }
    }
}

/// the types of a signature, without names
fn sig_str(s: &syn::Signature) -> String {
    let mut v: Vec<String> = s.inputs.iter().map(|a| match a {
        syn::FnArg::Receiver(r) => r.to_token_stream().to_string(),
        syn::FnArg::Typed(t) => t.ty.to_token_stream().to_string(),
    }).collect();
    v.push(s.output.to_token_stream().to_string());
    v.join(" , ")
}

/// the function which has taken the place of one that is gone: of the same signature, in the same file, under a name there was not before
fn renamed(repo: &mut Repo, out: &Out, path: &str, qual: &str) -> Option<String> {
    if qual.contains('@') { return None; }
    let want = out.sigs.get(qual)?.clone();
    let ty = qual.rsplit_once("::").map(|x| x.0.to_string());
    let f = repo.file(path).ok()?;
    let mut hits = vec![];
    each_fn(f, &mut |t, sig| {
        let n = sig.ident.to_string();
        if t == ty && !out.names.contains(&n) && sig_str(sig) == want { hits.push(n); }
    });
    hits.dedup();
    if hits.len() != 1 { return None; }
    let n = hits.pop()?;
    Some(match ty { Some(t) => format!("{}::{}", t, n), None => n })
}

/// a function which moved: the only one of its name anywhere in the sources
fn find_anywhere(repo: &mut Repo, qual: &str) -> Option<(syn::Signature, syn::Block)> {
    let files = source_files(&repo.root.clone());
    let mut hit = None;
    for f in files {
        let rel = f.strip_prefix(&repo.root).unwrap().to_string_lossy().to_string();
        if let Ok(x) = repo.file(&rel) {
            if let Some(h) = find_fn(x, qual) {
                if hit.is_some() { return None; }
                hit = Some(h);
            }
        }
    }
    hit
}

fn emit_into(repo: &mut Repo, out: &mut Out, path: &str, from: &str, to: &str, spec: &str) {
    let start = out.text.lines().count() + 1;
    let f = match repo.file(path) {
        Ok(f) => f,
        Err(e) => {
            out.problems.push(e);
            return;
        }
    };
    let r = find_fn(f, &format!("Into<{}>@{}::into", to, from));
    let (block, prefix) = match r {
        Some((_, b)) => (b, TokenStream::new()),
        None => match find_fn(f, &format!("From<{}>@{}::from", from, to)) {
            Some((sig, b)) => {
                let arg = match sig.inputs.first() {
                    Some(syn::FnArg::Typed(p)) => p.pat.to_token_stream(),
                    _ => {
                        out.problems.push(format!("lost anchor: From<{}> for {} in {}", from, to, path));
                        return;
                    }
                };
                (b, quote! { let #arg = self; })
            }
            None => {
                out.problems.push(format!("lost anchor: From<{}> for {} in {}", from, to, path));
                return;
            }
        },
    };
    let mut ov = Overlay::default();
    ov.opts.push("nosmoke".into());
    let mut cx = Ctx::new(&ov, "into");
    let sig: syn::Signature = syn::parse_quote! { fn vinto(self) };
    let (_, body) = match rewrite::rewrite_fn(&mut cx, sig, block) {
        Ok(x) => x,
        Err(e) => {
            out.problems.push(e);
            return;
        }
    };
    let body = pretty(&quote! { { #prefix #body } }.to_string()).replace("Self ::", &format!("{} ::", to));
    let _ = writeln!(
        out.text,
        "// extracted from {} :: From<{}> for {}\nimpl VInto<{}> for {} {{\nopen spec fn vinto_spec(self) -> {} {{ {} }}\nfn vinto(self) -> (r: {})\n{}\n}}",
        path, from, to, to, from, to, spec.trim(), to, body
    );
    let end = out.text.lines().count() + 1;
    out.fns.push(serde_json::json!({"path": path, "fn": format!("From<{}> for {}", from, to), "start": start, "end": end, "module": out.module, "loops": 0, "closures": 0, "external": false}));
}

/// the output column names of a query: the last word of each item of its select list
pub fn select_aliases(sql: &str) -> Option<Vec<String>> {
    let c: Vec<char> = sql.chars().collect();
    let (mut i, mut depth) = (0, 0i32);
    let mut started = false;
    let mut last: Option<String> = None;
    let mut out = vec![];
    while i < c.len() {
        let x = c[i];
        if x == '-' && c.get(i + 1) == Some(&'-') {
            while i < c.len() && c[i] != '\n' { i += 1; }
        } else if x == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') { i += 1; }
            i += 2;
        } else if x == '\'' || x == '"' {
            let b = i + 1;
            i += 1;
            while i < c.len() && c[i] != x { i += 1; }
            if depth == 0 { last = if x == '"' { Some(c[b..i].iter().collect()) } else { None }; }
            i += 1;
        } else if x.is_alphanumeric() || x == '_' {
            let b = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1; }
            if depth > 0 { continue; }
            let w = c[b..i].iter().collect::<String>().to_lowercase();
            if !started { if w == "select" { started = true; } continue; }
            if w == "from" { out.push(last?); return Some(out); }
            last = Some(w);
        } else {
            match x {
                '(' => depth += 1,
                ')' => depth -= 1,
                ',' if depth == 0 && started => out.push(last.take()?),
                _ => if !x.is_whitespace() && depth == 0 { last = None },
            }
            i += 1;
        }
    }
    None
}

/// `sqlcols FILE PREFIX alias…`: the position of every output column, taken from
/// the query when it names the columns like this, and else the one in this list
fn emit_sqlcols(repo: &Repo, out: &mut Out, path: &str, prefix: &str, names: &[String]) {
    let got = std::fs::read_to_string(repo.root.join(path)).ok().and_then(|s| select_aliases(&s)).unwrap_or_default();
    let mut a = got.clone();
    let mut b = names.to_vec();
    a.sort();
    b.sort();
    let (from, order) = if a == b { (path, &got[..]) } else { ("the list in the overlay", names) };
    let _ = writeln!(out.text, "// column positions from {}", from);
    for (k, n) in order.iter().enumerate() {
        let _ = writeln!(out.text, "pub open spec fn {}_{}() -> int {{ {} }}", prefix, n, k);
    }
}

/// the items of a constant list of texts
fn items_of(e: &syn::Expr) -> Option<Vec<String>> {
    match e {
        syn::Expr::Reference(r) => items_of(&r.expr),
        syn::Expr::Array(a) => a.elems.iter().map(|x| match x {
            syn::Expr::Lit(l) => match &l.lit { syn::Lit::Str(s) => Some(s.value()), _ => None },
            _ => None,
        }).collect(),
        _ => None,
    }
}

fn emit_items(out: &mut Out, path: &str, name: &str, items: Vec<String>) {
    let mut at = String::new();
    for (i, t) in items.iter().enumerate() {
        at.push_str(&format!("if i == {} {{ {:?}@ }} else ", i, t));
    }
    let _ = writeln!(out.text, "// extracted from {} :: {}\npub open spec fn {n}_at(i: int) -> Seq<char> {{ {}{{ Seq::empty() }} }}\npub open spec fn {n}_len() -> int {{ {} }}\n#[verifier::external_body]\npub fn {n}_v() -> (r: &'static Vec<&'static str>)\n    ensures r@.len() == {n}_len(), forall|i: int| 0 <= i < {n}_len() ==> (#[trigger] r@[i])@ == {n}_at(i),\n{{ unimplemented!() }}", path, name, at, items.len(), n = name);
    let mut all = String::new();
    for (i, t) in items.iter().enumerate() {
        let _ = write!(all, " {}_at({}) == {:?}@,", name, i, t);
    }
    let _ = writeln!(out.text, "pub proof fn {n}_all()\n    ensures {n}_len() == {},{}\n{{ }}", items.len(), all, n = name);
}

fn emit_type(repo: &mut Repo, out: &mut Out, path: &str, name: &str, opts: &[String]) {
    let f = match repo.file(path) {
        Ok(f) => f,
        Err(e) => {
            out.problems.push(e);
            return;
        }
    };
    for it in f.items.clone() {
        match it {
            syn::Item::Struct(mut s) if s.ident == name => {
                for o in opts {
                    if let Some(d) = o.strip_prefix("derive=") {
                        if !s.attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains(d)) {
                            out.problems.push(format!("lost anchor: {} no longer derives {}", name, d));
                        }
                    }
                }
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                for fl in s.fields.iter_mut() {
                    fl.vis = syn::parse_quote!(pub);
                    fl.attrs.clear();
                    rewrite::rewrite_type(&mut fl.ty);
                }
                let t = pretty(&s.to_token_stream().to_string());
                let _ = writeln!(out.text, "// extracted from {} :: struct {}\n{}", path, name, t);
                out.types.push(name.into());
                return;
            }
            syn::Item::Enum(mut s) if s.ident == name => {
                for o in opts {
                    if let Some(d) = o.strip_prefix("derive=") {
                        if !s.attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains(d)) {
                            out.problems.push(format!("lost anchor: {} no longer derives {}", name, d));
                        }
                    }
                }
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    for fl in v.fields.iter_mut() {
                        fl.attrs.clear();
                        rewrite::rewrite_type(&mut fl.ty);
                    }
                }
                let t = pretty(&s.to_token_stream().to_string());
                let _ = writeln!(out.text, "// extracted from {} :: enum {}\n{}", path, name, t);
                out.types.push(name.into());
                return;
            }
            syn::Item::Static(c) if c.ident == name && items_of(&c.expr).is_some() => {
                emit_items(out, path, name, items_of(&c.expr).unwrap());
                return;
            }
            syn::Item::Const(c) if c.ident == name && items_of(&c.expr).is_some() => {
                emit_items(out, path, name, items_of(&c.expr).unwrap());
                return;
            }
            syn::Item::Const(c) if c.ident == name && c.expr.to_token_stream().to_string().replace(' ', "") == "&Vec::new()" => {
                let t = c.ty.to_token_stream().to_string();
                let _ = writeln!(out.text, "// extracted from {} :: const {}\n#[verifier::external_body]\npub exec const {n}: {}\n    ensures {n}@.len() == 0,\n{{ &Vec::new() }}", path, name, t, n = name);
                return;
            }
            syn::Item::Const(mut c) if c.ident == name => {
                c.attrs.clear();
                c.vis = syn::parse_quote!(pub);
                let val = c.expr.to_token_stream().to_string();
                // a string constant
                let _ = writeln!(
                    out.text,
                    "// extracted from {} :: const {}\npub const {n}: &'static str = {v};",
                    path, name, n = name, v = val
                );
                return;
            }
            _ => {}
        }
    }
    out.problems.push(format!("lost anchor: type {} in {}", name, path));
}

fn process(repo: &mut Repo, out: &mut Out, file: &Path, defs: &mut HashMap<String, String>) {
    let src = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {}", file.display(), e));
    let lines: Vec<String> = src.lines().map(|l| l.to_string()).collect();
    process_lines(repo, out, file, &lines, defs);
}

fn process_lines(repo: &mut Repo, out: &mut Out, file: &Path, lines: &[String], defs: &mut HashMap<String, String>) {
    let mut lines = lines.to_vec();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].clone();
        let t = l.trim_start();
        if let Some(d) = t.strip_prefix("//@") {
            let w: Vec<String> = d.split_whitespace().map(|s| s.to_string()).collect();
            match w[0].as_str() {
                "include" => {
                    let p = file.parent().unwrap().join(&w[1]);
                    process(repo, out, &p, defs);
                }
                "module" => out.module = w[1].clone(),
                // //@template NAME a b c ... //@endtemplate ; //@use NAME x y z
                "template" => {
                    let name = w[1].clone();
                    let mut body = String::new();
                    body.push_str(&w[2..].join(" "));
                    body.push('\n');
                    i += 1;
                    while lines[i].trim() != "//@endtemplate" {
                        body.push_str(&lines[i]);
                        body.push('\n');
                        i += 1;
                    }
                    defs.insert(name, body);
                }
                "use" => {
                    let ls = expand_use(d, defs);
                    process_lines(repo, out, file, &ls, defs);
                }
                "type" => emit_type(repo, out, &w[1], &w[2], &w[3..]),
                "sqlcols" => emit_sqlcols(repo, out, &w[1], &w[2], &w[3..]),
                "into" => {
                    let spec = w[4..].join(" ");
                    emit_into(repo, out, &w[1], &w[2], &w[3], &spec)
                }
                "fn" => {
                    let path = w[1].clone();
                    let qual = w[2].clone();
                    let mut ov = Overlay::default();
                    let mut k = 3;
                    while k < w.len() {
                        if w[k] == "->" {
                            ov.ret = Some(w[k + 1].clone());
                            k += 2;
                        } else {
                            ov.opts.push(w[k].clone());
                            k += 1;
                        }
                    }
                    let mut sec: Option<String> = None;
                    i += 1;
                    while lines[i].trim() != "//@end" {
                        let lt = lines[i].trim().to_string();
                        if lt.starts_with("//@use ") {
                            let ls = expand_use(&lt[3..], defs);
                            lines.splice(i..=i, ls);
                            continue;
                        }
                        if let Some(s) = lt.strip_prefix("//@") {
                            sec = Some(s.trim().to_string());
                            ov.sections.insert(s.trim().to_string(), String::new());
                        } else {
                            match &sec {
                                None => {
                                    ov.spec.push_str(&lines[i]);
                                    ov.spec.push('\n');
                                }
                                Some(s) => {
                                    let e = ov.sections.get_mut(s).unwrap();
                                    e.push_str(&lines[i]);
                                    e.push('\n');
                                }
                            }
                        }
                        i += 1;
                    }
                    emit_fn(repo, out, &path, &qual, ov);
                }
                "lits" => {
                    let _ = writeln!(out.text, "/*LITS*/");
                }
                "#" => {}
                other => panic!("unknown directive {} in {}", other, file.display()),
            }
        } else {
            out.text.push_str(&l);
            out.text.push('\n');
        }
        i += 1;
    }
}

fn expand_use(d: &str, defs: &HashMap<String, String>) -> Vec<String> {
                    let w: Vec<String> = d.split_whitespace().map(|s| s.to_string()).collect();
                    let body = defs.get(&w[1]).unwrap_or_else(|| panic!("template {}", w[1])).clone();
                    let (hd, bd) = body.split_once('\n').unwrap();
                    let params: Vec<&str> = hd.split_whitespace().collect();
                    // arguments separated by whitespace, or by '|' when present
                    let rest = d.trim_start().strip_prefix("use").unwrap().trim_start().strip_prefix(w[1].as_str()).unwrap();
                    let args: Vec<String> = if rest.contains('§') { rest.split('§').map(|s| s.trim().to_string()).collect() } else if rest.contains('|') { rest.split('|').map(|s| s.trim().to_string()).collect() } else { w[2..].to_vec() };
                    // a separator in front of the first argument is allowed
                    let args = if args.len() == params.len() + 1 && args[0].is_empty() { args[1..].to_vec() } else { args };
                    assert!(args.len() == params.len(), "template {} args {:?}", w[1], args);
                    let mut b = bd.to_string();
                    for (p, a) in params.iter().zip(args.iter()) {
                        b = b.replace(&format!("%{}%", p), a);
                    }
                    b.lines().map(|s| s.to_string()).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut repo = Repo { root: PathBuf::from(&a[1]), all: false, files: HashMap::new() };
    let mut known = (HashSet::new(), HashSet::new());
    let base: serde_json::Value = std::fs::read_to_string(Path::new(&a[2]).with_file_name("sigs.json")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();
    let sigs: HashMap<String, String> = base["sigs"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect()).unwrap_or_default();
    BASE_VARS.with(|b| {
        let l = |v: &serde_json::Value| v.as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect::<Vec<_>>()).unwrap_or_default();
        for (k, v) in base["vars"].as_object().into_iter().flatten() { b.borrow_mut().insert(k.clone(), (l(&v[0]), l(&v[1]))); }
    });
    let names: HashSet<String> = base["names"].as_array().map(|m| m.iter().filter_map(|v| v.as_str().map(|s| s.to_string())).collect()).unwrap_or_default();
    all_files(&mut repo);
    let mut kinds: HashMap<String, Option<bool>> = HashMap::new();
    let mut all_names: BTreeSet<String> = BTreeSet::new();
    for f in repo.files.values() {
        each_fn(f, &mut |_, sig| {
            all_names.insert(sig.ident.to_string());
            let k = match &sig.output {
                syn::ReturnType::Type(_, t) => match &**t {
                    syn::Type::Path(p) => match p.path.segments.last().unwrap().ident.to_string().as_str() { "Option" => Some(true), "Result" => Some(false), _ => None },
                    _ => None,
                },
                _ => None,
            };
            let key = format!("{}{}", if matches!(sig.inputs.first(), Some(syn::FnArg::Receiver(_))) { "." } else { "" }, sig.ident);
            kinds.entry(key).and_modify(|x| if *x != k { *x = None }).or_insert(k);
        });
    }
    rewrite::RET_KIND.with(|x| *x.borrow_mut() = kinds);
    let mut round = 0;
    let out = loop {
    let mut out = Out {
        known: known.0.clone(),
        known_consts: known.1.clone(),
        text: String::new(),
        fns: vec![],
        problems: vec![],
        types: vec![],
        lits: BTreeMap::new(),
        module: String::new(),
        rules: BTreeMap::new(),
        assume: a[5..].to_vec(),
        assumed: vec![],
        sigs: sigs.clone(),
        names: names.clone(),
        renamed: vec![],
    };
    let mut defs = HashMap::new();
    process(&mut repo, &mut out, Path::new(&a[2]), &mut defs);
    // the first round finds out which functions have a contract
    round += 1;
    if round == 2 { break out; }
    known = (defined(&out.text, "fn"), defined(&out.text, "const"));
    };
    let mut lt = String::new();
    let mut lits: Vec<(&String, &usize)> = out.lits.iter().collect();
    lits.sort_by_key(|x| x.1);
    for (s, id) in lits {
        if s.chars().count() == 1 {
            let c = s.chars().next().unwrap();
            lt.push_str(&format!("pub proof fn lit_{}() ensures {:?}@ == seq![{:?}] {{ reveal_strlit({:?}); assert({:?}@ =~= seq![{:?}]); }} ", id, s, c, s, s, c));
            continue;
        }
        let ch = chunks(s);
        let rhs: Vec<String> = ch.iter().map(|c| format!("{:?}@", c)).collect();
        let mut e = rhs[0].clone();
        for r in &rhs[1..] {
            e = format!("({} + {})", e, r);
        }
        let mut rv = format!("reveal_strlit({:?});", s);
        let mut c2 = ch.clone();
        c2.sort();
        c2.dedup();
        for c in &c2 {
            rv.push_str(&format!(" reveal_strlit({:?});", c));
        }
        // single-line so that line numbers stay put
        lt.push_str(&format!("pub proof fn lit_{}() ensures {:?}@ == {} {{ {} assert({:?}@ =~= {}); }} ", id, s, e, rv, s, e));
    }
    let text = out.text.replace("/*LITS*/", &lt);
    std::fs::write(&a[3], text).unwrap();
    let rep = serde_json::json!({"functions": out.fns, "problems": out.problems, "types": out.types, "rules": out.rules, "assumed": out.assumed, "names": all_names, "renamed": out.renamed, "literal_lemmas": out.lits.len()});
    std::fs::write(&a[4], serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}

/// raw identifiers `r#x` become `x_` (Verus does not resolve raw field names)
fn unraw(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, Ident, TokenTree};
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) => match i.to_string().strip_prefix("r#") {
                Some(n) => TokenTree::Ident(Ident::new(&format!("{}_", n), i.span())),
                None => TokenTree::Ident(i),
            },
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), unraw(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        })
        .collect()
}
