//! The rewriting rules. Each is purely syntactic and listed in DESIGN.md; the
//! `rules` counter reports how often each one fired.
use crate::Overlay;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::{Expr, Pat, Stmt};

pub struct Ctx<'a> {
    pub ov: &'a Overlay,
    #[allow(dead_code)]
    pub qual: String,
    pub placeholders: Vec<String>,
    pub n_loops: usize,
    /// kinds of the loops, outermost first
    pub kinds: Vec<&'static str>,
    pub n_ifs: usize,
    pub n_closures: usize,
    pub n_match: usize,
    pub args: Vec<String>,
    pub muts: Vec<String>,
    pub lets: Vec<String>,
    pub loop_pats: Vec<String>,
    pub problems: Vec<String>,
    pub rules: BTreeMap<&'static str, usize>,
}

impl<'a> Ctx<'a> {
    pub fn new(ov: &'a Overlay, qual: &str) -> Self {
        Ctx {
            ov,
            qual: qual.into(),
            placeholders: vec![],
            n_loops: 0,
            kinds: vec![],
            n_ifs: 0,
            n_closures: 0,
            n_match: 0,
            args: vec![],
            muts: vec![],
            lets: vec![],
            loop_pats: vec![],
            problems: vec![],
            rules: BTreeMap::new(),
        }
    }
    fn rule(&mut self, r: &'static str) {
        *self.rules.entry(r).or_insert(0) += 1;
    }
    fn ph(&mut self, text: String) -> proc_macro2::Ident {
        self.placeholders.push(text);
        format_ident!("__PH_{}__", self.placeholders.len() - 1)
    }
    fn opt(&self, o: &str) -> bool {
        self.ov.opts.iter().any(|x| x == o)
    }
    fn sec(&self, k: &str) -> Option<String> {
        let s = self.ov.sections.get(k).cloned();
        // smoke test: a contradiction asked for at every exit or loop body must not be granted
        if self.ov.opts.iter().any(|o| o == "nosmoke") {
            return s;
        }
        match std::env::var("VX_SMOKE").as_deref() {
            Ok("exit") if k == "exit" => Some(s.unwrap_or_default() + "\nproof { assert(false); }\n"),
            Ok("loop") if k.starts_with("loopend ") => Some(s.unwrap_or_default() + "\nproof { assert(false); }\n"),
            _ => s,
        }
    }
}

const STD_MODS: &[&str] = &["env", "fs", "std", "chrono", "serde_yaml", "serde_json", "thread", "process"];

fn flatten_path(p: &mut syn::Path) {
    if p.segments.len() < 2 {
        p.leading_colon = None;
        return;
    }
    let segs: Vec<syn::PathSegment> = p.segments.iter().cloned().collect();
    let is_mod = |s: &syn::PathSegment| {
        let n = s.ident.to_string();
        s.arguments.is_none() && n.chars().next().map_or(false, |c| c.is_lowercase())
    };
    let mut k = 0;
    while k + 1 < segs.len() && is_mod(&segs[k]) {
        k += 1;
    }
    if k == 0 {
        return;
    }
    let mut rest: Vec<syn::PathSegment> = segs[k..].to_vec();
    let m = segs[k - 1].ident.to_string();
    if rest.len() == 1 && rest[0].ident == "Error" {
        rest[0].ident = format_ident!("{}_Error", m);
    } else if m == "serde_yaml" && !is_mod(&rest[0]) {
        rest[0].ident = format_ident!("serde_yaml_{}", rest[0].ident);
    } else if rest.len() == 1 && STD_MODS.contains(&m.as_str()) && is_mod(&rest[0]) {
        rest[0].ident = format_ident!("{}_{}", m, rest[0].ident);
    }
    p.leading_colon = None;
    p.segments = rest.into_iter().collect();
}

struct TyV;
impl VisitMut for TyV {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        if let syn::Type::ImplTrait(it) = t {
            for b in &it.bounds {
                if let syn::TypeParamBound::Trait(tb) = b {
                    let s = tb.path.segments.last().unwrap();
                    if s.ident == "Iterator" {
                        if let syn::PathArguments::AngleBracketed(ab) = &s.arguments {
                            if let Some(syn::GenericArgument::AssocType(at)) = ab.args.first() {
                                let ty = &at.ty;
                                *t = syn::parse_quote!(VIter<#ty>);
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        flatten_path(p);
        if let Some(s) = p.segments.last_mut() {
            if s.ident == "Into" {
                s.ident = format_ident!("VInto");
            } else if s.ident == "IntoIterator" {
                s.ident = format_ident!("IntoV");
            } else if s.ident == "AsRef" {
                s.ident = format_ident!("VStr");
                s.arguments = syn::PathArguments::None;
            }
        }
    }
}

pub fn rewrite_type(t: &mut syn::Type) {
    TyV.visit_type_mut(t);
}

fn is_str_lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)))
}

fn is_format(e: &Expr) -> bool {
    match e {
        Expr::Macro(m) => m.mac.path.is_ident("format"),
        Expr::Paren(p) => is_format(&p.expr),
        Expr::Binary(b) if matches!(b.op, syn::BinOp::Add(_)) => is_format(&b.left) || is_str_lit(&b.right),
        _ => false,
    }
}

struct Args(Vec<Expr>);
impl syn::parse::Parse for Args {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated(i)?;
        Ok(Args(p.into_iter().collect()))
    }
}

enum Piece {
    Lit(String),
    Arg(Expr, bool),
}

fn parse_format(args: Vec<Expr>) -> Result<Vec<Piece>, String> {
    let f = match args.first() {
        Some(Expr::Lit(l)) => match &l.lit {
            syn::Lit::Str(s) => s.value(),
            _ => return Err("format! without literal".into()),
        },
        _ => return Err("format! without literal".into()),
    };
    let mut named: BTreeMap<String, Expr> = BTreeMap::new();
    let mut pos: Vec<Expr> = vec![];
    for a in &args[1..] {
        if let Expr::Assign(x) = a {
            named.insert(x.left.to_token_stream().to_string(), (*x.right).clone());
        } else {
            pos.push(a.clone());
        }
    }
    let mut out = vec![];
    let mut cur = String::new();
    let cs: Vec<char> = f.chars().collect();
    let mut i = 0;
    let mut np = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if i + 1 < cs.len() && cs[i + 1] == '{' => {
                cur.push('{');
                i += 2;
            }
            '}' => {
                cur.push('}');
                i += 2;
            }
            '{' => {
                let mut j = i + 1;
                let mut s = String::new();
                while cs[j] != '}' {
                    s.push(cs[j]);
                    j += 1;
                }
                i = j + 1;
                if !cur.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut cur)));
                }
                let (name, fmt) = match s.split_once(':') {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => (s.clone(), String::new()),
                };
                let dbg = match fmt.as_str() {
                    "" => false,
                    "?" => true,
                    _ => return Err(format!("unsupported format spec {{{}}}", s)),
                };
                let e = if name.is_empty() {
                    np += 1;
                    pos.get(np - 1).cloned().ok_or("format! arguments")?
                } else if let Ok(n) = name.parse::<usize>() {
                    pos.get(n).cloned().ok_or("format! arguments")?
                } else if let Some(e) = named.get(&name) {
                    e.clone()
                } else {
                    let id = format_ident!("{}", name);
                    syn::parse_quote!(#id)
                };
                out.push(Piece::Arg(e, dbg));
            }
            c => {
                cur.push(c);
                i += 1;
            }
        }
    }
    if !cur.is_empty() {
        out.push(Piece::Lit(cur));
    }
    Ok(out)
}

pub struct Rw<'c, 'a> {
    cx: &'c mut Ctx<'a>,
}

impl<'c, 'a> Rw<'c, 'a> {
    /// text literals inside patterns become guards: Some(("x", a)) => .. is Some((__p, a)) if __p == "x" => ..
    fn nested_lits(&mut self, m: &mut syn::ExprMatch) {
        struct V {
            names: Vec<(syn::Ident, syn::Lit)>,
            or: bool,
            n: usize,
        }
        impl VisitMut for V {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Lit(l) = p {
                    if let syn::Lit::Str(_) = &l.lit {
                        let id = format_ident!("__p{}", self.n);
                        self.n += 1;
                        self.names.push((id.clone(), l.lit.clone()));
                        *p = syn::parse_quote!(#id);
                        return;
                    }
                }
                let before = self.names.len();
                syn::visit_mut::visit_pat_mut(self, p);
                if matches!(p, Pat::Or(_)) && self.names.len() > before {
                    self.or = true;
                }
            }
        }
        for a in m.arms.iter_mut() {
            if str_pats(&a.pat).is_some() {
                continue;
            }
            let mut v = V { names: vec![], or: false, n: 0 };
            v.visit_pat_mut(&mut a.pat);
            if v.or {
                self.cx.problems.push("alternatives with text inside a pattern".into());
            }
            if v.names.is_empty() {
                continue;
            }
            self.cx.rule("text literal inside a pattern -> guard");
            let mut cond: Option<Expr> = None;
            for (id, l) in &v.names {
                let c: Expr = syn::parse_quote!(#id == #l);
                cond = Some(match cond { None => c, Some(d) => syn::parse_quote!(#d && #c) });
            }
            let c = cond.unwrap();
            a.guard = Some(match a.guard.take() {
                None => (Default::default(), Box::new(c)),
                Some((i, g)) => (i, Box::new(syn::parse_quote!((#c) && #g))),
            });
        }
    }

    fn parse_args(&mut self, ts: &TokenStream) -> Vec<Expr> {
        match syn::parse2::<Args>(ts.clone()) {
            Ok(a) => a.0,
            Err(e) => {
                self.cx.problems.push(format!("macro arguments: {}", e));
                vec![]
            }
        }
    }

    fn rewrite_macro(&mut self, mac: &syn::Macro) -> Option<Expr> {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "format" => {
                self.cx.rule("format! -> concatenation");
                let args = self.parse_args(&mac.tokens);
                match parse_format(args) {
                    Err(e) => {
                        self.cx.problems.push(e);
                        None
                    }
                    Ok(ps) => {
                        let mut acc: Option<TokenStream> = None;
                        for p in ps {
                            let t = match p {
                                Piece::Lit(l) => match &acc {
                                    None => quote!(vlit(#l)),
                                    Some(a) => quote!(vcat(#a, #l)),
                                },
                                Piece::Arg(mut e, dbg) => {
                                    self.visit_expr_mut(&mut e);
                                    let d = if dbg { quote!(VDebug::vdbg(&(#e))) } else { quote!(VDisp::vd(&(#e))) };
                                    match &acc {
                                        None => d,
                                        Some(a) => quote!(vcats(#a, #d)),
                                    }
                                }
                            };
                            acc = Some(t);
                        }
                        let t = acc.unwrap_or(quote!(vlit("")));
                        Some(Expr::Verbatim(t))
                    }
                }
            }
            "vec" => {
                let mut args = self.parse_args(&mac.tokens);
                for a in args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                if (1..=6).contains(&args.len()) && !mac.tokens.to_string().contains(';') {
                    let f = format_ident!("vvec{}", args.len());
                    Some(Expr::Verbatim(quote!(#f(#(#args),*))))
                } else {
                    Some(Expr::Verbatim(quote!(vec![#(#args),*])))
                }
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.cx.rule("panic-family macro -> vpanic() (requires false)");
                Some(Expr::Verbatim(quote!(vpanic())))
            }
            "println" | "print" if self.cx.opt("prints") => {
                self.cx.rule("println! -> the line is appended to the ghost sequence of lines printed");
                let mut m = mac.clone();
                if name == "print" {
                    self.cx.problems.push("print! where the lines printed are specified".into());
                }
                m.path = syn::parse_quote!(format);
                if m.tokens.is_empty() {
                    m.tokens = quote!("");
                }
                let l = self.rewrite_macro(&m)?;
                Some(Expr::Verbatim(quote!({ let __line = #l; proof { __out = __out.push(__line@); } })))
            }
            "eprintln" if self.cx.opt("eprints") => {
                self.cx.rule("eprintln! -> the line is appended to the ghost sequence of lines reported");
                let mut m = mac.clone();
                m.path = syn::parse_quote!(format);
                if m.tokens.is_empty() {
                    m.tokens = quote!("");
                }
                let l = self.rewrite_macro(&m)?;
                Some(Expr::Verbatim(quote!({ let __line = #l; proof { __err = __err.push(__line@); } })))
            }
            "arg" if self.cx.opt("clap") => {
                // --"name" <Type>: an option with a value
                let t: Vec<String> = mac.tokens.clone().into_iter().map(|t| t.to_string()).collect();
                let name = match t.get(2).map(|n| n.trim_matches('"').to_string()) {
                    Some(n) if t.len() == 6 && t[0] == "-" && t[1] == "-" && t[3] == "<" && t[5] == ">" => n,
                    _ => {
                        self.cx.problems.push(format!("an argument of another shape: {}", mac.tokens));
                        return None;
                    }
                };
                self.cx.rule("clap::arg!(--name <T>) -> Arg::vlong(name)");
                Some(syn::parse_quote!(Arg::vlong(#name)))
            }
            "println" | "eprintln" | "print" | "eprint" => {
                self.cx.rule("console output dropped");
                Some(Expr::Verbatim(quote!(())))
            }
            "assert" | "debug_assert" => {
                let mut args = self.parse_args(&mac.tokens);
                self.visit_expr_mut(&mut args[0]);
                let a = &args[0];
                self.cx.rule("assert! -> vassert (requires the condition)");
                Some(Expr::Verbatim(quote!(vassert(#a))))
            }
            "assert_eq" => {
                let mut args = self.parse_args(&mac.tokens);
                self.visit_expr_mut(&mut args[0]);
                self.visit_expr_mut(&mut args[1]);
                let (a, b) = (&args[0], &args[1]);
                self.cx.rule("assert! -> vassert (requires the condition)");
                Some(Expr::Verbatim(quote!(vassert(VEq::veq(&(#a), &(#b))))))
            }
            "matches" => {
                let t = &mac.tokens;
                // split at first top-level comma
                let mut e = TokenStream::new();
                let mut p = TokenStream::new();
                let mut seen = false;
                for x in t.clone() {
                    if !seen {
                        if let proc_macro2::TokenTree::Punct(c) = &x {
                            if c.as_char() == ',' {
                                seen = true;
                                continue;
                            }
                        }
                        e.extend([x]);
                    } else {
                        p.extend([x]);
                    }
                }
                let mut ex: Expr = syn::parse2(e).ok()?;
                self.visit_expr_mut(&mut ex);
                Some(Expr::Verbatim(quote!((match #ex { #p => true, _ => false }))))
            }
            "stringify" => {
                let s = mac.tokens.to_string();
                self.cx.rule("stringify! -> literal");
                Some(syn::parse_quote!(#s))
            }
            "include_str" => {
                self.cx.rule("include_str! -> opaque text");
                let t = &mac.tokens;
                Some(Expr::Verbatim(quote!(vinclude(#t))))
            }
            _ => {
                self.cx.problems.push(format!("unsupported macro {}!", name));
                None
            }
        }
    }

    fn stmts_of(&mut self, b: &syn::Block) -> Vec<Stmt> {
        b.stmts
            .iter()
            .cloned()
            .map(|s| match s {
                Stmt::Expr(e, None) => Stmt::Expr(e, Some(Default::default())),
                s => s,
            })
            .collect()
    }

    /// `for` / `while` / `loop` as a list of statements
    fn rewrite_loop(&mut self, e: Expr) -> Vec<TokenStream> {
        let k = self.cx.n_loops;
        self.cx.n_loops += 1;
        self.cx.kinds.push(match &e { Expr::ForLoop(f) if matches!(&*f.expr, Expr::Range(_)) => "for range", Expr::ForLoop(_) => "for", Expr::Loop(_) => "loop", Expr::While(w) if matches!(&*w.cond, Expr::Let(_)) => "while let", _ => "while" });
        let inv = self.cx.sec(&format!("loop {}", k)).unwrap_or_default();
        let before = self.cx.sec(&format!("beforeloop {}", k));
        let start = self.cx.sec(&format!("loopstart {}", k));
        let end = self.cx.sec(&format!("loopend {}", k));
        let after = self.cx.sec(&format!("afterloop {}", k));
        let mut out = vec![];
        let ps = start.map(|s| self.cx.ph(s)).map(|p| quote!(#p;));
        let pe = end.map(|s| self.cx.ph(s)).map(|p| quote!(#p;));
        let pb = before.map(|s| self.cx.ph(s)).map(|p| quote!(#p;));
        let pa = after.map(|s| self.cx.ph(s)).map(|p| quote!(#p;));
        match e {
            Expr::ForLoop(mut f) => {
                if let Some(p) = self.cx.sec(&format!("loopend {}", k)).filter(|p| !p.contains("$let")) {
                    AtContinue { cx: &mut *self.cx, text: p }.visit_block_mut(&mut f.body);
                }
                self.cx.rule("for loop -> while over an eager iterator");
                let it = format_ident!("__it{}", k);
                self.cx.loop_pats.push(f.pat.to_token_stream().to_string());
                let (except, inv) = match inv.trim_start().strip_prefix("invariant_except_break") {
                    Some(rest) => match rest.find("\n    invariant") {
                        Some(at) => (format!("    invariant_except_break{}\n", &rest[..at]), rest[at + 1..].to_string()),
                        None => (format!("    invariant_except_break{}", rest), String::new()),
                    },
                    None => (String::new(), inv.clone()),
                };
                let ph = self.cx.ph(format!(
                    "{except}    invariant __it{k}.seq() == __seq{k}, 0 <= __it{k}.pos() <= __seq{k}.len(),\n{}    decreases __seq{k}.len() - __it{k}.pos()",
                    inv.trim_start().strip_prefix("invariant").unwrap_or(&inv)
                ));
                let gh = self.cx.ph(format!("let ghost __seq{k} = __it{k}.seq();"));
                let mut ex = *f.expr;
                self.visit_expr_mut(&mut ex);
                let mut pat = *f.pat;
                self.visit_pat_mut(&mut pat);
                let mut body = f.body.clone();
                body.stmts = self.stmts_of(&f.body);
                self.visit_block_mut(&mut body);
                let st = &body.stmts;
                out.push(quote!(let mut #it = IntoV::into_v(#ex);));
                out.push(quote!(#gh;));
                if let Some(p) = pb {
                    out.push(p);
                }
                let complex = if except.is_empty() { quote!() } else { quote!(#[verifier::allow_complex_invariants]) };
                out.push(quote!(#complex while #it.has_next() #ph { let #pat = #it.take_next(); #ps #(#st)* #pe }));
            }
            Expr::While(w) => {
                self.cx.loop_pats.push(String::new());
                let ph = self.cx.ph(inv);
                let mut body = w.body.clone();
                body.stmts = self.stmts_of(&w.body);
                if let Expr::Let(l) = &*w.cond {
                    self.cx.rule("while let -> loop/match");
                    let mut ex = (*l.expr).clone();
                    self.visit_expr_mut(&mut ex);
                    self.visit_block_mut(&mut body);
                    let st = &body.stmts;
                    let mut pat = (*l.pat).clone();
                    self.visit_pat_mut(&mut pat);
                    if let Some(p) = pb {
                        out.push(p);
                    }
                    out.push(quote!(loop #ph { #ps match #ex { #pat => { #(#st)* #pe } _ => { break; } } }));
                } else {
                    let mut c = (*w.cond).clone();
                    self.visit_expr_mut(&mut c);
                    self.visit_block_mut(&mut body);
                    let st = &body.stmts;
                    if let Some(p) = pb {
                        out.push(p);
                    }
                    out.push(quote!(while #c #ph { #ps #(#st)* #pe }));
                }
            }
            Expr::Loop(l) => {
                self.cx.loop_pats.push(String::new());
                let ph = self.cx.ph(inv);
                let mut body = l.body.clone();
                body.stmts = self.stmts_of(&l.body);
                self.visit_block_mut(&mut body);
                let st = &body.stmts;
                if let Some(p) = pb {
                    out.push(p);
                }
                out.push(quote!(loop #ph { #ps #(#st)* #pe }));
            }
            _ => unreachable!(),
        }
        if let Some(p) = pa {
            out.push(p);
        }
        out
    }
}

/// what is argued at the end of a loop's body is argued wherever the body is left by `continue`
struct AtContinue<'a, 'b> {
    cx: &'a mut Ctx<'b>,
    text: String,
}
impl<'a, 'b> VisitMut for AtContinue<'a, 'b> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if let Stmt::Expr(Expr::Continue(c), _) = &b.stmts[i] {
                if c.label.is_none() {
                    let p = self.cx.ph(self.text.clone());
                    b.stmts.insert(i, verb_stmt(quote!(#p;)));
                    i += 1;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        if matches!(&*a.body, Expr::Continue(c) if c.label.is_none()) {
            let c = a.body.to_token_stream();
            let p = self.cx.ph(self.text.clone());
            a.body = Box::new(Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: syn::Block { brace_token: Default::default(), stmts: vec![verb_stmt(quote!(#p; #c;))] } }));
            return;
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_for_loop_mut(&mut self, _: &mut syn::ExprForLoop) {}
    fn visit_expr_while_mut(&mut self, _: &mut syn::ExprWhile) {}
    fn visit_expr_loop_mut(&mut self, _: &mut syn::ExprLoop) {}
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}

fn verb_stmt(t: TokenStream) -> Stmt {
    Stmt::Expr(Expr::Verbatim(t), None)
}

fn str_pats(p: &Pat) -> Option<Vec<String>> {
    match p {
        Pat::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => Some(vec![s.value()]),
            _ => None,
        },
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(str_pats(c)?);
            }
            Some(v)
        }
        _ => None,
    }
}

/// `&x[a..b]` and `x[a..b].method()` with the range turned into a call
fn range_index(e: &Expr) -> Option<Expr> {
    fn slice(e: &Expr) -> Option<Expr> {
        if let Expr::Index(i) = e {
            let x = &i.expr;
            if let Expr::Range(r) = &*i.index {
                if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                    return None;
                }
                return Some(match (&r.start, &r.end) {
                    (Some(a), Some(b)) => syn::parse_quote!(#x.vslice(#a, #b)),
                    (Some(a), None) => syn::parse_quote!(#x.vslice_from(#a)),
                    (None, Some(b)) => syn::parse_quote!(#x.vslice_to(#b)),
                    (None, None) => return None,
                });
            }
        }
        None
    }
    match e {
        Expr::Reference(r) if r.mutability.is_none() => slice(&r.expr),
        Expr::MethodCall(m) => slice(&m.receiver).map(|x| {
            let mut m = m.clone();
            m.receiver = Box::new(x);
            Expr::MethodCall(m)
        }),
        _ => None,
    }
}

fn has_try(ts: TokenStream) -> bool {
    ts.into_iter().any(|t| match t {
        proc_macro2::TokenTree::Punct(p) => p.as_char() == '?',
        proc_macro2::TokenTree::Group(g) => has_try(g.stream()),
        _ => false,
    })
}

thread_local! {
    /// what the repository's functions of a name all return: Option (true) or Result (false)
    pub static RET_KIND: std::cell::RefCell<std::collections::HashMap<String, Option<bool>>> = Default::default();
}
/// is e an Option (true) or a Result (false), as far as its text tells?
fn opt_or_result(e: &Expr) -> Option<bool> {
    let by_name = |n: &str| RET_KIND.with(|k| k.borrow().get(n).cloned().flatten());
    match e {
        Expr::Paren(p) => opt_or_result(&p.expr),
        Expr::Reference(p) => opt_or_result(&p.expr),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => match p.path.segments.last()?.ident.to_string().as_str() {
                "Some" => Some(true),
                "Ok" | "Err" => Some(false),
                "var" if p.path.segments.len() > 1 && p.path.segments[p.path.segments.len() - 2].ident == "env" => Some(false),
                n if p.path.segments.iter().all(|s| !matches!(s.ident.to_string().as_str(), "std" | "fs" | "serde_yaml" | "File")) => by_name(n),
                _ => None,
            },
            _ => None,
        },
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "as_ref" | "as_mut" | "as_deref" | "cloned" | "copied" | "map" | "or_else" | "and_then" | "or" => opt_or_result(&m.receiver),
            "map_err" | "ok_or" | "ok_or_else" => Some(false),
            "ok" | "err" | "get_one" | "find" | "position" | "first" | "last" | "pop" | "strip_prefix" | "strip_suffix" | "captures" | "checked_add" | "checked_sub" => Some(true),
            n => by_name(&format!(".{}", n)),
        },
        _ => None,
    }
}

fn tail_of(e: &Expr) -> Option<&Expr> {
    match e {
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(x, None)) => tail_of(x),
            _ => None,
        },
        Expr::Paren(p) => tail_of(&p.expr),
        e => Some(e),
    }
}

impl<'c, 'a> Rw<'c, 'a> {
    /// `X.and_then(|p| body)` and its like as a match on X
    fn inline_combinator(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let name = m.method.to_string();
        if name == "map_or" && m.args.len() == 2 {
            let (x, d) = (&m.receiver, &m.args[0]);
            let Expr::Closure(c) = &m.args[1] else { return None };
            let (pat, body) = (c.inputs.first()?, &c.body);
            if !matches!(d, Expr::Lit(_)) || has_try(body.to_token_stream()) {
                return None;
            }
            self.cx.rule("combinator with a closure -> match");
            return Some(syn::parse_quote!(match #x { Some(#pat) => #body, None => #d }));
        }
        if m.args.len() != 1 {
            return None;
        }
        if name == "is_some_and" {
            let x = &m.receiver;
            let Expr::Closure(c) = &m.args[0] else { return None };
            let (pat, body) = (c.inputs.first()?, &c.body);
            if has_try(body.to_token_stream()) {
                return None;
            }
            self.cx.rule("combinator with a closure -> match");
            return Some(syn::parse_quote!(match #x { Some(#pat) => #body, None => false }));
        }
        if !["and_then", "ok_or_else", "or_else", "map_err", "map", "unwrap_or_else"].contains(&name.as_str()) {
            return None;
        }
        let x = &m.receiver;
        let (pat, body): (Option<Pat>, Expr) = match &m.args[0] {
            Expr::Closure(c) => (c.inputs.first().cloned(), (*c.body).clone()),
            Expr::Path(p) => {
                if name == "ok_or_else" {
                    (None, syn::parse_quote!(#p()))
                } else {
                    (Some(syn::parse_quote!(__p)), syn::parse_quote!(#p(__p)))
                }
            }
            _ => return None,
        };
        let opt = if name == "and_then" || name == "or_else" {
            let t = tail_of(&body)?.to_token_stream().to_string();
            if t.starts_with("Some (") || t == "None" {
                true
            } else if t.starts_with("Ok (") || t.starts_with("Err (") {
                false
            } else {
                self.cx.problems.push(format!("{} with a closure of unknown result", name));
                return None;
            }
        } else {
            self.cx.opt("inlmap")
        };
        if (name == "map" || name == "unwrap_or_else") && !self.cx.opt("inlmap") {
            return None;
        }
        let body = self.closure_try(body, opt);
        self.cx.rule("combinator with a closure -> match");
        Some(match name.as_str() {
            "and_then" if opt => syn::parse_quote!(match #x { Some(#pat) => #body, None => None }),
            "and_then" => syn::parse_quote!(match #x { Ok(#pat) => #body, Err(__e) => Err(__e) }),
            "or_else" if opt => syn::parse_quote!(match #x { Some(__v) => Some(__v), None => #body }),
            "or_else" => syn::parse_quote!(match #x { Ok(__v) => Ok(__v), Err(#pat) => #body }),
            "ok_or_else" => syn::parse_quote!(match #x { Some(__v) => Ok(__v), None => Err(#body) }),
            "map_err" => syn::parse_quote!(match #x { Ok(__v) => Ok(__v), Err(#pat) => Err(#body) }),
            "map" => syn::parse_quote!(match #x { Some(#pat) => Some(#body), None => None }),
            _ => syn::parse_quote!(match #x { Some(__v) => __v, None => #body }),
        })
    }

    /// a closure no contract speaks about, given to an Option or a Result
    fn inline_plain(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let name = m.method.to_string();
        if m.args.len() != 1 || !["map", "map_err", "and_then", "ok_or_else", "or_else", "unwrap_or_else"].contains(&name.as_str()) {
            return None;
        }
        let Expr::Closure(c) = &m.args[0] else { return None };
        let opt = opt_or_result(&m.receiver)?;
        let x = &m.receiver;
        let pat = c.inputs.first().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() });
        if c.body.to_token_stream().into_iter().any(|t| t.to_string() == "return") || c.body.to_token_stream().to_string().contains("return ") {
            return None;
        }
        let body = if has_try(c.body.to_token_stream()) {
            match name.as_str() { "and_then" | "or_else" => self.closure_try((*c.body).clone(), opt), _ => return None }
        } else { (*c.body).clone() };
        if pat.is_none() != matches!((name.as_str(), opt), ("ok_or_else", _) | ("or_else", true) | ("unwrap_or_else", true)) {
            return None;
        }
        let r: Expr = match (name.as_str(), opt) {
            ("map", true) => syn::parse_quote!(match #x { Some(#pat) => Some(#body), None => None }),
            ("map", false) => syn::parse_quote!(match #x { Ok(#pat) => Ok(#body), Err(__e) => Err(__e) }),
            ("map_err", false) => syn::parse_quote!(match #x { Ok(__v) => Ok(__v), Err(#pat) => Err(#body) }),
            ("and_then", true) => syn::parse_quote!(match #x { Some(#pat) => #body, None => None }),
            ("and_then", false) => syn::parse_quote!(match #x { Ok(#pat) => #body, Err(__e) => Err(__e) }),
            ("ok_or_else", true) => syn::parse_quote!(match #x { Some(__v) => Ok(__v), None => Err(#body) }),
            ("or_else", true) => syn::parse_quote!(match #x { Some(__v) => Some(__v), None => #body }),
            ("or_else", false) => syn::parse_quote!(match #x { Ok(__v) => Ok(__v), Err(#pat) => #body }),
            ("unwrap_or_else", true) => syn::parse_quote!(match #x { Some(__v) => __v, None => #body }),
            ("unwrap_or_else", false) => syn::parse_quote!(match #x { Ok(__v) => __v, Err(#pat) => #body }),
            _ => return None,
        };
        self.cx.rule("combinator with a closure -> match");
        Some(r)
    }

    /// `let P = E?;` inside a closure leaves the closure, not the function
    fn closure_try(&mut self, body: Expr, opt: bool) -> Expr {
        if !has_try(body.to_token_stream()) {
            return body;
        }
        if let Expr::Block(b) = &body {
            let st = &b.block.stmts;
            for (i, s) in st.iter().enumerate() {
                if !has_try(s.to_token_stream()) {
                    continue;
                }
                let (pat, ex): (Pat, Expr) = match s {
                    Stmt::Local(l) => match &l.init {
                        Some(init) => match &*init.expr {
                            Expr::Try(t) => (l.pat.clone(), (*t.expr).clone()),
                            _ => break,
                        },
                        None => break,
                    },
                    Stmt::Expr(Expr::Try(t), Some(_)) => (syn::parse_quote!(_), (*t.expr).clone()),
                    _ => break,
                };
                if has_try(ex.to_token_stream()) {
                    break;
                }
                let before = &st[..i];
                let after = &st[i + 1..];
                let rest: Expr = syn::parse_quote!({ #(#after)* });
                let rest = self.closure_try(rest, opt);
                return if opt {
                    syn::parse_quote!({ #(#before)* match #ex { Some(#pat) => #rest, None => None } })
                } else {
                    syn::parse_quote!({ #(#before)* match #ex { Ok(#pat) => #rest, Err(__e) => Err(__e) } })
                };
            }
        }
        self.cx.problems.push("? inside a closure".into());
        body
    }
}

impl<'c, 'a> VisitMut for Rw<'c, 'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        for (i, s) in stmts.into_iter().enumerate() {
            match s {
                Stmt::Expr(e @ (Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)), semi) => {
                    let is_tail_loop = matches!(e, Expr::Loop(_)) && i + 1 == n && semi.is_none();
                    let ts = self.rewrite_loop(e);
                    let _ = is_tail_loop;
                    for t in ts {
                        b.stmts.push(verb_stmt(t));
                    }
                }
                Stmt::Macro(m) => {
                    let e = self.rewrite_macro(&m.mac);
                    match e {
                        Some(e) => {
                            if i + 1 == n && m.semi_token.is_none() {
                                b.stmts.push(Stmt::Expr(e, None));
                            } else {
                                b.stmts.push(Stmt::Expr(e, Some(Default::default())));
                            }
                        }
                        None => b.stmts.push(Stmt::Macro(m)),
                    }
                }
                Stmt::Item(it) => {
                    // nested use declarations are dropped (names are flattened)
                    if !matches!(it, syn::Item::Use(_)) {
                        self.cx.problems.push("nested item".into());
                    }
                }
                Stmt::Local(mut l) => {
                    let p = match &l.pat {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    if let Pat::Ident(id) = &p {
                        if id.mutability.is_some() {
                            self.cx.muts.push(id.ident.to_string());
                        } else {
                            self.cx.lets.push(id.ident.to_string());
                        }
                    }
                    self.visit_local_mut(&mut l);
                    l.attrs.clear();
                    // let-else is kept
                    b.stmts.push(Stmt::Local(l));
                }
                mut s => {
                    self.visit_stmt_mut(&mut s);
                    b.stmts.push(s);
                }
            }
        }
    }

    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        TyV.visit_path_mut(p);
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        TyV.visit_type_mut(t);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order cases
        if self.cx.opt("inl") {
            if let Some(mut x) = self.inline_combinator(e) {
                self.visit_expr_mut(&mut x);
                *e = x;
                return;
            }
        }
        if self.cx.opt("plain") || !self.cx.ov.sections.keys().any(|k| k.starts_with("closure")) {
            if let Some(mut x) = self.inline_plain(e) {
                self.visit_expr_mut(&mut x);
                *e = x;
                return;
            }
        }
        if let Expr::Call(c) = e {
            // Ok(place = value)
            if c.args.len() == 1 && matches!(c.args[0], Expr::Assign(_)) {
                self.cx.rule("f(place = value) -> { place = value; f(()) }");
                let (f, a) = (&c.func, &c.args[0]);
                let mut x: Expr = syn::parse_quote!({ #a; #f(()) });
                self.visit_expr_mut(&mut x);
                *e = x;
                return;
            }
        }
        if let (true, Expr::Call(c)) = (self.cx.opt("eprints"), &*e) {
            if quote::quote!(#c).to_string().replace(' ', "").contains("process::exit(") && c.args.len() == 1 {
                self.cx.rule("process::exit(c) -> vexit(c, the lines reported)");
                let mut a = c.args[0].clone();
                self.visit_expr_mut(&mut a);
                *e = Expr::Verbatim(quote!(vexit(#a, Ghost(__err))));
                return;
            }
        }
        // the regex crate is described for one pattern only
        if let (true, Expr::Call(c)) = (self.cx.opt("groups"), &*e) {
            if quote::quote!(#c).to_string().replace(' ', "").contains("Regex::new(") && c.args.len() == 1 {
                let known = matches!(&c.args[0], Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(t), .. }) if t.value() == r"\$(\w+|\{\w+\})");
                if !known {
                    self.cx.problems.push("a pattern other than the one described".into());
                }
            }
        }
        // &captures[i]: the library panics where there is no such group
        if let (true, Expr::Reference(r)) = (self.cx.opt("groups"), &*e) {
            if let Expr::Index(i) = &*r.expr {
                self.cx.rule("captures[i] -> vgroup (requires the group)");
                let (x, k) = (&i.expr, &i.index);
                let mut y: Expr = syn::parse_quote!(#x.vgroup(#k));
                self.visit_expr_mut(&mut y);
                *e = y;
                return;
            }
        }
        if let (true, Expr::MethodCall(m)) = (self.cx.opt("groups"), &mut *e) {
            if let Expr::Index(i) = &*m.receiver {
                self.cx.rule("captures[i] -> vgroup (requires the group)");
                let (x, k) = (&i.expr, &i.index);
                m.receiver = syn::parse_quote!(#x.vgroup(#k));
            }
        }
        if let Some(mut x) = range_index(e) {
            self.cx.rule("text[a..b] -> vslice (requires character boundaries)");
            self.visit_expr_mut(&mut x);
            *e = x;
            return;
        }
        // map(Enum::Variant): the constructor as a closure with its meaning
        if let Expr::MethodCall(m) = e {
            if m.method == "map" && m.args.len() == 1 {
                if let Expr::Path(p) = &m.args[0] {
                    let n = p.path.segments.len();
                    let up = |i: usize| p.path.segments[i].ident.to_string().starts_with(|c: char| c.is_ascii_uppercase());
                    if n >= 2 && p.qself.is_none() && up(n - 1) && up(n - 2) {
                        self.cx.rule("constructor as a function value -> closure");
                        let ctor = &p.path.segments[n - 1];
                        let ty = &p.path.segments[n - 2];
                        m.args[0] = Expr::Verbatim(quote!(|__x| -> (__r: #ty) ensures __r == #ty::#ctor(__x) { #ty::#ctor(__x) }));
                    }
                }
            }
        }
        match e {
            Expr::Path(p) if p.path.segments.len() == 1 && self.cx.ov.opts.iter().any(|o| o.strip_prefix("items=") == Some(&p.path.segments[0].ident.to_string())) => {
                self.cx.rule("constant list -> function with its items as contract");
                let id = format_ident!("{}_v", p.path.segments[0].ident);
                *e = Expr::Verbatim(quote!(#id()));
                return;
            }
            Expr::MethodCall(m) if m.method == "starts_with" && m.args.len() == 1 && m.args[0].to_token_stream().to_string().replace(' ', "") == "char::is_whitespace" => {
                self.cx.rule("library method -> contract-carrying shim of the same name");
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                *e = Expr::Verbatim(quote!((#r).vstarts_with_whitespace()));
                return;
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Add(_)) && (is_str_lit(&b.right) || is_format(&b.left)) => {
                self.cx.rule("String + &str -> vcat");
                let mut l = (*b.left).clone();
                let mut r = (*b.right).clone();
                self.visit_expr_mut(&mut l);
                self.visit_expr_mut(&mut r);
                *e = Expr::Verbatim(quote!(vcat(#l, #r)));
                return;
            }
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                let ts = self.rewrite_loop(e.clone());
                *e = Expr::Verbatim(quote!({ #(#ts)* }));
                return;
            }
            Expr::Macro(m) => {
                let m2 = m.mac.clone();
                if let Some(x) = self.rewrite_macro(&m2) {
                    *e = x;
                }
                return;
            }
            Expr::MethodCall(m) if m.method == "find" && matches!(&*m.receiver, Expr::MethodCall(r) if r.method == "iter_mut") => {
                self.cx.rule("iter_mut().find(f) -> vfind_mut");
                let mut recv = match &*m.receiver {
                    Expr::MethodCall(r) => (*r.receiver).clone(),
                    _ => unreachable!(),
                };
                let mut c = m.args[0].clone();
                self.visit_expr_mut(&mut recv);
                self.visit_expr_mut(&mut c);
                *e = Expr::Verbatim(quote!(vfind_mut(&mut #recv, #c)));
                return;
            }
            Expr::Closure(c) => {
                let k = self.cx.n_closures;
                self.cx.n_closures += 1;
                let sec = self.cx.sec(&format!("closure {}", k));
                let mut body = (*c.body).clone();
                self.visit_expr_mut(&mut body);
                let mut params: Vec<TokenStream> = vec![];
                let mut names: Vec<String> = vec![];
                let mut pre: Vec<TokenStream> = vec![];
                let mut types: Vec<Option<String>> = vec![None; c.inputs.len()];
                let mut ret = String::new();
                let mut rest = String::new();
                if let Some(s) = &sec {
                    for l in s.lines() {
                        if let Some(t) = l.trim().strip_prefix("params:") {
                            for (i, t) in t.split(';').enumerate() {
                                if i < types.len() && !t.trim().is_empty() {
                                    types[i] = Some(t.trim().to_string());
                                }
                            }
                        } else if let Some(t) = l.trim().strip_prefix("ret:") {
                            ret = t.trim().to_string();
                        } else {
                            rest.push_str(l);
                            rest.push('\n');
                        }
                    }
                }
                for (i, p) in c.inputs.iter().enumerate() {
                    let (pat, ty) = match p {
                        Pat::Type(t) => ((*t.pat).clone(), Some(t.ty.to_token_stream().to_string())),
                        p => (p.clone(), None),
                    };
                    let ty = types[i].clone().or(ty);
                    let name = match &pat {
                        Pat::Ident(id) => id.ident.to_string(),
                        _ => {
                            let n = format!("__c{}_{}", k, i);
                            let id = format_ident!("{}", n);
                            if !matches!(pat, Pat::Wild(_)) {
                                pre.push(quote!(let #pat = #id;));
                            }
                            n
                        }
                    };
                    let id = format_ident!("{}", name);
                    names.push(name);
                    match ty {
                        Some(t) => {
                            let t: TokenStream = t.parse().unwrap();
                            params.push(quote!(#id : #t))
                        }
                        None => params.push(quote!(#id)),
                    }
                }
                let mv = &c.capture;
                if sec.is_some() {
                    self.cx.rule("closure annotated");
                    let mut t = String::new();
                    if !ret.is_empty() {
                        t.push_str(&format!("-> ({})\n", ret));
                    }
                    for (i, n) in names.iter().enumerate() {
                        rest = rest.replace(&format!("${}", i), n);
                    }
                    t.push_str(&rest);
                    let ph = self.cx.ph(t);
                    *e = Expr::Verbatim(quote!(#mv |#(#params),*| #ph { #(#pre)* #body }));
                } else {
                    *e = Expr::Verbatim(quote!(#mv |#(#params),*| { #(#pre)* #body }));
                }
                return;
            }
            Expr::Match(m) => {
                self.nested_lits(m);
                let any = m.arms.iter().any(|a| str_pats(&a.pat).is_some());
                if any {
                    self.cx.rule("match on string literals -> if chain");
                    let n = self.cx.n_match;
                    self.cx.n_match += 1;
                    let id = format_ident!("__m{}", n);
                    let mut sc = (*m.expr).clone();
                    self.visit_expr_mut(&mut sc);
                    let mut arms = m.arms.clone();
                    let mut acc = quote!({ vpanic() });
                    for a in arms.iter_mut() {
                        self.visit_expr_mut(&mut a.body);
                        if let Some((_, g)) = &mut a.guard {
                            self.visit_expr_mut(g);
                        }
                    }
                    for a in arms.iter().rev() {
                        let body = &a.body;
                        match str_pats(&a.pat) {
                            Some(ls) => {
                                let mut cond = quote!();
                                for (i, l) in ls.iter().enumerate() {
                                    if i > 0 {
                                        cond = quote!(#cond ||);
                                    }
                                    cond = quote!(#cond VEq::veq(&(#id), &(#l)));
                                }
                                if let Some((_, g)) = &a.guard {
                                    cond = quote!((#cond) && #g);
                                }
                                acc = quote!({ if #cond { #body } else #acc });
                            }
                            None => match &a.pat {
                                Pat::Wild(_) => match &a.guard {
                                    None => acc = quote!({ #body }),
                                    Some((_, g)) => acc = quote!({ if #g { #body } else #acc }),
                                },
                                Pat::Ident(x) => {
                                    let x = &x.ident;
                                    match &a.guard {
                                        None => acc = quote!({ let #x = #id; #body }),
                                        Some((_, g)) => acc = quote!({ let #x = #id; if #g { #body } else #acc }),
                                    }
                                }
                                _ => self.cx.problems.push("mixed string match".into()),
                            },
                        }
                    }
                    *e = Expr::Verbatim(quote!({ let #id = #sc; #acc }));
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_)) => {
                self.cx.rule("== -> VEq::veq");
                let (l, r) = (&b.left, &b.right);
                *e = Expr::Verbatim(quote!(VEq::veq(&(#l), &(#r))));
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Ne(_)) => {
                self.cx.rule("!= -> !VEq::veq");
                let (l, r) = (&b.left, &b.right);
                *e = Expr::Verbatim(quote!((!VEq::veq(&(#l), &(#r)))));
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let new = match (name.as_str(), m.args.len()) {
                    ("iter", 0) => Some("viter"),
                    ("clone", 0) => Some("vclone"),
                    ("to_owned", 0) => Some("to_string"),
                    ("join", 1) => Some("vjoin"),
                    ("replace", 2) => Some("vreplace"),
                    ("extend", 1) => Some("vextend"),
                    ("reverse", 0) => Some("vreverse"),
                    ("trim", 0) => Some("vtrim"),
                    ("unwrap_or_default", 0) => Some("vunwrap_or_default"),
                    ("trim_matches", 1) if self.cx.opt("groups") => Some("vtrim_matches"),
                    ("starts_with", 1) => Some("vstarts_with"),
                    ("ends_with", 1) => Some("vends_with"),
                    ("contains", 1) if self.cx.opt("vcontains") => Some("vcontains"),
                    ("trim_end_matches", 1) => Some("vtrim_end_matches"),
                    ("trim_start_matches", 1) => Some("vtrim_start_matches"),
                    ("to_lowercase", 0) => Some("vto_lowercase"),
                    ("to_uppercase", 0) => Some("vto_uppercase"),
                    ("split", 1) => Some("vsplit"),
                    ("splitn", 2) => Some("vsplitn"),
                    ("split_once", 1) => Some("vsplit_once"),
                    ("rsplit_once", 1) => Some("vrsplit_once"),
                    ("parse", 0) => Some("vparse"),
                    ("sort", 0) => Some("vsort"),
                    ("eq", 1) => Some("veq"),
                    ("eq_ignore_ascii_case", 1) => Some("veq_ignore_ascii_case"),
                    ("strip_suffix", 1) => Some("vstrip_suffix"),
                    ("strip_prefix", 1) => Some("vstrip_prefix"),
                    ("lines", 0) => Some("vlines"),
                    ("chars", 0) => Some("vchars"),
                    ("last", 0) => Some("vlast"),
                    ("first", 0) => Some("vfirst"),
                    ("find", 1) if self.cx.opt("vfind") => Some("vfind"),
                    ("push_str", 1) => Some("vpush_str"),
                    ("to_ascii_lowercase", 0) => Some("vto_ascii_lowercase"),
                    ("len", 0) if self.cx.opt("strlen") => Some("vblen"),
                    ("is_empty", 0) if self.cx.opt("strempty") => Some("vis_empty"),
                    _ => None,
                };
                if let Some(n) = new {
                    if name == "iter" {
                        self.cx.rule("iter() -> eager iterator");
                    } else {
                        self.cx.rule("library method -> contract-carrying shim of the same name");
                    }
                    m.method = format_ident!("{}", n);
                }
                if name == "collect" {
                    if let Some(tf) = &m.turbofish {
                        if !tf.to_token_stream().to_string().contains("Vec") {
                            self.cx.problems.push("collect into something other than Vec".into());
                        }
                    }
                    m.turbofish = None;
                }
                if matches!(name.as_str(), "execute" | "query" | "query_one" | "query_opt") && m.args.len() == 2 {
                    // statement parameters are a slice of trait objects
                    if let Expr::Reference(r) = &m.args[1] {
                        if let Expr::Array(a) = &*r.expr {
                            self.cx.rule("slice of statement parameters -> parameter list");
                            let mut t = quote!(VParams::none());
                            for x in &a.elems {
                                t = quote!(#t.with(#x));
                            }
                            m.args[1] = Expr::Verbatim(t);
                        }
                    }
                }
                if name == "into" && m.args.is_empty() {
                    self.cx.rule("into() -> VInto");
                    let r = &m.receiver;
                    *e = Expr::Verbatim(quote!(VInto::vinto(#r)));
                } else if name == "into_iter" && m.args.is_empty() {
                    self.cx.rule("into_iter() -> eager iterator");
                    let r = &m.receiver;
                    *e = Expr::Verbatim(quote!(IntoV::into_v(#r)));
                } else if (name == "and_then" || name == "or_else" || name == "map_err") && self.cx.opt("cps") {
                    // left to the overlay
                }
            }
            Expr::Try(t) if self.cx.opt("tryinto") => {
                self.cx.rule("? with error conversion -> match + VInto");
                let r = &t.expr;
                *e = Expr::Verbatim(quote!((match #r { Ok(__v) => __v, Err(__e) => return Err(VInto::vinto(__e)) })));
            }
            _ => {}
        }
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
}

pub fn rewrite_fn(cx: &mut Ctx, mut sig: syn::Signature, mut block: syn::Block) -> Result<(TokenStream, TokenStream), String> {
    // signature
    for a in sig.inputs.iter() {
        match a {
            syn::FnArg::Typed(t) => {
                let p = match &*t.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    p => p.to_token_stream().to_string(),
                };
                cx.args.push(p)
            }
            _ => {}
        }
    }
    TyV.visit_signature_mut(&mut sig);
    let mut mut_self = false;
    if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            mut_self = true;
        }
    }
    if mut_self {
        cx.rule("mut self -> self bound to a mutable local");
        struct S;
        impl VisitMut for S {
            fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
                if i == "self" {
                    *i = format_ident!("__self");
                }
            }
        }
        S.visit_block_mut(&mut block);
        block.stmts.insert(0, syn::parse_quote!(let mut __self = self;));
    }
    let entry = cx.sec("entry");
    let exit = cx.sec("exit");
    let end = cx.sec("end");
    let pentry = entry.map(|s| cx.ph(s));
    let pexit = exit.map(|s| cx.ph(s));
    let pend = end.map(|s| cx.ph(s));
    if cx.opt("external_body") || cx.ov.opts.iter().any(|o| o == "attr=verifier::external_body") {
        block.stmts.clear();
        cx.n_loops = 0;
        let mut s2 = sig.clone();
        let out = s2.output.clone();
        s2.output = syn::ReturnType::Default;
        let rt = ret_ts(cx, &out);
        let st = s2.to_token_stream();
        let (st, wc) = split_where(st, &s2);
        return Ok((quote!(#st #rt #wc), quote!({ unimplemented!() })));
    }
    // proof steps after the conditional statements of the body
    let mut at = 0;
    while at + 1 < block.stmts.len() {
        if let Stmt::Expr(Expr::If(i), _) = &block.stmts[at] {
            if i.else_branch.is_none() {
                let k = cx.n_ifs;
                cx.n_ifs += 1;
                if let Some(s) = cx.sec(&format!("afterif {}", k)) {
                    let p = cx.ph(s);
                    at += 1;
                    block.stmts.insert(at, verb_stmt(quote!(#p;)));
                }
            }
        }
        at += 1;
    }
    let mut rw = Rw { cx };
    rw.visit_block_mut(&mut block);
    // the type of the result, where it can be written down on a local
    let rty = match &sig.output {
        syn::ReturnType::Type(_, t) if !t.to_token_stream().to_string().contains("impl ") => quote!(: #t),
        _ => quote!(),
    };
    if let Some(p) = pexit {
        // bind the tail expression, then run the proof, then return it
        let last = block.stmts.pop();
        match last {
            Some(Stmt::Expr(Expr::Return(r), _)) => {
                let ex = r.expr;
                block.stmts.push(verb_stmt(quote!(let __r #rty = #ex; #p; return __r;)));
            }
            Some(Stmt::Expr(ex, None)) if !matches!(&ex, Expr::Verbatim(v) if v.to_string().starts_with("while ") || v.to_string().starts_with("loop ")) => {
                block.stmts.push(verb_stmt(quote!(let __r #rty = #ex; #p; __r)));
            }
            Some(s) => {
                block.stmts.push(s);
                block.stmts.push(verb_stmt(quote!(#p;)));
            }
            None => block.stmts.push(verb_stmt(quote!(#p;))),
        }
    }
    if let Some(p) = pend {
        // before the tail expression
        let last = block.stmts.pop();
        block.stmts.push(verb_stmt(quote!(#p;)));
        if let Some(l) = last {
            block.stmts.push(l);
        }
    }
    if let Some(p) = pentry {
        block.stmts.insert(0, verb_stmt(quote!(#p;)));
    }
    let mut s2 = sig.clone();
    let out = s2.output.clone();
    s2.output = syn::ReturnType::Default;
    let rt = ret_ts(cx, &out);
    let st = s2.to_token_stream();
    let (st, wc) = split_where(st, &s2);
    let st = if cx.n_loops > 0 { quote!(#st) } else { st };
    Ok((quote!(#st #rt #wc), block.to_token_stream()))
}

fn split_where(_st: TokenStream, s: &syn::Signature) -> (TokenStream, TokenStream) {
    let mut s = s.clone();
    let wc = s.generics.where_clause.take();
    (s.to_token_stream(), wc.map(|w| w.to_token_stream()).unwrap_or_default())
}

fn ret_ts(cx: &Ctx, out: &syn::ReturnType) -> TokenStream {
    match out {
        syn::ReturnType::Default => TokenStream::new(),
        syn::ReturnType::Type(_, t) => {
            let r = format_ident!("{}", cx.ov.ret.clone().unwrap_or("r".into()));
            quote!(-> (#r : #t))
        }
    }
}
