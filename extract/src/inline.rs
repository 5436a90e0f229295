//! Calls of helper functions which have no contract of their own are replaced by the
//! helper's body (the call's meaning), so that a function split in two is still verified.
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::HashSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{Block, Expr, Pat, Signature, Stmt};

/// finds the definition of a helper: (name, is it called as a method)
pub type Lookup<'l> = dyn FnMut(&str, bool) -> Option<(Signature, Block)> + 'l;

fn ret_of(sig: &Signature) -> String {
    match &sig.output {
        syn::ReturnType::Default => "()".into(),
        syn::ReturnType::Type(_, t) => t.to_token_stream().to_string(),
    }
}

/// what `?` would return early with: the error type, or the option
fn early(sig: &Signature) -> Option<String> {
    if let syn::ReturnType::Type(_, t) = &sig.output {
        if let syn::Type::Path(p) = &**t {
            let s = p.path.segments.last()?;
            if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                if s.ident == "Option" {
                    return Some("Option".into());
                }
                if s.ident == "Result" {
                    return Some(match a.args.len() {
                        2 => a.args[1].to_token_stream().to_string(),
                        _ => "alias".into(),
                    });
                }
            }
        }
    }
    None
}

fn unit_ok(sig: &Signature) -> bool {
    let r = ret_of(sig).replace(' ', "");
    r == "()" || r.starts_with("Result<()")
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Plain,
    Try,
    Tail,
}

/// is there a `return` (outside closures) which has not been dealt with, or a `?`
struct Escapes {
    ret: bool,
    tried: bool,
    mode: Mode,
}
impl<'a> Visit<'a> for Escapes {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Closure(_) | Expr::Async(_) => {}
            Expr::Return(r) => {
                if !(self.mode == Mode::Try && r.expr.as_ref().map_or(false, |x| is_failure(x))) {
                    self.ret = true;
                }
                syn::visit::visit_expr(self, e);
            }
            Expr::Try(_) => {
                self.tried = true;
                syn::visit::visit_expr(self, e);
            }
            Expr::Macro(m) => {
                let t = m.mac.tokens.to_string();
                if t.contains("return") { self.ret = true; }
                if t.contains('?') { self.tried = true; }
            }
            _ => syn::visit::visit_expr(self, e),
        }
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
fn escapes<'a>(mode: Mode, f: impl FnOnce(&mut Escapes)) -> Escapes {
    let mut v = Escapes { ret: false, tried: false, mode };
    f(&mut v);
    v
}

fn is_failure(e: &Expr) -> bool {
    match e {
        Expr::Call(c) => c.func.to_token_stream().to_string() == "Err",
        Expr::Path(p) => p.path.is_ident("None"),
        Expr::Paren(p) => is_failure(&p.expr),
        _ => false,
    }
}

/// a block without `return`: the rest of the block goes into the branches which do not return
fn norm(stmts: Vec<Stmt>, mode: Mode) -> Option<Vec<Stmt>> {
    if mode == Mode::Tail {
        return Some(stmts);
    }
    // for P in E { if C { return true; } } false
    if let [.., Stmt::Expr(Expr::ForLoop(f), _), Stmt::Expr(last, None)] = &stmts[..] {
        let lit = |e: &Expr| match e.to_token_stream().to_string().as_str() { "true" => Some(true), "false" => Some(false), _ => None };
        if let (Some(z), [Stmt::Expr(Expr::If(i), _)]) = (lit(last), &f.body.stmts[..]) {
            if let (None, [Stmt::Expr(Expr::Return(r), _)]) = (&i.else_branch, &i.then_branch.stmts[..]) {
                if r.expr.as_ref().and_then(|x| lit(x)) == Some(!z) && !matches!(&*i.cond, Expr::Let(_)) {
                    let (p, c, src) = (&f.pat, &i.cond, &f.expr);
                    let src: Expr = match &**src {
                        Expr::Reference(r) => { let e = &r.expr; syn::parse_quote!(#e.iter()) }
                        e => e.clone(),
                    };
                    let tail: Expr = if z { syn::parse_quote!(!#src.any(|#p| #c)) } else { syn::parse_quote!(#src.any(|#p| #c)) };
                    let n = stmts.len();
                    let mut out = stmts[..n - 2].to_vec();
                    out.push(Stmt::Expr(tail, None));
                    return norm(out, mode);
                }
            }
        }
    }
    let mut out: Vec<Stmt> = vec![];
    let n = stmts.len();
    for (i, s) in stmts.iter().enumerate() {
        let bad = escapes(mode, |v| v.visit_stmt(s)).ret;
        let last = i + 1 == n;
        match s {
            Stmt::Expr(e, None) if last => {
                out.push(Stmt::Expr(tail(e.clone(), mode)?, None));
                return Some(out);
            }
            Stmt::Expr(Expr::Return(r), _) => {
                match &r.expr {
                    Some(x) => out.push(Stmt::Expr(tail((**x).clone(), mode)?, None)),
                    None => {}
                }
                return Some(out);
            }
            _ if !bad => out.push(s.clone()),
            Stmt::Expr(Expr::If(c), _) if c.else_branch.is_none() && escapes(mode, |v| v.visit_expr(&c.cond)).ret == false => {
                let then = &c.then_branch.stmts;
                if !matches!(then.last(), Some(Stmt::Expr(Expr::Return(_), _))) {
                    return None;
                }
                let mut c = c.clone();
                c.then_branch.stmts = norm(then.clone(), mode)?;
                let rest = norm(stmts[i + 1..].to_vec(), mode)?;
                let b: Block = Block { brace_token: Default::default(), stmts: rest };
                c.else_branch = Some((Default::default(), Box::new(Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b }))));
                out.push(Stmt::Expr(Expr::If(c), None));
                return Some(out);
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let (_, els) = init.diverge.as_ref()?;
                let Expr::Block(eb) = &**els else { return None };
                if escapes(mode, |v| v.visit_expr(&init.expr)).ret {
                    return None;
                }
                let (p, e) = (&l.pat, &init.expr);
                let a = norm(eb.block.stmts.clone(), mode)?;
                let rest = norm(stmts[i + 1..].to_vec(), mode)?;
                let m: Expr = syn::parse_quote!(match #e { #p => { #(#rest)* } _ => { #(#a)* } });
                out.push(Stmt::Expr(m, None));
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(out)
}

fn tail(e: Expr, mode: Mode) -> Option<Expr> {
    Some(match e {
        Expr::Return(r) => tail(*r.expr?, mode)?,
        Expr::Paren(p) => tail(*p.expr, mode)?,
        Expr::If(mut i) => {
            if escapes(mode, |v| v.visit_expr(&i.cond)).ret {
                return None;
            }
            i.then_branch.stmts = norm(i.then_branch.stmts, mode)?;
            i.else_branch = match i.else_branch {
                Some((t, b)) => Some((t, Box::new(tail(*b, mode)?))),
                None => None,
            };
            Expr::If(i)
        }
        Expr::Match(mut m) => {
            if escapes(mode, |v| v.visit_expr(&m.expr)).ret {
                return None;
            }
            for a in m.arms.iter_mut() {
                a.body = Box::new(tail((*a.body).clone(), mode)?);
                a.comma = Some(Default::default());
            }
            Expr::Match(m)
        }
        Expr::Block(mut b) if b.label.is_none() => {
            b.block.stmts = norm(b.block.stmts, mode)?;
            Expr::Block(b)
        }
        e => {
            if escapes(mode, |v| v.visit_expr(&e)).ret {
                return None;
            }
            if mode != Mode::Try || matches!(&e, Expr::Macro(m) if ["panic", "unreachable", "todo", "unimplemented"].iter().any(|x| m.mac.path.is_ident(x))) {
                return Some(e);
            }
            if is_failure(&e) {
                syn::parse_quote!(return #e)
            } else {
                match &e {
                    Expr::Call(c) if c.args.len() == 1 && ["Ok", "Some"].contains(&c.func.to_token_stream().to_string().as_str()) => c.args[0].clone(),
                    _ => syn::parse_quote!(#e?),
                }
            }
        }
    })
}

/// names bound in a block
struct Bound(HashSet<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.insert(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}
fn idents(ts: TokenStream, out: &mut HashSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => { out.insert(i.to_string()); }
            TokenTree::Group(g) => idents(g.stream(), out),
            TokenTree::Literal(l) => {
                // names inside format strings
                let s = l.to_string();
                if s.contains('{') {
                    for w in s.split(|c: char| !c.is_alphanumeric() && c != '_') { out.insert(w.to_string()); }
                }
            }
            _ => {}
        }
    }
}
fn idents_of(ts: TokenStream) -> HashSet<String> {
    let mut s = HashSet::new();
    idents(ts, &mut s);
    s
}

struct Subst<'s> {
    map: &'s [(String, Expr)],
    failed: bool,
}
fn strip(e: Expr) -> Expr {
    match e {
        Expr::Reference(r) => strip(*r.expr),
        Expr::Paren(p) if matches!(&*p.expr, Expr::Reference(_)) => strip(*p.expr),
        e => e,
    }
}
impl<'s> Subst<'s> {
    fn is(&self, e: &Expr) -> Option<Expr> {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                return self.map.iter().find(|(n, _)| i == n).map(|(_, x)| x.clone());
            }
        }
        None
    }
}
impl<'s> VisitMut for Subst<'s> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) => if let Some(x) = self.is(&m.receiver) { *m.receiver = strip(x); },
            Expr::Reference(r) if r.mutability.is_none() => if let Some(Expr::Reference(i)) = self.is(&r.expr) { *e = Expr::Reference(i); return; },
            Expr::Field(f) => if let Some(x) = self.is(&f.base) { *f.base = strip(x); },
            Expr::Index(f) => if let Some(x) = self.is(&f.expr) { *f.expr = strip(x); },
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => if let Some(Expr::Reference(r)) = self.is(&u.expr) {
                *e = *r.expr;
                return;
            },
            _ => {}
        }
        if let Some(x) = self.is(e) {
            *e = x;
            return;
        }
        if let Expr::Struct(s) = e {
            for f in s.fields.iter_mut() {
                if f.colon_token.is_none() {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if let Ok(mut a) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
            // names inside the format string become arguments
            let mut extra: Vec<Expr> = vec![];
            if let Some(Expr::Lit(l)) = a.first_mut() {
                if let syn::Lit::Str(s) = &mut l.lit {
                    let mut t = s.value();
                    for (n, x) in self.map {
                        for suf in ["}", ":"] {
                            let key = format!("{{{}{}", n, suf);
                            if t.contains(&key) {
                                t = t.replace(&key, &format!("{{{}{}", n, suf));
                                let id = quote::format_ident!("{}", n);
                                if !extra.iter().any(|e: &Expr| e.to_token_stream().to_string().starts_with(&format!("{} =", n))) {
                                    extra.push(syn::parse_quote!(#id = #x));
                                }
                            }
                        }
                    }
                }
            }
            for e in a.iter_mut() {
                if let Expr::Assign(s) = e {
                    self.visit_expr_mut(&mut s.right);
                } else {
                    self.visit_expr_mut(e);
                }
            }
            for x in extra { a.push(x); }
            m.tokens = a.to_token_stream();
        } else if self.map.iter().any(|(n, _)| idents_of(m.tokens.clone()).contains(n)) {
            self.failed = true;
        }
    }
}

fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => simple(&f.base),
        Expr::Reference(r) => simple(&r.expr),
        Expr::Paren(p) => simple(&p.expr),
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && simple(&u.expr),
        _ => false,
    }
}

struct Uses<'n> {
    name: &'n str,
    n: usize,
    nested: usize,
    depth: usize,
}
impl<'n, 'a> Visit<'a> for Uses<'n> {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Path(p) if p.path.is_ident(self.name) => {
                self.n += 1;
                if self.depth > 0 { self.nested += 1; }
            }
            Expr::ForLoop(f) => {
                self.visit_expr(&f.expr);
                self.depth += 1;
                self.visit_block(&f.body);
                self.depth -= 1;
            }
            Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => {
                self.depth += 1;
                syn::visit::visit_expr(self, e);
                self.depth -= 1;
            }
            Expr::Macro(m) => {
                if idents_of(m.mac.tokens.clone()).contains(self.name) { self.n += 1; if self.depth > 0 { self.nested += 1; } }
            }
            _ => syn::visit::visit_expr(self, e),
        }
    }
}

pub struct Inl<'r, 'l> {
    pub lookup: &'r mut Lookup<'l>,
    pub caller: Signature,
    pub depth: usize,
    pub names: Vec<String>,
    /// helpers being expanded
    pub stack: Vec<String>,
}

const MARK: &str = "inl_block";

impl<'r, 'l> Inl<'r, 'l> {
    fn expand(&mut self, sig: &Signature, block: &Block, recv: Option<&Expr>, args: Vec<Expr>, mode: Mode) -> Option<Expr> {
        let me = sig.ident.to_string();
        if self.stack.contains(&me) || self.caller.ident == me { return None; }
        if mode == Mode::Tail && ret_of(sig) != ret_of(&self.caller) {
            return None;
        }
        if mode == Mode::Try && (early(sig).is_none() || early(sig) != early(&self.caller)) {
            return None;
        }
        let mut stmts = block.stmts.clone();
        if stmts.iter().any(|s| matches!(s, Stmt::Item(i) if !matches!(i, syn::Item::Use(_)))) {
            return None;
        }
        // parameters
        let mut map: Vec<(String, Expr)> = vec![];
        let mut lets: Vec<Stmt> = vec![];
        let mut it = args.into_iter();
        for p in &sig.inputs {
            match p {
                syn::FnArg::Receiver(_) => {
                    let r = match recv { Some(r) => r.clone(), None => it.next()? };
                    if matches!(p, syn::FnArg::Receiver(s) if s.reference.is_none() && s.mutability.is_some()) {
                        lets.push(syn::parse_quote!(let mut __self = #r;));
                        map.push(("self".into(), syn::parse_quote!(__self)));
                        continue;
                    }
                    if !simple(&r) { return None; }
                    map.push(("self".into(), r));
                }
                syn::FnArg::Typed(t) => {
                    let a = it.next()?;
                    match &*t.pat {
                        Pat::Ident(i) if i.mutability.is_none() => {
                            let name = i.ident.to_string();
                            let mut u = Uses { name: &name, n: 0, nested: 0, depth: 0 };
                            for s in &stmts { u.visit_stmt(s); }
                            let reborrow = matches!(&a, Expr::Reference(_)) || matches!(&*t.ty, syn::Type::Reference(_));
                            if simple(&a) && (reborrow || u.n <= 1 || matches!(a, Expr::Lit(_))) || (u.n == 1 && u.nested == 0) {
                                map.push((name, a));
                            } else {
                                let pat = &t.pat;
                                lets.push(syn::parse_quote!(let #pat = #a;));
                            }
                        }
                        pat => {
                            lets.push(syn::parse_quote!(let #pat = #a;));
                        }
                    }
                }
            }
        }
        if it.next().is_some() { return None; }
        let mut b = Bound(HashSet::new());
        for s in &stmts { b.visit_stmt(s); }
        for s in &lets { b.visit_stmt(s); }
        let mut used = HashSet::new();
        for (_, a) in &map { idents(a.to_token_stream(), &mut used); }
        for (n, a) in &map {
            // a name the helper binds again cannot be replaced, nor may it catch one of the arguments
            if b.0.contains(n) { return None; }
            let _ = a;
        }
        if used.iter().any(|u| u != "__self" && b.0.contains(u)) { return None; }
        let mut sb = Subst { map: &map, failed: false };
        for s in stmts.iter_mut() { sb.visit_stmt_mut(s); }
        if sb.failed { return None; }
        // helpers of the helper
        let mut blk = Block { brace_token: Default::default(), stmts };
        let mut inner = Inl { lookup: self.lookup, caller: sig.clone(), depth: self.depth + 1, names: vec![], stack: self.stack.iter().cloned().chain([me]).collect() };
        if inner.depth < 5 { inner.run(&mut blk); }
        self.names.append(&mut inner.names);
        let body = norm(blk.stmts, mode)?;
        let blk2 = Block { brace_token: Default::default(), stmts: lets.into_iter().chain(body).collect() };
        let es = escapes(mode, |v| v.visit_block(&blk2));
        if mode != Mode::Tail && es.ret { return None; }
        if mode == Mode::Plain && es.tried { return None; }
        self.names.push(sig.ident.to_string());
        if std::env::var("VX_TRACE").is_ok() { eprintln!("inlined {} into {}", sig.ident, self.caller.ident); }
        let mut stmts = blk2.stmts;
        // the unit value needs no tail
        if mode != Mode::Tail && unit_ok(sig) {
            if let Some(Stmt::Expr(Expr::Tuple(t), None)) = stmts.last() {
                if t.elems.is_empty() { stmts.pop(); }
            }
        }
        Some(Expr::Block(syn::ExprBlock { attrs: vec![syn::parse_quote!(#[inl_block])], label: None, block: Block { brace_token: Default::default(), stmts } }))
    }

    fn call(&mut self, e: &Expr, mode: Mode) -> Option<Expr> {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                if p.qself.is_some() { return None; }
                let n = p.path.segments.last()?.ident.to_string();
                let owned = p.path.segments.len() > 1 && {
                    let q = p.path.segments[p.path.segments.len() - 2].ident.to_string();
                    q.chars().next().map_or(false, |c| c.is_uppercase())
                };
                let (sig, b) = (self.lookup)(&n, owned)?;
                self.expand(&sig, &b, None, c.args.iter().cloned().collect(), mode)
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let (sig, b) = (self.lookup)(&n, true)?;
                if !matches!(sig.inputs.first(), Some(syn::FnArg::Receiver(_))) { return None; }
                self.expand(&sig, &b, Some(&m.receiver), m.args.iter().cloned().collect(), mode)
            }
            Expr::Paren(p) => self.call(&p.expr, mode),
            _ => None,
        }
    }

    pub fn run(&mut self, b: &mut Block) {
        Each.visit_block_mut(b);
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail_pos(e);
        }
        self.visit_block_mut(b);
        flatten(b, &mut vec![]);
        Unmark.visit_block_mut(b);
    }

    fn tail_pos(&mut self, e: &mut Expr) {
        match e {
            Expr::If(i) => {
                if let Some(Stmt::Expr(e, None)) = i.then_branch.stmts.last_mut() { self.tail_pos(e); }
                if let Some((_, b)) = &mut i.else_branch { self.tail_pos(b); }
            }
            Expr::Match(m) => for a in m.arms.iter_mut() { self.tail_pos(&mut a.body); },
            Expr::Block(b) => if let Some(Stmt::Expr(e, None)) = b.block.stmts.last_mut() { self.tail_pos(e); },
            _ => if let Some(x) = self.call(e, Mode::Tail) { *e = x; },
        }
    }
}

impl<'r, 'l> VisitMut for Inl<'r, 'l> {
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if let Ok(mut a) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
            let before = a.to_token_stream().to_string();
            for e in a.iter_mut() {
                if let Expr::Assign(s) = e { self.visit_expr_mut(&mut s.right); } else { self.visit_expr_mut(e); }
            }
            if before != a.to_token_stream().to_string() {
                for e in a.iter_mut() { Unmark.visit_expr_mut(e); }
                m.tokens = a.to_token_stream();
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(c) => {
                // `return` and `?` mean something else in there
                let keep = self.caller.clone();
                self.caller.output = syn::ReturnType::Default;
                visit_mut::visit_expr_closure_mut(self, c);
                self.caller = keep;
                return;
            }
            Expr::ForLoop(f) => unfilter(f),
            Expr::Try(t) => {
                if let Some(x) = self.call(&t.expr, Mode::Try) {
                    *e = x;
                    return visit_mut::visit_expr_mut(self, e);
                }
            }
            Expr::Return(r) => {
                if let Some(x) = r.expr.as_ref().and_then(|x| self.call(x, Mode::Tail)) {
                    r.expr = Some(Box::new(x));
                }
            }
            Expr::Call(_) | Expr::MethodCall(_) => {
                if let Some(x) = self.call(e, Mode::Plain) {
                    *e = x;
                    return visit_mut::visit_expr_mut(self, e);
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// for P in E.filter(|x| C) { B }  ->  for P in E { if C { B } }
fn unfilter(f: &mut syn::ExprForLoop) {
    loop {
        let Expr::MethodCall(m) = &*f.expr else { return };
        if m.method != "filter" || m.args.len() != 1 { return; }
        let Expr::Closure(c) = &m.args[0] else { return };
        if c.inputs.len() != 1 { return; }
        // the closure is given a reference to the element
        let (Pat::Ident(i), Pat::Ident(p)) = (match &c.inputs[0] { Pat::Reference(r) => &*r.pat, x => x }, &*f.pat) else { return };
        let by_ref = !matches!(&c.inputs[0], Pat::Reference(_));
        let id = &p.ident;
        let arg: Expr = if by_ref { syn::parse_quote!((&#id)) } else { syn::parse_quote!(#id) };
        let mut cond = (*c.body).clone();
        let map = [(i.ident.to_string(), arg)];
        let mut sb = Subst { map: &map, failed: false };
        sb.visit_expr_mut(&mut cond);
        if sb.failed { return; }
        let body = &f.body;
        let src = (*m.receiver).clone();
        let nb: Block = syn::parse_quote!({ if #cond #body });
        f.body = nb;
        f.expr = Box::new(src);
    }
}

/// X.for_each(|P| B)  ->  for P in X { B }
struct Each;
impl VisitMut for Each {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        for s in b.stmts.iter_mut() {
            let Stmt::Expr(e, semi) = s else { continue };
            let Expr::MethodCall(m) = &*e else { continue };
            if m.method != "for_each" || m.args.len() != 1 { continue; }
            let Expr::Closure(c) = &m.args[0] else { continue };
            if c.inputs.len() != 1 || c.asyncness.is_some() { continue; }
            let pat = match &c.inputs[0] { Pat::Type(t) => &*t.pat, p => p };
            let all = idents_of(c.body.to_token_stream());
            if ["return", "break", "continue"].iter().any(|k| all.contains(*k)) { continue; }
            let (x, body) = (&m.receiver, &c.body);
            *e = match &**body {
                Expr::Block(eb) if eb.label.is_none() => { let k = &eb.block; syn::parse_quote!(for #pat in #x #k) }
                o => syn::parse_quote!(for #pat in #x { #o; }),
            };
            *semi = None;
        }
    }
}

fn marked(e: &Expr) -> bool {
    matches!(e, Expr::Block(b) if b.attrs.iter().any(|a| a.path().is_ident(MARK)))
}

struct Unmark;
impl VisitMut for Unmark {
    fn visit_expr_block_mut(&mut self, b: &mut syn::ExprBlock) {
        b.attrs.retain(|a| !a.path().is_ident(MARK));
        visit_mut::visit_expr_block_mut(self, b);
    }
}

/// X.append(&mut { let mut Y = <empty>; S; Y })  ->  { S with X for Y }
/// when S only adds to Y; so also `let mut d = { … }; X.append(&mut d);`
fn accumulated(st: &[Stmt], i: usize, later: &HashSet<String>) -> Option<Expr> {
    fn appended(s: &Stmt) -> Option<(&syn::Ident, &Expr)> {
        let Stmt::Expr(Expr::MethodCall(m), Some(_)) = s else { return None };
        if m.method != "append" || m.args.len() != 1 { return None; }
        let Expr::Path(x) = &*m.receiver else { return None };
        let Expr::Reference(r) = &m.args[0] else { return None };
        r.mutability?;
        Some((x.path.get_ident()?, &*r.expr))
    }
    let (x, blk) = match &st[i] {
        Stmt::Local(l) => {
            let Pat::Ident(d) = &l.pat else { return None };
            let init = l.init.as_ref()?;
            if !marked(&init.expr) { return None; }
            let (x, e) = appended(st.get(i + 1)?)?;
            let Expr::Path(p) = e else { return None };
            if p.path.get_ident()? != &d.ident || x == &d.ident { return None; }
            let rest: TokenStream = st[i + 2..].iter().map(|s| s.to_token_stream()).collect();
            if idents_of(rest).contains(&d.ident.to_string()) { return None; }
            (x, &*init.expr)
        }
        s => appended(s)?,
    };
    let _ = later;
    if !marked(blk) { return None; }
    let Expr::Block(eb) = blk else { return None };
    let v = &eb.block.stmts;
    if v.len() < 2 { return None; }
    let Stmt::Local(l) = &v[0] else { return None };
    let Pat::Ident(y) = (match &l.pat { Pat::Type(t) => &*t.pat, p => p }) else { return None };
    y.mutability?;
    let init = l.init.as_ref()?.expr.to_token_stream().to_string().replace(' ', "");
    if !["Changeset::new()", "Vec::new()", "vec![]"].contains(&init.as_str()) { return None; }
    match v.last()? {
        Stmt::Expr(Expr::Path(p), None) if p.path.get_ident() == Some(&y.ident) => {}
        _ => return None,
    }
    let mid: Vec<Stmt> = v[1..v.len() - 1].to_vec();
    let toks: TokenStream = mid.iter().map(|s| s.to_token_stream()).collect();
    let all = idents_of(toks.clone());
    if x != &y.ident && all.contains(&x.to_string()) { return None; }
    if all.contains("return") || toks.to_string().contains('?') { return None; }
    // S only adds to Y
    struct Adds<'a> { y: &'a syn::Ident, x: &'a syn::Ident, ok: bool }
    impl<'a> VisitMut for Adds<'a> {
        fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
            match &mut *m.receiver {
                Expr::Path(p) if p.path.get_ident() == Some(self.y) => {
                    if m.method != "push" && m.method != "append" && m.method != "extend" { self.ok = false; }
                    let x = self.x;
                    *m.receiver = syn::parse_quote!(#x);
                    for a in m.args.iter_mut() { self.visit_expr_mut(a); }
                }
                _ => visit_mut::visit_expr_method_call_mut(self, m),
            }
        }
        fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
            if p.path.get_ident() == Some(self.y) { self.ok = false; }
        }
        fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
            if &p.ident == self.y || &p.ident == self.x { self.ok = false; }
        }
        fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
            let v = idents_of(m.tokens.clone());
            if v.contains(&self.y.to_string()) || v.contains(&self.x.to_string()) { self.ok = false; }
        }
    }
    let mut a = Adds { y: &y.ident, x, ok: true };
    let mut blk = Block { brace_token: Default::default(), stmts: mid };
    // (renaming is safe even where the two names are the same)
    a.visit_block_mut(&mut blk);
    if !a.ok { return None; }
    Some(Expr::Block(syn::ExprBlock { attrs: vec![syn::parse_quote!(#[inl_block])], label: None, block: blk }))
}

/// the statements of an inlined helper take the place of the statement calling it,
/// where its local names mean nothing to the rest
fn flatten(b: &mut Block, _c: &mut Vec<String>) {
    struct F;
    impl VisitMut for F {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut i = 0;
            while i < b.stmts.len() {
                let rest: TokenStream = b.stmts[i + 1..].iter().map(|s| s.to_token_stream()).collect();
                let later = idents_of(rest);
                let last = i + 1 == b.stmts.len();
                let clash = |blk: &Block| {
                    let mut bd = Bound(HashSet::new());
                    for s in &blk.stmts { if let Stmt::Local(l) = s { bd.visit_pat(&l.pat); } }
                    bd.0.iter().any(|n| later.contains(n))
                };
                if let Some(e) = accumulated(&b.stmts, i, &later) {
                    if !matches!(&b.stmts[i], Stmt::Expr(..)) { b.stmts.remove(i + 1); }
                    b.stmts[i] = Stmt::Expr(e, Some(Default::default()));
                    continue;
                }
                match &mut b.stmts[i] {
                    Stmt::Local(l) => {
                        if let Some(init) = &mut l.init {
                            if marked(&init.expr) {
                                if let Expr::Block(eb) = &mut *init.expr {
                                    if !clash(&eb.block) && matches!(eb.block.stmts.last(), Some(Stmt::Expr(_, None))) {
                                        let Some(Stmt::Expr(t, None)) = eb.block.stmts.pop() else { unreachable!() };
                                        let pre = std::mem::take(&mut eb.block.stmts);
                                        init.expr = Box::new(t);
                                        let n = pre.len();
                                        b.stmts.splice(i..i, pre);
                                        i += n;
                                    }
                                }
                            }
                        }
                    }
                    Stmt::Expr(e, semi) if marked(e) => {
                        let semi = *semi;
                        if let Expr::Block(eb) = e {
                            if last || !clash(&eb.block) {
                                let mut st = std::mem::take(&mut eb.block.stmts);
                                if semi.is_some() || !last {
                                    if let Some(Stmt::Expr(_, s @ None)) = st.last_mut() { *s = Some(Default::default()); }
                                }
                                let n = st.len();
                                b.stmts.splice(i..=i, st);
                                i = (i + n).wrapping_sub(1);
                            }
                        }
                    }
                    _ => {}
                }
                i = i.wrapping_add(1);
            }
        }
    }
    F.visit_block_mut(b);
}
