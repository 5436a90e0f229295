//! Explorers for definition files: an independent reading of them, and round trips.
use crate::definition::{load_snpashot, load_yaml_string, save_snapshot};
use crate::vcommon::*;
use crate::ventry::Prop;
use crate::vsnap::{model, real};
use serde_yaml::{Mapping, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;

// ---- an independent reading of definition files ------------------------------------
const KW: &[&str] = &[
    "as", "cache", "check", "column", "constraint", "cycle", "default", "deferrable", "foreign key", "function", "increment", "index", "initially deferred",
    "language", "match", "maxvalue", "method", "minvalue", "not null", "on", "on delete", "on update", "owned by", "primary key", "references", "returns",
    "schema", "sequence", "start", "table", "type", "unique", "using", "view", "volatility",
];
#[derive(Clone, Debug, PartialEq)]
enum V { B(bool), S(String), I(i64), F(f64), L(Vec<V>) }
#[derive(Clone, Debug, PartialEq)]
enum C { None, V(V), N(Vec<N>) }
#[derive(Clone, Debug, PartialEq)]
struct N { ty: &'static str, name: Option<String>, c: C }
type R<T> = Option<T>;

fn key(k: &str) -> R<(&'static str, Option<String>)> {
    let mut best: Option<&'static str> = None;
    for w in KW {
        let (kb, wb) = (k.as_bytes(), w.as_bytes());
        if kb.len() < wb.len() || !kb[..wb.len()].eq_ignore_ascii_case(wb) { continue; }
        match k[wb.len()..].chars().next() { Some(c) if !c.is_whitespace() => continue, _ => {} }
        if best.map_or(true, |b| b.len() < w.len()) { best = Some(w); }
    }
    let w = best?;
    let name = k[w.len()..].trim();
    Some((w, if name.is_empty() { None } else { Some(name.to_string()) }))
}
fn val(v: &Value) -> R<V> {
    Some(match v {
        Value::Bool(b) => V::B(*b),
        Value::String(s) => V::S(s.clone()),
        Value::Number(n) => if n.is_f64() { V::F(n.as_f64()?) } else { V::I(n.as_i64()?) },
        Value::Sequence(l) => V::L(l.iter().map(val).collect::<R<_>>()?),
        _ => return None,
    })
}
fn nodes(m: &Mapping) -> R<Vec<N>> {
    m.iter().map(|(k, v)| {
        let (ty, name) = key(k.as_str()?)?;
        Some(N { ty, name, c: match v { Value::Null => C::None, Value::Mapping(m) => C::N(nodes(m)?), v => C::V(val(v)?) } })
    }).collect()
}
impl N {
    fn kids(&self) -> R<Vec<N>> { match &self.c { C::None => Some(vec![]), C::N(n) => Some(n.clone()), _ => None } }
    fn s(&self) -> R<String> { match &self.c { C::V(V::S(s)) => Some(s.clone()), _ => None } }
    fn b(&self) -> R<bool> { match &self.c { C::V(V::B(b)) => Some(*b), _ => None } }
    fn i(&self) -> R<i64> { match &self.c { C::V(V::I(b)) => Some(*b), _ => None } }
    fn ss(&self) -> R<Vec<String>> {
        match &self.c { C::V(V::S(s)) => Some(vec![s.clone()]), C::V(V::L(l)) => l.iter().map(|v| if let V::S(s) = v { Some(s.clone()) } else { None }).collect(), _ => None }
    }
}
fn last<'a>(ns: &'a [N], t: &str) -> Option<&'a N> { ns.iter().rev().find(|n| n.ty == t) }
fn get<T>(ns: &[N], t: &str, f: fn(&N) -> R<T>, or: T) -> T { last(ns, t).and_then(f).unwrap_or(or) }
fn dis(n: &N) -> bool { matches!(n.ty, "deferrable" | "initially deferred") && n.b().is_some() }
fn reference(sn: &str, s: &str) -> R<(String, String)> {
    let p: Vec<&str> = s.split('.').collect();
    match p.len() { 1 => Some((sn.to_string(), p[0].to_string())), 2 => Some((p[0].to_string(), p[1].to_string())), _ => None }
}
fn con(sn: &str, n: &N) -> R<Con> {
    let ns = n.kids()?;
    n.name.as_ref()?;
    let kinds: Vec<&str> = ns.iter().map(|c| c.ty).filter(|t| ["primary key", "unique", "foreign key", "check"].contains(t)).collect();
    let k = *kinds.first()?;
    if kinds.iter().any(|t| *t != k) { return None; }
    let d = get(&ns, "deferrable", N::b, false);
    let i = get(&ns, "initially deferred", N::b, false);
    let at = last(&ns, k)?;
    let all = |f: &dyn Fn(&N) -> bool| ns.iter().all(|c| dis(c) || f(c));
    match k {
        "primary key" => if all(&|c| c.ty == k && c.ss().is_some()) { Some(Con::Pk { cols: at.ss()?, d, i }) } else { None },
        "unique" => if all(&|c| c.ty == k && c.ss().is_some()) && !at.ss()?.is_empty() { Some(Con::Uq { cols: at.ss()?, d, i }) } else { None },
        "check" => if all(&|c| c.ty == k && c.s().is_some()) { Some(Con::Ck { expr: at.s()?, d, i }) } else { None },
        _ => {
            let ok = all(&|c| match c.ty {
                "foreign key" => c.ss().is_some(),
                "references" => c.ss().is_some() && c.name.as_ref().is_some_and(|t| reference(sn, t).is_some()),
                "match" | "on update" | "on delete" => c.s().is_some(),
                _ => false,
            });
            let rf = last(&ns, "references")?;
            if !ok || rf.ss()?.is_empty() { return None; }
            let (ts, tt) = reference(sn, rf.name.as_ref()?)?;
            Some(Con::Fk { cols: at.ss()?, ts, tt, tcols: rf.ss()?, mo: get(&ns, "match", N::s, "SIMPLE".into()), ur: get(&ns, "on update", N::s, "NO ACTION".into()), dr: get(&ns, "on delete", N::s, "NO ACTION".into()), d, i })
        }
    }
}
/// TYPE [!] [= DEFAULT]
fn col(n: &N) -> R<Col> {
    n.name.as_ref()?;
    let s = n.s()?;
    let at = s.find(|c| c == '=' || c == '!').unwrap_or(s.len());
    if at == 0 { return None; }
    let dt = s[..at].trim().to_string();
    let mut rest = &s[at..];
    let nn = rest.starts_with('!');
    if nn { rest = &rest[1..]; if !rest.is_empty() { rest = rest.trim_start(); if rest.is_empty() { return None; } } }
    if rest.is_empty() { return Some(Col { dt, nn, df: None }); }
    let df = rest.strip_prefix('=')?;
    if df.is_empty() { return None; }
    Some(Col { dt, nn, df: Some(df.trim().to_string()) })
}
fn tab(sn: &str, n: &N) -> R<Tab> {
    let mut t = Tab { order: vec![], cols: BTreeMap::new(), cons: BTreeMap::new() };
    n.name.as_ref()?;
    for c in n.kids()? {
        let name = c.name.clone();
        match c.ty {
            "column" => { let x = col(&c)?; t.order.push(name.clone()?); if t.cols.insert(name?, x).is_some() { return None; } }
            "constraint" => { let x = con(sn, &c)?; if t.cons.insert(name?, x).is_some() { return None; } }
            _ => return None,
        }
    }
    Some(t)
}
fn seq(n: &N) -> R<Seq> {
    let ns = n.kids()?;
    if !ns.iter().all(|c| match c.ty { "as" => c.s().is_some(), "increment" | "minvalue" | "maxvalue" | "start" | "cache" => c.i().is_some(), "cycle" => c.b().is_some(), "owned by" => c.name.is_some() && c.s().is_some(), _ => false }) { return None; }
    let dt = get(&ns, "as", N::s, "int8".to_string());
    let inc = get(&ns, "increment", N::i, 1);
    let bits = match dt.as_str() { "int2" => Some(16), "int4" => Some(32), "int8" => Some(64), _ => None };
    let dmin = if inc >= 0 { Some(1) } else { bits.map(|b| (-(1i128 << (b - 1))) as i64) };
    let dmax = if inc < 0 { Some(-1) } else { bits.map(|b| ((1i128 << (b - 1)) - 1) as i64) };
    let min = last(&ns, "minvalue").and_then(N::i).or(dmin)?;
    let max = last(&ns, "maxvalue").and_then(N::i).or(dmax)?;
    let o = last(&ns, "owned by");
    Some(Seq { dt, inc, min, max, start: get(&ns, "start", N::i, if inc < 0 { max } else { min }), cache: get(&ns, "cache", N::i, 1), cycle: get(&ns, "cycle", N::b, false), ot: o.and_then(|o| o.name.clone()), oc: o.and_then(N::s) })
}
fn rel(sn: &str, n: &N) -> R<Rel> {
    n.name.as_ref()?;
    match n.ty {
        "table" => Some(Rel::Tab(tab(sn, n)?)),
        "view" => { let ns = n.kids()?; if ns.iter().all(|c| c.ty == "as" && c.s().is_some()) { Some(Rel::Vw(last(&ns, "as")?.s()?)) } else { None } }
        "sequence" => Some(Rel::Sq(seq(n)?)),
        "index" => {
            let ns = n.kids()?;
            if !ns.iter().all(|c| match c.ty { "unique" => c.b().is_some(), "using" => c.s().is_some(), "on" => c.name.is_some() && c.ss().is_some(), _ => false }) { return None; }
            let on = last(&ns, "on")?;
            Some(Rel::Ix(Idx { table: on.name.clone()?, unique: get(&ns, "unique", N::b, false), method: get(&ns, "using", N::s, "btree".into()), keys: on.ss()? }))
        }
        _ => None,
    }
}
fn fun(n: &N) -> R<Fun> {
    n.name.as_ref()?;
    let ns = n.kids()?;
    if !ns.iter().all(|c| matches!(c.ty, "as" | "language" | "returns" | "volatility") && c.s().is_some()) { return None; }
    Some(Fun { body: last(&ns, "as")?.s()?, lang: get(&ns, "language", N::s, "SQL".into()), ret: get(&ns, "returns", N::s, "void".into()), vol: get(&ns, "volatility", N::s, "VOLATILE".into()) })
}
fn db(ns: &[N]) -> R<Db> {
    let mut d = Db::new();
    for n in ns {
        let sn = n.name.as_ref()?;
        if n.ty != "schema" { return None; }
        let s = d.entry(sn.clone()).or_default();
        for c in n.kids()? {
            if c.ty == "function" { if s.funs.insert(c.name.clone()?, fun(&c)?).is_some() { return None; } }
            else if s.rels.insert(c.name.clone()?, rel(sn, &c)?).is_some() { return None; }
        }
    }
    Some(d)
}
fn read(text: &str) -> R<Db> { db(&nodes(&serde_yaml::from_str::<Mapping>(text).ok()?)?) }

// ---- definitions which can be written down ------------------------------------------
fn ident(r: &mut Rng) -> String {
    let s = if r.one(3) {
        r.pick(&["table", "ascii", "on", "delete x", "indexes", "view as", "Check", "primary key", "column a", "as", "ünïque", "schemas", "unique unique", "on update", "a: b", "- x", "#c", "x\ty", "'q'", "null", "true", "1", "~", "{a}", "*a", "&b", "!t", "%d", "@", "|", "é=!", "a\nb", "no", "1e3", "0x1f", "=", "<<"]).to_string()
    } else { name(r) };
    let s = s.trim().to_string();
    if s.is_empty() { "a".into() } else { s }
}
/// a schema reference cannot hold a dot, nor begin like another keyword
fn plain(r: &mut Rng, idx: bool) -> String {
    loop {
        let s = ident(r).replace('.', "_");
        let w = s.split(char::is_whitespace).next().unwrap_or("").to_ascii_lowercase();
        if !(idx && (w == "delete" || w == "update")) { return s; }
    }
}
fn ids(r: &mut Rng, least: usize) -> Vec<String> { let n = least + r.n(3); (0..n).map(|_| if r.one(8) { text(r) } else { ident(r) }).collect() }
fn word_or(r: &mut Rng, xs: &[&str]) -> String { if r.one(6) { any(r) } else { r.pick(xs).to_string() } }
fn any(r: &mut Rng) -> String { r.pick(&["", " ", "x", "a b", "true", "1", "null", "~", "a: b", "# no", "|", ">", "line 1\nline 2", "\n", "tail\n", "  lead", "trail  ", "ü€", "'", "\"", "\\n", "a\tb", "- a", "%", "@x", "\u{7f}", "\u{85}", "\u{feff}", "\u{1}", "a\r\nb", "0x10", "1_000", "08", "=", "!", "<<"]).to_string() }
fn s_con(r: &mut Rng) -> Con {
    let (d, i) = defer(r);
    match r.n(4) {
        0 => Con::Pk { cols: ids(r, 0), d, i },
        1 => Con::Uq { cols: ids(r, 1), d, i },
        2 => Con::Ck { expr: word_or(r, &["x > 0", "y = 'a''b'", "a\nor b"]), d, i },
        _ => Con::Fk { cols: ids(r, 0), ts: plain(r, false), tt: plain(r, false), tcols: ids(r, 1), mo: word_or(r, &["SIMPLE", "FULL", "simple"]), ur: word_or(r, &["NO ACTION", "CASCADE", "SET NULL", "no action"]), dr: word_or(r, &["NO ACTION", "CASCADE", "SET DEFAULT", "RESTRICT"]), d, i },
    }
}
fn s_col(r: &mut Rng) -> Col {
    let dt = word_or(r, &["text", "integer", "numeric(10, 2)", "timestamp with time zone", "my.\"T\""]).replace(['=', '!'], "");
    let dt = dt.trim().to_string();
    Col { dt: if dt.is_empty() { "t".into() } else { dt }, nn: r.b(), df: if r.b() { Some(word_or(r, &["now()", "'a = b'", "1", "'!'", "E'\\n'", "'a\nb'"]).trim().to_string()) } else { None } }
}
fn s_rel(r: &mut Rng, sn: &str) -> Rel {
    match r.n(8) {
        0 => { let q = word_or(r, &["select 1", "select *\nfrom t\n"]); Rel::Vw(if q.is_empty() { "q".into() } else { q }) }
        1 | 2 => Rel::Ix(Idx { table: plain(r, true), unique: r.b(), method: word_or(r, &["btree", "gin", "BTREE"]), keys: ids(r, 0) }),
        3 | 4 => {
            let o = r.b();
            let i = |r: &mut Rng, xs: &[i64]| if r.one(6) { r.next() as i64 } else { num(r, xs) };
            let inc = i(r, &[1, 1, -1, 0, 5, -7]);
            let (min, max) = (i(r, &[1, 1, i64::MIN, -32768, -2147483648, -1]), i(r, &[-1, 32767, 2147483647, i64::MAX, i64::MAX]));
            Rel::Sq(Seq { dt: word_or(r, &["int8", "int8", "int4", "int2", "bigint", "INT8"]), inc, min, max, start: if r.b() { if inc < 0 { max } else { min } } else { i(r, &[1, -1, 7]) }, cache: i(r, &[1, 1, 20]), cycle: r.b(), ot: if o { Some(ident(r)) } else { None }, oc: if o { Some(word_or(r, &["id", "a b"])) } else { None } })
        }
        _ => {
            let mut t = Tab { order: vec![], cols: BTreeMap::new(), cons: BTreeMap::new() };
            for _ in 0..r.n(4) { let n = ident(r); if !t.cols.contains_key(&n) { t.order.push(n.clone()); t.cols.insert(n, s_col(r)); } }
            for _ in 0..r.n(4) { let n = ident(r); let mut c = s_con(r); if let Con::Fk { ts, .. } = &mut c { if r.b() && !sn.contains('.') { *ts = sn.to_string(); } } t.cons.insert(n, c); }
            Rel::Tab(t)
        }
    }
}
fn s_fun(r: &mut Rng) -> Fun { Fun { body: word_or(r, &["select 1", "begin\n  return;\nend"]), lang: word_or(r, &["SQL", "plpgsql", "sql"]), ret: word_or(r, &["void", "trigger", "VOID"]), vol: word_or(r, &["VOLATILE", "STABLE", "IMMUTABLE"]) } }
fn s_db(r: &mut Rng) -> Db {
    let mut d = Db::new();
    for _ in 0..r.n(4) {
        let sn = ident(r);
        let mut s = Sch::default();
        for _ in 0..r.n(5) { let n = ident(r); let v = s_rel(r, &sn); s.rels.insert(n, v); }
        for _ in 0..r.n(3) { let n = ident(r); let f = s_fun(r); s.funs.insert(n, f); }
        d.insert(sn, s);
    }
    d
}

// ---- writing definitions in many ways ------------------------------------------------
fn k(r: &mut Rng, odd: usize, ty: &str, name: Option<&str>) -> String {
    let mut s = ty.to_string();
    if r.one(odd) { s = match r.n(3) { 0 => s.to_uppercase(), 1 => { let mut c = s.chars(); c.next().unwrap().to_uppercase().chain(c).collect() } _ => s.chars().map(|c| if r.b() { c.to_ascii_uppercase() } else { c }).collect() }; }
    if let Some(n) = name {
        s += if r.one(odd) { *r.pick(&["  ", "\t", "\n", "\u{a0}", " \u{2003}", "\u{85}"]) } else { " " };
        s += n;
    }
    if r.one(odd) { s += *r.pick(&[" ", "  ", "\t", "\n", "\u{3000}"]); }
    s
}
fn list(r: &mut Rng, v: &[String]) -> Value { if v.len() == 1 && r.b() { Value::from(v[0].clone()) } else { Value::Sequence(v.iter().map(|s| Value::from(s.clone())).collect()) } }
struct W<'a> { r: &'a mut Rng, odd: usize, m: Vec<(String, Value)> }
impl<'a> W<'a> {
    fn new(r: &'a mut Rng, odd: usize) -> W<'a> { W { r, odd, m: vec![] } }
    fn put(&mut self, ty: &str, name: Option<&str>, v: Value) { let key = k(self.r, self.odd, ty, name); self.m.push((key, v)); }
    /// an attribute which may be left out when it has its default
    fn opt(&mut self, ty: &str, v: Value, default: Value) { if v != default || self.r.one(3) { self.put(ty, None, v); } }
    fn done(mut self, ordered: bool) -> Value {
        if !ordered { for i in (1..self.m.len()).rev() { let j = self.r.n(i + 1); self.m.swap(i, j); } }
        if self.m.is_empty() && self.r.b() { return Value::Null; }
        Value::Mapping(self.m.into_iter().map(|(k, v)| (Value::from(k), v)).collect())
    }
}
fn w_con(r: &mut Rng, odd: usize, sn: &str, c: &Con) -> Value {
    let (d, i) = match c { Con::Pk { d, i, .. } | Con::Uq { d, i, .. } | Con::Ck { d, i, .. } | Con::Fk { d, i, .. } => (*d, *i) };
    let mut w = W::new(r, odd);
    w.opt("deferrable", d.into(), false.into());
    w.opt("initially deferred", i.into(), false.into());
    match c {
        Con::Pk { cols, .. } => { let l = list(w.r, cols); w.put("primary key", None, l) }
        Con::Uq { cols, .. } => { let l = list(w.r, cols); w.put("unique", None, l) }
        Con::Ck { expr, .. } => w.put("check", None, expr.clone().into()),
        Con::Fk { cols, ts, tt, tcols, mo, ur, dr, .. } => {
            let l = list(w.r, cols); w.put("foreign key", None, l);
            let t = if ts == sn && w.r.b() { tt.clone() } else { format!("{}.{}", ts, tt) };
            let l = list(w.r, tcols); w.put("references", Some(&t), l);
            w.opt("match", mo.clone().into(), "SIMPLE".into());
            w.opt("on update", ur.clone().into(), "NO ACTION".into());
            w.opt("on delete", dr.clone().into(), "NO ACTION".into());
        }
    }
    w.done(false)
}
fn w_col(r: &mut Rng, c: &Col) -> Value {
    let sp = |r: &mut Rng| r.pick(&["", " ", "  ", "\t"]).to_string();
    let mut s = if r.one(4) { sp(r) } else { "".into() } + &c.dt;
    if c.nn { s += &(sp(r) + "!"); }
    if let Some(d) = &c.df { s += &(sp(r) + "=" + &sp(r) + d); if d.is_empty() { s.push(' '); } }
    s.into()
}
fn w_rel(r: &mut Rng, odd: usize, sn: &str, v: &Rel) -> (&'static str, Value) {
    match v {
        Rel::Tab(t) => {
            let mut w = W::new(r, odd);
            for c in &t.order { let x = w_col(w.r, &t.cols[c]); w.put("column", Some(c), x); }
            for (n, c) in &t.cons { let x = w_con(w.r, odd, sn, c); w.put("constraint", Some(n), x); }
            ("table", w.done(true))
        }
        Rel::Vw(q) => { let mut w = W::new(r, odd); w.put("as", None, q.clone().into()); ("view", w.done(false)) }
        Rel::Ix(x) => {
            let mut w = W::new(r, odd);
            w.opt("unique", x.unique.into(), false.into());
            w.opt("using", x.method.clone().into(), "btree".into());
            let l = list(w.r, &x.keys); w.put("on", Some(&x.table), l);
            ("index", w.done(false))
        }
        Rel::Sq(q) => {
            let mut w = W::new(r, odd);
            let bits = match q.dt.as_str() { "int2" => Some(16), "int4" => Some(32), "int8" => Some(64), _ => None };
            let up = q.inc >= 0;
            w.opt("as", q.dt.clone().into(), "int8".into());
            w.opt("increment", q.inc.into(), 1.into());
            w.opt("minvalue", q.min.into(), if up { 1.into() } else { bits.map_or(Value::Null, |b| ((-(1i128 << (b - 1))) as i64).into()) });
            w.opt("maxvalue", q.max.into(), if !up { (-1).into() } else { bits.map_or(Value::Null, |b| (((1i128 << (b - 1)) - 1) as i64).into()) });
            w.opt("start", q.start.into(), if up { q.min } else { q.max }.into());
            w.opt("cache", q.cache.into(), 1.into());
            w.opt("cycle", q.cycle.into(), false.into());
            if let (Some(t), Some(c)) = (&q.ot, &q.oc) { w.put("owned by", Some(t), c.clone().into()); }
            ("sequence", w.done(false))
        }
    }
}
fn w_db(r: &mut Rng, odd: usize, d: &Db) -> Value {
    let mut w = W::new(r, odd);
    for (sn, s) in d {
        let mut x = W::new(w.r, odd);
        for (n, v) in &s.rels { let (t, v) = w_rel(x.r, odd, sn, v); x.put(t, Some(n), v); }
        for (n, f) in &s.funs {
            let mut y = W::new(x.r, odd);
            y.put("as", None, f.body.clone().into());
            y.opt("language", f.lang.clone().into(), "SQL".into());
            y.opt("returns", f.ret.clone().into(), "void".into());
            y.opt("volatility", f.vol.clone().into(), "VOLATILE".into());
            let v = y.done(false);
            x.put("function", Some(n), v);
        }
        let v = x.done(false);
        w.put("schema", Some(sn), v);
    }
    match w.done(false) { Value::Null => Value::Mapping(Mapping::new()), v => v }
}
fn odd_value(r: &mut Rng) -> Value {
    match r.n(12) {
        0 => Value::Null, 1 => r.b().into(), 2 => any(r).into(), 3 => (r.next() as i64).into(), 4 => 1.5.into(), 5 => Value::Sequence(vec![]), 6 => Value::Mapping(Mapping::new()),
        7 => (u64::MAX - r.n(3) as u64).into(), 8 => Value::Sequence(vec!["a".into(), odd_value(r)]), 9 => { let mut m = Mapping::new(); m.insert("as".into(), odd_value(r)); Value::Mapping(m) }
        10 => Value::Tagged(Box::new(serde_yaml::value::TaggedValue { tag: serde_yaml::value::Tag::new("t"), value: 1.into() })), _ => int(r).into(),
    }
}
fn odd_key(r: &mut Rng, old: &Value) -> Value {
    let s = old.as_str().unwrap_or("").to_string();
    match r.n(8) {
        0 => r.pick(KW).to_string().into(),
        1 => { let w = r.pick(KW).to_string(); let n = ident(r); k(r, 2, &w, Some(&n)).into() }
        2 => { let n = any(r); n.into() }
        3 => odd_value(r),
        4 => { let mut c: Vec<char> = s.chars().collect(); if !c.is_empty() { let i = r.n(c.len()); c.remove(i); } c.into_iter().collect::<String>().into() }
        5 => { let mut c: Vec<char> = s.chars().collect(); let i = r.n(c.len() + 1); c.insert(i, *r.pick(&[' ', 'x', 'ü', '.', '\u{a0}', 'K'])); c.into_iter().collect::<String>().into() }
        6 => (word(r) + " x").into(),
        _ => { let w = s.split(' ').next().unwrap_or("").to_string(); w.into() }
    }
}
/// (some values cannot be written)
fn yaml(v: &Value) -> Option<String> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| serde_yaml::to_string(v).ok())).ok()? }
/// changes one place of a document
fn corrupt(r: &mut Rng, v: &mut Value, depth: usize) {
    match v {
        Value::Mapping(m) if !m.is_empty() && !r.one(8 - depth.min(6)) => {
            let i = r.n(m.len());
            let (key, mut x) = m.iter().nth(i).map(|(a, b)| (a.clone(), b.clone())).unwrap();
            match r.n(9) {
                0 => { m.remove(&key); }
                1 | 2 => { let n = odd_key(r, &key); let mut o = Mapping::new(); for (a, b) in m.iter() { o.insert(if *a == key { n.clone() } else { a.clone() }, b.clone()); } *m = o; }
                3 => { let s = key.as_str().unwrap_or("x"); let n = if r.b() { s.to_uppercase() } else { format!("{} ", s) }; if r.b() { x = odd_value(r); } m.insert(n.into(), x); }
                4 => { let n = odd_key(r, &key); let x = odd_value(r); m.insert(n, x); }
                _ => { corrupt(r, &mut x, depth + 1); m.insert(key, x); }
            }
        }
        Value::Sequence(l) if !l.is_empty() && r.b() => { let i = r.n(l.len()); corrupt(r, &mut l[i], depth + 1); }
        v => *v = odd_value(r),
    }
}

struct Dir(PathBuf);
impl Dir { fn new() -> Dir { let p = PathBuf::from(std::env::var("VH_SCRATCH").expect("VH_SCRATCH")).join("case"); let _ = std::fs::remove_dir_all(&p); std::fs::create_dir_all(&p).unwrap(); Dir(p) } }
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

// ---- the properties -------------------------------------------------------------------
/// what is saved is loaded again
fn c05(r: &mut Rng, _k: u64) -> (String, Case) {
    let want = s_db(r);
    let dir = Dir::new();
    // the schemas over several files, the objects of a schema too
    let mut parts: Vec<Db> = vec![];
    match r.n(3) {
        0 => parts.push(want.clone()),
        1 => for (n, s) in &want { parts.push([(n.clone(), s.clone())].into_iter().collect()); },
        _ => {
            let mut two = [Db::new(), Db::new()];
            for (n, s) in &want {
                for x in &mut two { x.insert(n.clone(), Sch::default()); }
                for (k, v) in &s.rels { let i = r.n(2); two[i].get_mut(n).unwrap().rels.insert(k.clone(), v.clone()); }
                for (k, v) in &s.funs { let i = r.n(2); two[i].get_mut(n).unwrap().funs.insert(k.clone(), v.clone()); }
            }
            parts.extend(two);
        }
    }
    let mut d = format!("{:?}", want);
    std::fs::create_dir_all(dir.0.join("sub.yaml/deep")).unwrap();
    std::fs::write(dir.0.join("notes.txt"), "- not: a definition").unwrap();
    std::fs::write(dir.0.join("sub.yaml/x.yml"), "nor this").unwrap();
    for (i, p) in parts.iter().enumerate() {
        let f = dir.0.join(["a.yaml", "sub.yaml/b.yaml", "sub.yaml/deep/c.d.yaml", "e.yaml"][i % 4]);
        let x = real(p, r);
        if let Err(e) = save_snapshot(&f, &x) { return (d, Case::Bad(format!("not saved: {}", e))); }
        if model(&x) != *p { return (d, Case::Bad("saving changed the snapshot".into())); }
        let text = std::fs::read_to_string(&f).unwrap();
        d += &format!("\n--- {}\n{}", f.display(), text);
        match load_yaml_string(&text) {
            Err(e) => return (d, Case::Bad(format!("what was saved is not read: {}", e))),
            Ok(y) => if model(&y) != *p { return (d, Case::Bad(format!("read back: {:?}\nsaved: {:?}", model(&y), p))); }
        }
    }
    match load_snpashot(&dir.0) {
        Err(e) => (d, Case::Bad(format!("the directory is not read: {}", e))),
        Ok(y) if model(&y) != want => (d, Case::Bad(format!("read from the directory: {:?}", model(&y)))),
        Ok(_) => (d, if want.values().all(|s| s.rels.is_empty() && s.funs.is_empty()) { Case::Trivial } else { Case::Ok }),
    }
}
fn compare(text: String) -> (String, Case) {
    let want = read(&text);
    let got = load_yaml_string(&text);
    match (want, got) {
        (None, Err(_)) => (text, Case::Ok),
        (Some(w), Ok(g)) => { let g = model(&g); if g == w { (text, Case::Ok) } else { (text, Case::Bad(format!("read as {:?}\nmeant {:?}", g, w))) } }
        (Some(w), Err(e)) => (text, Case::Bad(format!("not accepted: {}\nmeant {:?}", e, w))),
        (None, Ok(g)) => (text, Case::Bad(format!("accepted, although it is not a definition, as {:?}", model(&g)))),
    }
}
/// keys of all shapes
fn c06(r: &mut Rng, _k: u64) -> (String, Case) {
    let d = s_db(r);
    let v = w_db(r, 2, &d);
    let mut v = v;
    if r.one(3) { corrupt(r, &mut v, 0); }
    match yaml(&v) { Some(t) => compare(t), None => (String::new(), Case::Trivial) }
}
/// the documented defaults, and errors for anything which is not a definition
fn c08(r: &mut Rng, _k: u64) -> (String, Case) {
    let d = s_db(r);
    let mut v = w_db(r, 20, &d);
    if r.b() { for _ in 0..1 + r.n(2) { corrupt(r, &mut v, 0); } }
    else {
        let t = match yaml(&v) { Some(t) => t, None => return (String::new(), Case::Trivial) };
        return match load_yaml_string(&t) {
            Err(e) => (t, Case::Bad(format!("not accepted: {}", e))),
            Ok(g) => { let g = model(&g); if g == d { (t, Case::Ok) } else { (t, Case::Bad(format!("read as {:?}\nmeant {:?}", g, d))) } }
        };
    }
    match yaml(&v) { Some(t) => compare(t), None => (String::new(), Case::Trivial) }
}
/// any text at all
fn c07(r: &mut Rng, _k: u64) -> (String, Case) {
    let mut v = { let d = s_db(r); w_db(r, 6, &d) };
    for _ in 0..r.n(4) { corrupt(r, &mut v, 0); }
    let mut t = match yaml(&v) { Some(t) => t, None => return (String::new(), Case::Trivial) };
    if r.b() {
        let mut c: Vec<char> = t.chars().collect();
        for _ in 0..1 + r.n(4) {
            let i = r.n(c.len() + 1);
            match r.n(5) {
                0 => { c.truncate(i); }
                1 => { if i < c.len() { c.remove(i); } }
                2 => { if i < c.len() { c[i] = *r.pick(&[':', '-', ' ', '\n', '?', '!', '&', '*', '{', '[', '\'', '"', '\u{0}', 'ü', '1', '.', '=']); } }
                3 => { let w = r.pick(&["? ", ": ", "&a ", "*a", "!!int ", "!x ", "<<: *a\n", "---\n", "...\n", "\t", "{a: b}", "[1, {c: d}]", "1e400", "~", "\"\\uD800\"", "schema: {}\n", "- \n"]); for (j, x) in w.chars().enumerate() { c.insert(i + j, x); } }
                _ => { let w = word(r); for (j, x) in w.chars().enumerate() { c.insert(i + j, x); } }
            }
        }
        t = c.into_iter().collect();
    }
    let (t, x) = compare(t);
    // what is read is the business of the other properties: here only that reading returns
    if let Ok(g) = load_yaml_string(&t) { model(&g); }
    let _ = x;
    (t, Case::Ok)
}
pub fn find(id: &str) -> Option<Prop> {
    Some(match id {
        "C05" => Prop { run: c05, fixed: 0, rule: "random storable snapshots saved to one or several files and loaded again, singly and as a directory, column order included; non-trivial when there is an object", known: Some(known_c05) },
        "C06" => Prop { run: c06, fixed: 0, rule: "random definition documents with keys in odd case and spacing and names which begin like keywords, a third of them changed in one place; against an independent reader", known: None },
        "C07" => Prop { run: c07, fixed: 0, rule: "random definition documents with up to four places replaced, half of them damaged as text too; reading them must return", known: None },
        "C08" => Prop { run: c08, fixed: 0, rule: "random definitions with attributes left out or written although default, half of them with one or two places changed; against an independent reader", known: None },
        _ => return None,
    })
}
fn known_c05() -> Vec<(String, Option<String>)> {
    let mut r = Rng::new(1);
    let mut back = |d: Db| -> bool {
        let dir = Dir::new();
        let f = dir.0.join("a.yaml");
        let x = real(&d, &mut r);
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { save_snapshot(&f, &x).ok()?; load_yaml_string(&std::fs::read_to_string(&f).ok()?).ok() })) { Ok(Some(y)) => model(&y) == d, _ => false }
    };
    let one = |rel: Rel| -> Db { let mut s = Sch::default(); s.rels.insert("x".into(), rel); [("s".to_string(), s)].into_iter().collect() };
    let tab = |c: Con| Rel::Tab(Tab { order: vec![], cols: BTreeMap::new(), cons: [("c".to_string(), c)].into_iter().collect() });
    let col = |dt: &str| Rel::Tab(Tab { order: vec!["c".into()], cols: [("c".to_string(), Col { dt: dt.into(), nn: false, df: None })].into_iter().collect(), cons: BTreeMap::new() });
    let fk = |ts: &str, tt: &str| Con::Fk { cols: vec!["a".into()], ts: ts.into(), tt: tt.into(), tcols: vec!["b".into()], mo: "SIMPLE".into(), ur: "NO ACTION".into(), dr: "NO ACTION".into(), d: false, i: false };
    let mut out = vec![];
    let mut say = |id: &str, d: Db, what: &str| out.push((id.to_string(), if back(d) { None } else { Some(what.to_string()) }));
    say("dotted-reference", one(tab(fk("s", "t.u"))), "a foreign key to a table whose name contains a dot is written so that it reads back as another reference, or not at all");
    say("index-on-delete", one(Rel::Ix(Idx { table: "delete".into(), unique: false, method: "btree".into(), keys: vec!["a".into()] })), "an index on a table named delete or update is written as the keyword \"on delete\" or \"on update\" and not read back");
    say("type-with-mark", one(col("t=")), "a column type containing = or ! is read back cut at that character");
    out
}
