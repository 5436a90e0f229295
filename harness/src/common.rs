//! Shared by all groups: random numbers, an abstract model of a snapshot that
//! is independent of the code under test, and conversions to and from it.
#![allow(dead_code)]
use std::collections::BTreeMap;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, k: usize) -> usize { if k == 0 { 0 } else { (self.next() % k as u64) as usize } }
    pub fn b(&mut self) -> bool { self.next() & 1 == 1 }
    /// true once in `k`
    pub fn one(&mut self, k: usize) -> bool { self.n(k) == 0 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.n(xs.len()); &xs[i] }
}

/// The outcome of one explored case.
pub enum Case {
    Ok,
    /// explored, but trivial (nothing to decide)
    Trivial,
    Bad(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Col { pub dt: String, pub nn: bool, pub df: Option<String> }
#[derive(Clone, Debug, PartialEq)]
pub enum Con {
    Pk { cols: Vec<String>, d: bool, i: bool },
    Uq { cols: Vec<String>, d: bool, i: bool },
    Ck { expr: String, d: bool, i: bool },
    Fk { cols: Vec<String>, ts: String, tt: String, tcols: Vec<String>, mo: String, ur: String, dr: String, d: bool, i: bool },
}
#[derive(Clone, Debug, PartialEq)]
pub struct Tab { pub order: Vec<String>, pub cols: BTreeMap<String, Col>, pub cons: BTreeMap<String, Con> }
#[derive(Clone, Debug, PartialEq)]
pub struct Seq { pub dt: String, pub inc: i64, pub min: i64, pub max: i64, pub start: i64, pub cache: i64, pub cycle: bool, pub ot: Option<String>, pub oc: Option<String> }
#[derive(Clone, Debug, PartialEq)]
pub struct Idx { pub table: String, pub unique: bool, pub method: String, pub keys: Vec<String> }
#[derive(Clone, Debug, PartialEq)]
pub struct Fun { pub body: String, pub lang: String, pub ret: String, pub vol: String }
#[derive(Clone, Debug, PartialEq)]
pub enum Rel { Tab(Tab), Vw(String), Ix(Idx), Sq(Seq) }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Sch { pub rels: BTreeMap<String, Rel>, pub funs: BTreeMap<String, Fun> }
pub type Db = BTreeMap<String, Sch>;

/// Column order is not part of the compared state.
pub fn norm(d: &Db) -> Db {
    let mut d = d.clone();
    for s in d.values_mut() { for r in s.rels.values_mut() { if let Rel::Tab(t) = r { t.order.clear(); } } }
    d
}
pub fn same(a: &Db, b: &Db) -> bool { norm(a) == norm(b) }

const NAMES: &[&str] = &["a", "b", "c", "B", "we\"ird", "x y", "ü", "'q'", "a.b", "select"];
#[path = "../gen/dict.rs"]
mod dict;
/// a text which occurs in the source, mostly one which did not occur there before
pub fn word(r: &mut Rng) -> String { if !dict::NEW_STRS.is_empty() && r.b() { r.pick(dict::NEW_STRS).to_string() } else { r.pick(dict::STRS).to_string() } }
pub fn int(r: &mut Rng) -> i64 {
    let i = if !dict::NEW_INTS.is_empty() && r.b() { *r.pick(dict::NEW_INTS) } else { *r.pick(dict::INTS) };
    let i = if r.one(3) { i.wrapping_add(*r.pick(&[1, -1])) } else { i };
    if r.one(3) { i.wrapping_neg() } else { i }
}
/// one of the usual texts, now and then one from the source which can stand as it is in a statement
pub fn of(r: &mut Rng, xs: &[&str]) -> String {
    if r.one(12) {
        let w = word(r);
        if w.chars().next().is_some_and(char::is_alphabetic) && w.chars().all(|c| c.is_alphanumeric() || c == '_') { return w; }
    }
    r.pick(xs).to_string()
}
pub fn num(r: &mut Rng, xs: &[i64]) -> i64 { if r.one(12) { int(r) } else { *r.pick(xs) } }
pub fn name(r: &mut Rng) -> String { if r.one(16) { word(r) } else if r.one(5) { r.pick(NAMES).to_string() } else { r.pick(&NAMES[..3]).to_string() } }
pub fn text(r: &mut Rng) -> String { of(r, &["x > 0", "y = 'a''b'", "1", "now()", "(a + \"b\")", "", "E'\\n'", "line1\nline2"]) }
pub fn names(r: &mut Rng) -> Vec<String> { let n = 1 + r.n(2); (0..n).map(|_| name(r)).collect() }
pub fn defer(r: &mut Rng) -> (bool, bool) { (r.b(), r.b()) }
pub fn gen_col(r: &mut Rng) -> Col {
    Col { dt: of(r, &["integer", "text", "numeric(10, 2)", "timestamp with time zone", "my.\"T\""]), nn: r.b(), df: if r.b() { Some(text(r)) } else { None } }
}
pub fn gen_con(r: &mut Rng) -> Con {
    let (d, i) = defer(r);
    match r.n(4) {
        0 => Con::Pk { cols: names(r), d, i },
        1 => Con::Uq { cols: names(r), d, i },
        2 => Con::Ck { expr: text(r), d, i },
        _ => Con::Fk {
            cols: names(r), ts: name(r), tt: name(r), tcols: names(r),
            mo: of(r, &["SIMPLE", "FULL", "PARTIAL"]),
            ur: of(r, &["NO ACTION", "RESTRICT", "CASCADE", "SET NULL", "SET DEFAULT"]),
            dr: of(r, &["NO ACTION", "RESTRICT", "CASCADE", "SET NULL", "SET DEFAULT"]), d, i,
        },
    }
}
pub fn gen_tab(r: &mut Rng) -> Tab {
    let mut t = Tab { order: vec![], cols: BTreeMap::new(), cons: BTreeMap::new() };
    for _ in 0..r.n(4) { let n = name(r); if !t.cols.contains_key(&n) { t.order.push(n.clone()); t.cols.insert(n, gen_col(r)); } }
    for _ in 0..r.n(4) { let n = name(r); let c = gen_con(r); t.cons.insert(n, c); }
    t
}
pub fn gen_seq(r: &mut Rng, owned: bool) -> Seq {
    let o = owned && r.b();
    Seq {
        dt: of(r, &["integer", "bigint", "smallint"]), inc: num(r, &[1, -1, 5]), min: num(r, &[1, -9, i64::MIN]),
        max: num(r, &[99, 2147483647, i64::MAX]), start: num(r, &[1, 7]), cache: num(r, &[1, 20]), cycle: r.b(),
        ot: if o { Some(name(r)) } else { None }, oc: if o { Some(name(r)) } else { None },
    }
}
pub fn gen_fun(r: &mut Rng) -> Fun {
    Fun {
        body: text(r), lang: of(r, &["sql", "plpgsql"]), ret: of(r, &["trigger", "void", "integer"]),
        vol: of(r, &["VOLATILE", "STABLE", "IMMUTABLE"]),
    }
}
pub fn gen_idx(r: &mut Rng, table: String) -> Idx {
    Idx { table, unique: r.b(), method: of(r, &["btree", "gin", "hash"]), keys: (0..1 + r.n(2)).map(|_| of(r, &["a", "b DESC", "lower(c)"])).collect() }
}
pub fn gen_sch(r: &mut Rng, owned: bool) -> Sch {
    let mut s = Sch::default();
    for _ in 0..r.n(5) {
        let n = name(r);
        let v = match r.n(6) { 0 => Rel::Vw(text(r)), 1 => Rel::Sq(gen_seq(r, owned)), _ => Rel::Tab(gen_tab(r)) };
        s.rels.insert(n, v);
    }
    add_idx(r, &mut s);
    for _ in 0..r.n(3) { let n = name(r); let f = gen_fun(r); s.funs.insert(n, f); }
    s
}
fn add_idx(r: &mut Rng, s: &mut Sch) {
    for _ in 0..r.n(3) {
        let tabs: Vec<String> = s.rels.iter().filter(|(_, v)| matches!(v, Rel::Tab(_))).map(|(k, _)| k.clone()).collect();
        if tabs.is_empty() { return; }
        let n = if r.b() { format!("ix_{}", r.n(3)) } else { name(r) };
        if matches!(s.rels.get(&n), None | Some(Rel::Ix(_))) { let t = r.pick(&tabs).clone(); let i = gen_idx(r, t); s.rels.insert(n, Rel::Ix(i)); }
    }
}
pub fn gen_db(r: &mut Rng, owned: bool) -> Db {
    let mut d = Db::new();
    for _ in 0..r.n(4) { let n = name(r); let s = gen_sch(r, owned); d.insert(n, s); }
    d
}
fn flip(b: &mut bool) { *b = !*b; }
fn oth(s: &mut String, r: &mut Rng) { if r.b() { s.push('z'); } else { *s = format!("{}{}", r.n(9), s); } }
fn vec_mut(v: &mut Vec<String>, r: &mut Rng) {
    match r.n(4) { 0 => v.push(name(r)), 1 => { if v.len() > 1 { v.pop(); } else { v.push(name(r)); } }, 2 => v.reverse(), _ => { let i = r.n(v.len()); oth(&mut v[i], r); } }
}
fn mut_con(c: &mut Con, r: &mut Rng) {
    if r.one(6) { *c = gen_con(r); return; }
    match c {
        Con::Pk { cols, d, i } | Con::Uq { cols, d, i } => match r.n(3) { 0 => vec_mut(cols, r), 1 => flip(d), _ => flip(i) },
        Con::Ck { expr, d, i } => match r.n(3) { 0 => oth(expr, r), 1 => flip(d), _ => flip(i) },
        Con::Fk { cols, ts, tt, tcols, mo, ur, dr, d, i } => match r.n(9) {
            0 => vec_mut(cols, r), 1 => oth(ts, r), 2 => oth(tt, r), 3 => vec_mut(tcols, r), 4 => oth(mo, r), 5 => oth(ur, r), 6 => oth(dr, r), 7 => flip(d), _ => flip(i),
        },
    }
}
fn mut_col(c: &mut Col, r: &mut Rng) {
    match r.n(4) { 0 => oth(&mut c.dt, r), 1 => flip(&mut c.nn), 2 => { c.df = if c.df.is_some() && r.b() { None } else { Some(text(r)) } } _ => *c = gen_col(r) }
}
fn key<V>(m: &BTreeMap<String, V>, r: &mut Rng) -> Option<String> { if m.is_empty() { None } else { let i = r.n(m.len()); m.keys().nth(i).cloned() } }
pub fn mut_tab(t: &mut Tab, r: &mut Rng) {
    match r.n(8) {
        0 => { let n = name(r); if !t.cols.contains_key(&n) { t.order.push(n.clone()); t.cols.insert(n, gen_col(r)); } }
        1 => { if let Some(k) = key(&t.cols, r) { t.cols.remove(&k); t.order.retain(|x| *x != k); } }
        2 | 3 => { if let Some(k) = key(&t.cols, r) { mut_col(t.cols.get_mut(&k).unwrap(), r); } }
        4 => { let n = name(r); let c = gen_con(r); t.cons.insert(n, c); }
        5 => { if let Some(k) = key(&t.cons, r) { t.cons.remove(&k); } }
        _ => { if let Some(k) = key(&t.cons, r) { mut_con(t.cons.get_mut(&k).unwrap(), r); } }
    }
}
/// a small random edit (kept well formed: an index keeps a table)
pub fn mutate(d: &mut Db, r: &mut Rng, owned: bool) {
    let k = match key(d, r) { Some(k) if !r.one(12) => k, _ => { if r.b() { let n = name(r); let s = gen_sch(r, owned); d.insert(n, s); } else if let Some(k) = key(d, r) { d.remove(&k); } return; } };
    let s = d.get_mut(&k).unwrap();
    match r.n(10) {
        0 => { if let Some(f) = key(&s.funs, r) { let f = s.funs.get_mut(&f).unwrap(); match r.n(4) { 0 => oth(&mut f.body, r), 1 => oth(&mut f.lang, r), 2 => oth(&mut f.ret, r), _ => oth(&mut f.vol, r) } } }
        1 => { let n = name(r); if s.funs.contains_key(&n) { s.funs.remove(&n); } else { let f = gen_fun(r); s.funs.insert(n, f); } }
        2 => { if let Some(n) = key(&s.rels, r) { s.rels.remove(&n); } }
        3 => { let n = name(r); let v = match r.n(3) { 0 => Rel::Vw(text(r)), 1 => Rel::Sq(gen_seq(r, owned)), _ => Rel::Tab(gen_tab(r)) }; s.rels.insert(n, v); }
        4 => add_idx(r, s),
        _ => { if let Some(n) = key(&s.rels, r) { match s.rels.get_mut(&n).unwrap() {
            Rel::Tab(t) => mut_tab(t, r),
            Rel::Vw(q) => oth(q, r),
            Rel::Ix(x) => match r.n(3) { 0 => flip(&mut x.unique), 1 => oth(&mut x.method, r), _ => vec_mut(&mut x.keys, r) },
            Rel::Sq(q) => match r.n(7) { 0 => oth(&mut q.dt, r), 1 => q.inc = q.inc.wrapping_add(1), 2 => q.min = q.min.wrapping_add(1), 3 => q.max = q.max.wrapping_sub(1), 4 => q.start = q.start.wrapping_add(1), 5 => q.cache = q.cache.wrapping_add(1), _ => flip(&mut q.cycle) },
        } } }
    }
    let tabs: Vec<String> = s.rels.iter().filter(|(_, v)| matches!(v, Rel::Tab(_))).map(|(k, _)| k.clone()).collect();
    s.rels.retain(|_, v| if let Rel::Ix(x) = v { tabs.contains(&x.table) } else { true });
}
