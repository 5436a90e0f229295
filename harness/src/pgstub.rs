//! A stand-in for a PostgreSQL server on the loopback: speaks the wire protocol,
//! keeps the rows of a version table per database, records every other statement,
//! and commits or rolls back like the real one.
#![allow(dead_code)]
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Val { Null, S(String), A(Vec<String>), I(i32), L(i64), H(i16), HS(Vec<i16>), B(bool) }
impl Val {
    fn cmp(&self, o: &Val) -> Option<std::cmp::Ordering> {
        match (self, o) {
            (Val::S(a), Val::S(b)) => Some(a.cmp(b)),
            (Val::I(a), Val::I(b)) => Some(a.cmp(b)),
            (Val::I(a), Val::L(b)) => Some((*a as i64).cmp(b)),
            (Val::L(a), Val::I(b)) => Some(a.cmp(&(*b as i64))),
            (Val::L(a), Val::L(b)) => Some(a.cmp(b)),
            (Val::B(a), Val::B(b)) => Some(a.cmp(b)),
            _ => None,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct VRow { pub name: String, pub previous: Option<String>, pub changes: String, pub up: Vec<String>, pub down: Vec<String>, pub order: i32 }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Dbs { pub schemas: BTreeSet<String>, pub tables: BTreeMap<String, Vec<VRow>>, pub serial: i32, pub log: Vec<String> }
/// rows handed out for a query on the system catalogs; the schema is in column `schema`
pub struct Canned { pub kind: &'static str, pub cols: Vec<(&'static str, u32)>, pub schema: usize, pub rows: Vec<Vec<Val>>, pub reject: bool }
#[derive(Default)]
pub struct World { pub dbs: HashMap<String, Dbs>, pub odd: Vec<String>, pub connections: u64, pub commits: u64, pub canned: Vec<Canned>, pub canned_seen: Vec<&'static str>, pub canned_db: Option<String> }
pub type Shared = Arc<Mutex<World>>;

pub fn serve() -> (u16, Shared) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let w: Shared = Arc::new(Mutex::new(World::default()));
    let w2 = w.clone();
    std::thread::spawn(move || { for s in l.incoming() { if let Ok(s) = s { let w = w2.clone(); std::thread::spawn(move || { let _ = session(s, w); }); } } });
    (port, w)
}

// ---- SQL ------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
enum Tok { Id(String), Quoted(String), Str(String), Num(i64), Par(usize), Op(String) }
fn lex(s: &str) -> Option<Vec<Tok>> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() { i += 1; }
        else if x == '-' && c.get(i + 1) == Some(&'-') { while i < c.len() && c[i] != '\n' { i += 1; } }
        else if x == '/' && c.get(i + 1) == Some(&'*') { i += 2; while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') { i += 1; } i += 2; }
        else if x.is_alphabetic() || x == '_' { let b = i; while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '$') { i += 1; } out.push(Tok::Id(c[b..i].iter().collect::<String>().to_lowercase())); }
        else if x == '"' || x == '\'' {
            let mut v = String::new();
            i += 1;
            loop {
                if i >= c.len() { return None; }
                if c[i] == x { if c.get(i + 1) == Some(&x) { v.push(x); i += 2; continue; } i += 1; break; }
                v.push(c[i]); i += 1;
            }
            out.push(if x == '"' { Tok::Quoted(v) } else { Tok::Str(v) });
        }
        else if x == '$' && c.get(i + 1).map_or(false, |d| d.is_ascii_digit()) { i += 1; let b = i; while i < c.len() && c[i].is_ascii_digit() { i += 1; } out.push(Tok::Par(c[b..i].iter().collect::<String>().parse().ok()?)); }
        else if x.is_ascii_digit() { let b = i; while i < c.len() && c[i].is_ascii_digit() { i += 1; } out.push(Tok::Num(c[b..i].iter().collect::<String>().parse().ok()?)); }
        else {
            let two: String = c[i..(i + 2).min(c.len())].iter().collect();
            if ["::", "<=", ">=", "<>", "!="].contains(&two.as_str()) { out.push(Tok::Op(two)); i += 2; } else { out.push(Tok::Op(x.to_string())); i += 1; }
        }
    }
    Some(out)
}
#[derive(Clone, Debug)]
enum Ex { Col(String), Par(usize), Lit(Val), Bin(String, Box<Ex>, Box<Ex>), Not(Box<Ex>), IsNull(Box<Ex>, bool), Exists(Box<Sel>), Fun(String, Option<Box<Ex>>), Default }
#[derive(Clone, Debug)]
struct Sel { cols: Vec<(Ex, Option<u32>)>, star: bool, from: Option<(String, String)>, cond: Option<Ex>, order: Vec<(Ex, bool)>, limit: Option<i64> }
#[derive(Clone, Debug)]
enum St { CreateSchema(String, bool), CreateTable(String, String, bool), Insert(String, String, Vec<String>, Vec<Vec<Ex>>), Delete(String, String, Option<Ex>), Select(Sel), Bad }
struct P { t: Vec<Tok>, i: usize, bad: bool }
impl P {
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn kw(&mut self, k: &str) -> bool { if self.peek() == Some(&Tok::Id(k.into())) { self.i += 1; true } else { false } }
    fn op(&mut self, k: &str) -> bool { if self.peek() == Some(&Tok::Op(k.into())) { self.i += 1; true } else { false } }
    fn need(&mut self, k: &str) -> Option<()> { if self.kw(k) || self.op(k) { Some(()) } else { None } }
    fn ident(&mut self) -> Option<String> { match self.peek().cloned() { Some(Tok::Id(s)) | Some(Tok::Quoted(s)) => { self.i += 1; Some(s) } _ => None } }
    fn qual(&mut self) -> Option<(String, String)> { let a = self.ident()?; if self.op(".") { let b = self.ident()?; Some((a, b)) } else { Some((String::new(), a)) } }
    /// the name of a table; two names in a row followed by a dot are a syntax error for sure
    fn table(&mut self) -> Option<(String, String)> {
        let q = self.qual()?;
        if matches!(self.peek(), Some(Tok::Id(_)) | Some(Tok::Quoted(_)) | Some(Tok::Str(_))) && self.t.get(self.i + 1) == Some(&Tok::Op(".".into())) { self.bad = true; }
        Some(q)
    }
    fn ine(&mut self) -> bool { let b = self.i; if self.kw("if") && self.kw("not") && self.kw("exists") { true } else { self.i = b; false } }
    fn stmt(&mut self) -> Option<St> {
        let s = if self.kw("create") {
            if self.kw("schema") { let n = self.ine(); St::CreateSchema(self.ident()?, n) }
            else {
                self.need("table")?;
                let n = self.ine();
                let (s, t) = self.table()?;
                if self.peek() != Some(&Tok::Op("(".into())) { return None; }
                // the columns are taken as the ones of a version table
                let mut depth = 0;
                while let Some(x) = self.peek().cloned() { self.i += 1; if x == Tok::Op("(".into()) { depth += 1 } else if x == Tok::Op(")".into()) { depth -= 1; if depth == 0 { break; } } }
                St::CreateTable(s, t, n)
            }
        } else if self.kw("insert") {
            self.need("into")?;
            let (s, t) = self.table()?;
            self.need("(")?;
            let mut cols = vec![];
            loop { cols.push(self.ident()?); if !self.op(",") { break; } }
            self.need(")")?;
            self.need("values")?;
            let mut rows = vec![];
            loop {
                self.need("(")?;
                let mut r = vec![];
                loop { r.push(if self.kw("default") { Ex::Default } else { self.expr()?.0 }); if !self.op(",") { break; } }
                self.need(")")?;
                rows.push(r);
                if !self.op(",") { break; }
            }
            St::Insert(s, t, cols, rows)
        } else if self.kw("delete") {
            self.need("from")?;
            let (s, t) = self.table()?;
            let c = if self.kw("where") { Some(self.expr()?.0) } else { None };
            St::Delete(s, t, c)
        } else { St::Select(self.select()?) };
        self.op(";");
        if self.i == self.t.len() { Some(s) } else { None }
    }
    fn select(&mut self) -> Option<Sel> {
        self.need("select")?;
        let mut s = Sel { cols: vec![], star: false, from: None, cond: None, order: vec![], limit: None };
        loop {
            if self.op("*") { s.star = true; } else {
                let e = self.expr()?;
                if self.kw("as") { self.ident()?; } else if let Some(Tok::Id(k)) = self.peek() { if !["from", "where", "order", "limit"].contains(&k.as_str()) { self.i += 1; } }
                s.cols.push(e);
            }
            if !self.op(",") { break; }
        }
        if self.kw("from") {
            s.from = Some(self.table()?);
            self.kw("as");
            if let Some(Tok::Id(k)) = self.peek() { if !["where", "order", "limit"].contains(&k.as_str()) { self.i += 1; } }
        }
        if self.kw("where") { s.cond = Some(self.expr()?.0); }
        if self.kw("order") {
            self.need("by")?;
            loop { let e = self.expr()?.0; let d = self.kw("desc"); if !d { self.kw("asc"); } s.order.push((e, d)); if !self.op(",") { break; } }
        }
        if self.kw("limit") { match self.peek().cloned() { Some(Tok::Num(n)) => { self.i += 1; s.limit = Some(n); } _ => return None } }
        Some(s)
    }
    fn expr(&mut self) -> Option<(Ex, Option<u32>)> { let mut a = self.and()?; while self.kw("or") { let b = self.and()?; a = (Ex::Bin("or".into(), Box::new(a.0), Box::new(b.0)), None); } Some(a) }
    fn and(&mut self) -> Option<(Ex, Option<u32>)> { let mut a = self.not()?; while self.kw("and") { let b = self.not()?; a = (Ex::Bin("and".into(), Box::new(a.0), Box::new(b.0)), None); } Some(a) }
    fn not(&mut self) -> Option<(Ex, Option<u32>)> { if self.kw("not") { let a = self.not()?; Some((Ex::Not(Box::new(a.0)), None)) } else { self.cmp() } }
    fn cmp(&mut self) -> Option<(Ex, Option<u32>)> {
        let a = self.prim()?;
        for o in ["<=", ">=", "<>", "!=", "=", "<", ">"] { if self.op(o) { let b = self.prim()?; return Some((Ex::Bin(o.into(), Box::new(a.0), Box::new(b.0)), None)); } }
        if self.kw("is") { let n = self.kw("not"); self.need("null")?; return Some((Ex::IsNull(Box::new(a.0), n), None)); }
        let neg = { let b = self.i; if self.kw("not") { if self.peek() == Some(&Tok::Id("between".into())) { true } else { self.i = b; false } } else { false } };
        if self.kw("between") {
            let lo = self.prim()?.0;
            self.need("and")?;
            let hi = self.prim()?.0;
            let e = Ex::Bin("and".into(), Box::new(Ex::Bin(">=".into(), Box::new(a.0.clone()), Box::new(lo))), Box::new(Ex::Bin("<=".into(), Box::new(a.0), Box::new(hi))));
            return Some((if neg { Ex::Not(Box::new(e)) } else { e }, None));
        }
        Some(a)
    }
    fn prim(&mut self) -> Option<(Ex, Option<u32>)> {
        let mut e = match self.peek().cloned()? {
            Tok::Par(n) => { self.i += 1; Ex::Par(n) }
            Tok::Num(n) => { self.i += 1; Ex::Lit(Val::I(n as i32)) }
            Tok::Str(s) => { self.i += 1; Ex::Lit(Val::S(s)) }
            Tok::Op(o) if o == "(" => { self.i += 1; let e = self.expr()?.0; self.need(")")?; e }
            Tok::Id(k) if k == "null" => { self.i += 1; Ex::Lit(Val::Null) }
            Tok::Id(k) if k == "true" || k == "false" => { self.i += 1; Ex::Lit(Val::B(k == "true")) }
            Tok::Id(k) if k == "exists" => { self.i += 1; self.need("(")?; let s = self.select()?; self.need(")")?; Ex::Exists(Box::new(s)) }
            Tok::Id(k) if ["count", "max", "min"].contains(&k.as_str()) && self.t.get(self.i + 1) == Some(&Tok::Op("(".into())) => {
                self.i += 2;
                let a = if self.op("*") { None } else { Some(Box::new(self.expr()?.0)) };
                self.need(")")?;
                Ex::Fun(k, a)
            }
            Tok::Id(_) | Tok::Quoted(_) => { let (_, c) = self.qual()?; Ex::Col(c) }
            _ => return None,
        };
        let mut ty = None;
        while self.op("::") { let t = self.ident()?; let arr = self.op("[") && { self.op("]") }; ty = match (t.as_str(), arr) { ("text", true) => Some(1009), ("text", _) => Some(25), ("int4", _) | ("integer", _) | ("int", _) => Some(23), ("bigint", _) | ("int8", _) => Some(20), ("json", _) | ("jsonb", _) => ty, ("varchar", _) => Some(1043), ("name", _) => Some(19), ("bool", _) | ("boolean", _) => Some(16), _ => return None }; if let Ex::Par(_) = e { if let Some(t) = ty { e = Ex::Fun(format!("cast{}", t), Some(Box::new(e))); } } }
        Some((e, ty))
    }
}
fn col_type(c: &str) -> Option<u32> {
    Some(match c { "name" | "previous" => 1043, "changes" => 114, "up" | "down" => 1009, "applied_order" => 23, "applied_at" => 1114, "nspname" => 19, "schema_name" | "table_schema" | "table_name" => 19, _ => return None })
}
fn types(e: &Ex, t: &mut BTreeMap<usize, u32>) {
    match e {
        Ex::Bin(o, a, b) => {
            if o != "and" && o != "or" {
                if let (Ex::Par(n), Ex::Col(c)) | (Ex::Col(c), Ex::Par(n)) = (&**a, &**b) { if let Some(x) = col_type(c) { t.entry(*n).or_insert(x); } }
            }
            types(a, t); types(b, t);
        }
        Ex::Fun(f, Some(a)) => { if let (Some(ty), Ex::Par(n)) = (f.strip_prefix("cast"), &**a) { t.insert(*n, ty.parse().unwrap()); } types(a, t); }
        Ex::Not(a) | Ex::IsNull(a, _) => types(a, t),
        Ex::Exists(s) => stypes(s, t),
        Ex::Par(n) => { t.entry(*n).or_insert(25); }
        _ => {}
    }
}
fn stypes(s: &Sel, t: &mut BTreeMap<usize, u32>) { for c in &s.cols { types(&c.0, t); } if let Some(c) = &s.cond { types(c, t); } }
fn ety(e: &Ex) -> u32 { match e { Ex::Col(c) => col_type(c).unwrap_or(25), Ex::Exists(_) | Ex::Not(_) | Ex::Bin(..) | Ex::IsNull(..) => 16, Ex::Fun(f, _) if f == "count" => 20, Ex::Fun(_, Some(a)) => ety(a), Ex::Lit(Val::I(_)) => 23, Ex::Lit(Val::B(_)) => 16, _ => 25 } }

/// one row of whatever table is looked at
type Env = BTreeMap<String, Val>;
fn vrow(r: &VRow) -> Env {
    let mut e = Env::new();
    e.insert("name".into(), Val::S(r.name.clone()));
    e.insert("previous".into(), r.previous.clone().map_or(Val::Null, Val::S));
    e.insert("changes".into(), Val::S(r.changes.clone()));
    e.insert("up".into(), Val::A(r.up.clone()));
    e.insert("down".into(), Val::A(r.down.clone()));
    e.insert("applied_order".into(), Val::I(r.order));
    e.insert("applied_at".into(), Val::Null);
    e
}
fn table(d: &Dbs, q: &(String, String)) -> Result<Vec<Env>, String> {
    match (q.0.as_str(), q.1.as_str()) {
        ("pg_catalog", "pg_namespace") | ("", "pg_namespace") => Ok(d.schemas.iter().map(|s| [("nspname".to_string(), Val::S(s.clone()))].into_iter().collect()).collect()),
        ("information_schema", "schemata") => Ok(d.schemas.iter().map(|s| [("schema_name".to_string(), Val::S(s.clone()))].into_iter().collect()).collect()),
        ("information_schema", "tables") => Ok(d.tables.keys().map(|s| { let (a, b) = s.split_once('\0').unwrap(); [("table_schema".to_string(), Val::S(a.into())), ("table_name".to_string(), Val::S(b.into()))].into_iter().collect() }).collect()),
        _ => match d.tables.get(&format!("{}\0{}", q.0, q.1)) { Some(t) => Ok(t.iter().map(vrow).collect()), None => Err(format!("relation \"{}.{}\" does not exist", q.0, q.1)) },
    }
}
fn eval(e: &Ex, r: &Env, ps: &[Val], d: &Dbs) -> Result<Val, String> {
    Ok(match e {
        Ex::Col(c) => r.get(c).cloned().ok_or_else(|| format!("column \"{}\" does not exist", c))?,
        Ex::Par(n) => ps.get(*n - 1).cloned().ok_or("no such parameter")?,
        Ex::Lit(v) => v.clone(),
        Ex::Fun(f, Some(a)) if f.starts_with("cast") => eval(a, r, ps, d)?,
        Ex::Exists(s) => Val::B(!select(s, ps, d)?.is_empty()),
        Ex::Not(a) => match eval(a, r, ps, d)? { Val::B(b) => Val::B(!b), _ => Val::Null },
        Ex::IsNull(a, n) => Val::B((eval(a, r, ps, d)? == Val::Null) != *n),
        Ex::Bin(o, a, b) => {
            let (x, y) = (eval(a, r, ps, d)?, eval(b, r, ps, d)?);
            match o.as_str() {
                "and" => match (x, y) { (Val::B(false), _) | (_, Val::B(false)) => Val::B(false), (Val::B(true), Val::B(true)) => Val::B(true), _ => Val::Null },
                "or" => match (x, y) { (Val::B(true), _) | (_, Val::B(true)) => Val::B(true), (Val::B(false), Val::B(false)) => Val::B(false), _ => Val::Null },
                _ => match x.cmp(&y) {
                    None => Val::Null,
                    Some(c) => Val::B(match o.as_str() { "=" => c.is_eq(), "<>" | "!=" => c.is_ne(), "<" => c.is_lt(), "<=" => c.is_le(), ">" => c.is_gt(), _ => c.is_ge() }),
                },
            }
        }
        _ => return Err("unsupported expression".into()),
    })
}
fn select(s: &Sel, ps: &[Val], d: &Dbs) -> Result<Vec<Vec<Val>>, String> {
    let rows = match &s.from { Some(q) => table(d, q)?, None => vec![Env::new()] };
    let mut kept = vec![];
    for r in rows { let k = match &s.cond { Some(c) => eval(c, &r, ps, d)? == Val::B(true), None => true }; if k { kept.push(r); } }
    if let Some((Ex::Fun(f, a), _)) = s.cols.first() {
        if !f.starts_with("cast") {
            if f == "count" { return Ok(vec![vec![Val::L(kept.len() as i64)]]); }
            let mut best = Val::Null;
            for r in &kept { let v = eval(a.as_ref().unwrap(), r, ps, d)?; if best == Val::Null || v.cmp(&best).map_or(false, |c| if f == "max" { c.is_gt() } else { c.is_lt() }) { best = v; } }
            return Ok(vec![vec![best]]);
        }
    }
    let mut keyed = vec![];
    for r in kept { let mut k = vec![]; for (e, _) in &s.order { k.push(eval(e, &r, ps, d)?); } keyed.push((k, r)); }
    keyed.sort_by(|a, b| { for (i, (_, desc)) in s.order.iter().enumerate() { if let Some(c) = a.0[i].cmp(&b.0[i]) { if c.is_ne() { return if *desc { c.reverse() } else { c }; } } } std::cmp::Ordering::Equal });
    if let Some(n) = s.limit { keyed.truncate(n as usize); }
    let mut out = vec![];
    for (_, r) in keyed { let mut o = vec![]; if s.star { o.extend(r.values().cloned()); } for (e, _) in &s.cols { o.push(eval(e, &r, ps, d)?); } out.push(o); }
    Ok(out)
}
fn exec(st: &St, ps: &[Val], d: &mut Dbs) -> Result<Vec<Vec<Val>>, String> {
    match st {
        St::CreateSchema(s, ine) => { if !d.schemas.insert(s.clone()) && !ine { return Err(format!("schema \"{}\" already exists", s)); } }
        St::CreateTable(s, t, ine) => {
            let k = format!("{}\0{}", s, t);
            if !d.schemas.contains(s) { return Err(format!("schema \"{}\" does not exist", s)); }
            if d.tables.contains_key(&k) { if !ine { return Err("relation already exists".into()); } } else { d.tables.insert(k, vec![]); }
        }
        St::Insert(s, t, cols, rows) => {
            for r in rows {
                if r.len() != cols.len() { return Err("INSERT has a wrong number of expressions".into()); }
                let mut v = VRow::default();
                let mut given = BTreeSet::new();
                for (c, e) in cols.iter().zip(r) {
                    if let Ex::Default = e { continue; }
                    let x = eval(e, &Env::new(), ps, d)?;
                    given.insert(c.clone());
                    match (c.as_str(), x) {
                        ("name", Val::S(s)) => v.name = s,
                        ("previous", Val::S(s)) => v.previous = Some(s),
                        ("previous", Val::Null) => {}
                        ("changes", Val::S(s)) => v.changes = s,
                        ("up", Val::A(a)) => v.up = a,
                        ("down", Val::A(a)) => v.down = a,
                        ("applied_order", Val::I(i)) => v.order = i,
                        (c, x) => return Err(format!("column \"{}\" cannot hold {:?}", c, x)),
                    }
                }
                for c in ["name", "changes", "up", "down"] { if !given.contains(c) { return Err(format!("null value in column \"{}\"", c)); } }
                if !given.contains("applied_order") { d.serial += 1; v.order = d.serial; }
                let t = d.tables.get_mut(&format!("{}\0{}", s, t)).ok_or("relation does not exist")?;
                if t.iter().any(|x| x.name == v.name) { return Err("duplicate key value violates unique constraint".into()); }
                if let Some(p) = &v.previous { if *p != v.name && !t.iter().any(|x| x.name == *p) { return Err("insert violates foreign key constraint".into()); } }
                t.push(v);
            }
        }
        St::Bad => return Err("syntax error".into()),
        St::Delete(s, t, c) => {
            let k = format!("{}\0{}", s, t);
            let rows = d.tables.get(&k).ok_or("relation does not exist")?.clone();
            let mut keep = vec![];
            for r in rows { let x = match c { Some(c) => eval(c, &vrow(&r), ps, d)? == Val::B(true), None => true }; if !x { keep.push(r); } }
            for r in &keep { if let Some(p) = &r.previous { if !keep.iter().any(|x| x.name == *p) { return Err("delete violates foreign key constraint".into()); } } }
            d.tables.insert(k, keep);
        }
        St::Select(s) => return select(s, ps, d),
    }
    Ok(vec![])
}

// ---- the wire -----------------------------------------------------------------------------
/// Canned: which one, its columns in the order of the select list, whether it takes schemas
enum Prep { Sql(St, Vec<u32>, Vec<(String, u32)>), User(String), Canned(usize, Vec<usize>, bool), Ignored }
/// what a query on the system catalogs lists
fn catalog_kind(low: &str) -> &'static str {
    let flat: String = low.split_whitespace().collect();
    for (m, k) in [("pg_index", "index"), ("pg_sequence", "sequence"), ("pg_proc", "function"), ("pg_get_viewdef", "view"), ("contype='p'", "pk"), ("contype='u'", "uq"), ("contype='c'", "check"), ("contype='f'", "fk"), ("pg_attribute", "column"), ("pg_class", "table")] {
        if flat.contains(m) { return k; }
    }
    "schema"
}
/// the names of the columns a query answers with
fn select_aliases(sql: &str) -> Option<Vec<String>> {
    let (mut depth, mut started) = (0, false);
    let mut last: Option<String> = None;
    let mut out = vec![];
    for t in lex(sql)? {
        match t {
            Tok::Op(o) if o == "(" => depth += 1,
            Tok::Op(o) if o == ")" => depth -= 1,
            _ if depth > 0 => {}
            Tok::Id(w) if !started => started = w == "select",
            Tok::Id(w) if w == "from" => { out.push(last?); return Some(out); }
            Tok::Id(w) | Tok::Quoted(w) => last = Some(w),
            Tok::Op(o) if o == "," => out.push(last.take()?),
            _ => last = None,
        }
    }
    None
}
struct Out(Vec<u8>);
impl Out {
    fn msg(&mut self, t: u8, body: &[u8]) { self.0.push(t); self.0.extend(((body.len() + 4) as i32).to_be_bytes()); self.0.extend(body); }
    fn ready(&mut self, s: u8) { self.msg(b'Z', &[s]); }
    fn err(&mut self, m: &str) {
        let mut b = vec![];
        for (c, v) in [(b'S', "ERROR"), (b'V', "ERROR"), (b'C', "XX000"), (b'M', m)] { b.push(c); b.extend(v.as_bytes()); b.push(0); }
        b.push(0);
        self.msg(b'E', &b);
    }
    fn rowdesc(&mut self, cols: &[(String, u32)]) {
        let mut b = (cols.len() as i16).to_be_bytes().to_vec();
        for (n, t) in cols { b.extend(n.as_bytes()); b.push(0); b.extend(0i32.to_be_bytes()); b.extend(0i16.to_be_bytes()); b.extend((*t as i32).to_be_bytes()); b.extend((-1i16).to_be_bytes()); b.extend((-1i32).to_be_bytes()); b.extend(1i16.to_be_bytes()); }
        self.msg(b'T', &b);
    }
}
fn enc(v: &Val, ty: u32) -> Option<Vec<u8>> {
    Some(match v {
        Val::Null => return None,
        Val::S(s) => s.as_bytes().to_vec(),
        Val::I(i) => if ty == 20 { (*i as i64).to_be_bytes().to_vec() } else { i.to_be_bytes().to_vec() },
        Val::H(i) => i.to_be_bytes().to_vec(),
        Val::HS(a) => {
            let mut o = vec![];
            for x in [if a.is_empty() { 0 } else { 1i32 }, 0, 21] { o.extend(x.to_be_bytes()); }
            if !a.is_empty() { o.extend((a.len() as i32).to_be_bytes()); o.extend(1i32.to_be_bytes()); }
            for x in a { o.extend(2i32.to_be_bytes()); o.extend(x.to_be_bytes()); }
            o
        }
        Val::L(i) => if ty == 23 { (*i as i32).to_be_bytes().to_vec() } else { i.to_be_bytes().to_vec() },
        Val::B(b) => vec![*b as u8],
        Val::A(a) => {
            let elem: i32 = match ty { 1015 => 1043, 1003 => 19, _ => 25 };
            let mut o = vec![];
            if a.is_empty() { o.extend(0i32.to_be_bytes()); o.extend(0i32.to_be_bytes()); o.extend(elem.to_be_bytes()); return Some(o); }
            o.extend(1i32.to_be_bytes()); o.extend(0i32.to_be_bytes()); o.extend(elem.to_be_bytes());
            o.extend((a.len() as i32).to_be_bytes()); o.extend(1i32.to_be_bytes());
            for s in a { o.extend((s.len() as i32).to_be_bytes()); o.extend(s.as_bytes()); }
            o
        }
    })
}
fn be32(b: &[u8], i: &mut usize) -> i32 { let v = i32::from_be_bytes(b[*i..*i + 4].try_into().unwrap()); *i += 4; v }
fn be16(b: &[u8], i: &mut usize) -> i16 { let v = i16::from_be_bytes(b[*i..*i + 2].try_into().unwrap()); *i += 2; v }
fn cstr(b: &[u8], i: &mut usize) -> String { let s = *i; while b[*i] != 0 { *i += 1; } let r = String::from_utf8_lossy(&b[s..*i]).into_owned(); *i += 1; r }
fn dec(b: &[u8], ty: u32) -> Val {
    match ty {
        23 => Val::I(i32::from_be_bytes(b.try_into().unwrap())),
        20 => Val::L(i64::from_be_bytes(b.try_into().unwrap())),
        16 => Val::B(b[0] != 0),
        1009 | 1015 | 1003 => {
            let mut i = 0;
            let nd = be32(b, &mut i);
            be32(b, &mut i); be32(b, &mut i);
            if nd == 0 { return Val::A(vec![]); }
            let n = be32(b, &mut i);
            be32(b, &mut i);
            Val::A((0..n).map(|_| { let l = be32(b, &mut i) as usize; let s = String::from_utf8_lossy(&b[i..i + l]).into_owned(); i += l; s }).collect())
        }
        _ => Val::S(String::from_utf8_lossy(b).into_owned()),
    }
}
pub const MARK: &str = "/*u*/";
fn classify(sql: &str, w: &mut World) -> Prep {
    if sql.contains(MARK) { return Prep::User(sql.to_string()); }
    let low = sql.to_lowercase();
    if !w.canned.is_empty() {
        let kind = catalog_kind(&low);
        w.canned_seen.push(kind);
        return match w.canned.iter().position(|c| c.kind == kind) {
            Some(i) => {
                let c = &w.canned[i];
                let all: Vec<usize> = (0..c.cols.len()).collect();
                let o = match select_aliases(sql) {
                    Some(a) => { let o: Option<Vec<usize>> = a.iter().map(|n| c.cols.iter().position(|x| x.0 == n)).collect(); match o { Some(o) if !o.is_empty() => o, _ => all } }
                    None => all,
                };
                Prep::Canned(i, o, low.contains("$1"))
            }
            None => Prep::Ignored,
        };
    }
    let st = match lex(sql) { Some(t) => { let mut p = P { t, i: 0, bad: false }; let st = p.stmt(); if p.bad { Some(St::Bad) } else { st } } None => Some(St::Bad) };
    match st {
        Some(st) => {
            let mut t = BTreeMap::new();
            let mut cols = vec![];
            match &st {
                St::Insert(_, _, cs, rows) => for r in rows { for (c, e) in cs.iter().zip(r) { match e { Ex::Par(n) => { t.insert(*n, match col_type(c).unwrap_or(25) { 114 => 25, x => x }); } e => types(e, &mut t) } } },
                St::Delete(_, _, Some(c)) => types(c, &mut t),
                St::Select(s) => {
                    stypes(s, &mut t);
                    if s.star { for c in vrow(&VRow::default()).keys() { cols.push((c.clone(), col_type(c).unwrap_or(25))); } }
                    for (e, ty) in &s.cols { cols.push((if let Ex::Col(c) = e { c.clone() } else { "x".into() }, ty.unwrap_or_else(|| ety(e)))); }
                }
                _ => {}
            }
            let n = t.keys().last().cloned().unwrap_or(0);
            Prep::Sql(st, (1..=n).map(|i| *t.get(&i).unwrap_or(&25)).collect(), cols)
        }
        None => {
            let first = low.split_whitespace().next().unwrap_or("").to_string();
            if !["set", "lock", "show", "reset", "savepoint", "release"].contains(&first.as_str()) { w.odd.push(sql.to_string()); }
            Prep::Ignored
        }
    }
}
fn session(mut s: TcpStream, w: Shared) -> std::io::Result<()> {
    s.set_nodelay(true)?;
    let mut hdr = [0u8; 4];
    let db;
    loop {
        s.read_exact(&mut hdr)?;
        let mut b = vec![0u8; i32::from_be_bytes(hdr) as usize - 4];
        s.read_exact(&mut b)?;
        let mut i = 0;
        let v = be32(&b, &mut i);
        if v == 80877103 || v == 80877104 { s.write_all(b"N")?; continue; }
        let mut m = HashMap::new();
        while i < b.len() && b[i] != 0 { let k = cstr(&b, &mut i); let v = cstr(&b, &mut i); m.insert(k, v); }
        db = m.get("database").or(m.get("user")).cloned().unwrap_or_default();
        break;
    }
    w.lock().unwrap().connections += 1;
    let mut o = Out(vec![]);
    o.msg(b'R', &0i32.to_be_bytes());
    o.msg(b'S', b"server_version\x0015.0\0");
    o.msg(b'S', b"client_encoding\0UTF8\0");
    o.msg(b'K', &[0; 8]);
    o.ready(b'I');
    s.write_all(&o.0)?;
    o.0.clear();
    let mut preps: HashMap<String, Prep> = HashMap::new();
    let mut portals: HashMap<String, (String, Vec<Val>)> = HashMap::new();
    let mut tx: Option<Dbs> = None; // state of the open transaction
    let mut aborted = false;
    let mut skip = false; // until Sync after an error
    loop {
        let mut t = [0u8; 1];
        s.read_exact(&mut t)?;
        s.read_exact(&mut hdr)?;
        let mut b = vec![0u8; i32::from_be_bytes(hdr) as usize - 4];
        s.read_exact(&mut b)?;
        let mut i = 0;
        let status = |tx: &Option<Dbs>, ab: bool| if tx.is_none() { b'I' } else if ab { b'E' } else { b'T' };
        match t[0] {
            b'X' => return Ok(()),
            b'S' => { skip = false; let st = status(&tx, aborted); o.ready(st); }
            b'H' => {}
            b'Q' => {
                let q = cstr(&b, &mut i);
                let low = q.trim().trim_end_matches(';').to_lowercase();
                let mut g = w.lock().unwrap();
                if low.starts_with("begin") || low.starts_with("start transaction") { tx = Some(g.dbs.entry(db.clone()).or_default().clone()); aborted = false; o.msg(b'C', b"BEGIN\0"); }
                else if low == "commit" {
                    if let Some(d) = tx.take() { if aborted { o.msg(b'C', b"ROLLBACK\0"); } else { g.dbs.insert(db.clone(), d); g.commits += 1; o.msg(b'C', b"COMMIT\0"); } } else { o.msg(b'C', b"COMMIT\0"); }
                    aborted = false;
                }
                else if low == "rollback" { tx = None; aborted = false; o.msg(b'C', b"ROLLBACK\0"); }
                else if aborted { o.err("current transaction is aborted"); }
                else {
                    let p = classify(&q, &mut g);
                    let auto = tx.is_none();
                    let mut d = match tx.take() { Some(d) => d, None => g.dbs.entry(db.clone()).or_default().clone() };
                    let r = match &p { Prep::User(x) => user(x, &mut d), Prep::Sql(st, ..) => exec(st, &[], &mut d).map(|_| ()), _ => Ok(()) };
                    match r {
                        Ok(()) => { o.msg(b'C', b"OK 0\0"); if auto { g.dbs.insert(db.clone(), d); } else { tx = Some(d); } }
                        Err(m) => { o.err(&m); if !auto { tx = Some(d); aborted = true; } }
                    }
                }
                drop(g);
                let st = status(&tx, aborted);
                o.ready(st);
            }
            _ if skip => {}
            b'P' => {
                let name = cstr(&b, &mut i);
                let q = cstr(&b, &mut i);
                if aborted { o.err("current transaction is aborted"); skip = true; }
                else { let p = classify(&q, &mut w.lock().unwrap()); preps.insert(name, p); o.msg(b'1', &[]); }
            }
            b'D' => {
                let kind = b[0];
                i = 1;
                let name = cstr(&b, &mut i);
                let name = if kind == b'P' { portals.get(&name).map(|x| x.0.clone()).unwrap_or_default() } else { name };
                let g = w.lock().unwrap();
                let (ps, cols): (Vec<u32>, Vec<(String, u32)>) = match preps.get(&name) {
                    Some(Prep::Sql(_, p, c)) => (p.clone(), c.clone()),
                    Some(Prep::Canned(k, order, param)) => (if *param { vec![1003] } else { vec![] }, order.iter().map(|i| { let (n, t) = g.canned[*k].cols[*i]; (n.to_string(), t) }).collect()),
                    _ => (vec![], vec![]),
                };
                if kind == b'S' { let mut x = (ps.len() as i16).to_be_bytes().to_vec(); for p in &ps { x.extend((*p as i32).to_be_bytes()); } o.msg(b't', &x); }
                if cols.is_empty() { o.msg(b'n', &[]); } else { o.rowdesc(&cols); }
            }
            b'B' => {
                let portal = cstr(&b, &mut i);
                let name = cstr(&b, &mut i);
                let nf = be16(&b, &mut i);
                for _ in 0..nf { be16(&b, &mut i); }
                let np = be16(&b, &mut i);
                let tys: Vec<u32> = match preps.get(&name) { Some(Prep::Sql(_, p, _)) => p.clone(), Some(Prep::Canned(..)) => vec![1003], _ => vec![] };
                let mut vals = vec![];
                for k in 0..np as usize { let l = be32(&b, &mut i); if l < 0 { vals.push(Val::Null); } else { vals.push(dec(&b[i..i + l as usize], *tys.get(k).unwrap_or(&25))); i += l as usize; } }
                portals.insert(portal, (name, vals));
                o.msg(b'2', &[]);
            }
            b'E' => {
                let portal = cstr(&b, &mut i);
                let (name, vals) = portals.get(&portal).cloned().unwrap_or_default();
                let mut g = w.lock().unwrap();
                let auto = tx.is_none(); // outside a transaction every statement commits
                let mut d = match tx.take() { Some(d) => d, None => g.dbs.entry(db.clone()).or_default().clone() };
                let r = if aborted { Err("current transaction is aborted".to_string()) } else { match preps.get(&name) {
                    Some(Prep::User(q)) => user(q, &mut d).map(|_| vec![]),
                    Some(Prep::Sql(st, ..)) => exec(st, &vals, &mut d),
                    Some(Prep::Canned(k, order, _)) => {
                        let c = &g.canned[*k];
                        if c.reject { Err("the query is rejected".to_string()) } else {
                            // only the schemas asked for
                            let keep = |r: &&Vec<Val>| match (vals.first(), &r[c.schema]) { (Some(Val::A(ss)), Val::S(s)) => ss.contains(s), _ => true };
                            let here = g.canned_db.as_ref().map_or(true, |x| *x == db);
                            Ok(c.rows.iter().filter(keep).filter(|_| here).map(|r| order.iter().map(|i| r[*i].clone()).collect()).collect())
                        }
                    }
                    _ => Ok(vec![]),
                } };
                match r {
                    Ok(rows) => {
                        if auto { g.dbs.insert(db.clone(), d); } else { tx = Some(d); }
                        let tys: Vec<u32> = match preps.get(&name) { Some(Prep::Sql(_, _, c)) => c.iter().map(|x| x.1).collect(), Some(Prep::Canned(k, order, _)) => order.iter().map(|i| g.canned[*k].cols[*i].1).collect(), _ => vec![] };
                        for r in &rows {
                            let mut x = (r.len() as i16).to_be_bytes().to_vec();
                            for (v, ty) in r.iter().zip(&tys) { match enc(v, *ty) { None => x.extend((-1i32).to_be_bytes()), Some(e) => { x.extend((e.len() as i32).to_be_bytes()); x.extend(e); } } }
                            o.msg(b'D', &x);
                        }
                        o.msg(b'C', format!("SELECT {}\0", rows.len()).as_bytes());
                    }
                    Err(m) => { o.err(&m); skip = true; if !auto { aborted = true; tx = Some(d); } }
                }
            }
            b'C' => { o.msg(b'3', &[]); }
            _ => {}
        }
        if matches!(t[0], b'S' | b'H' | b'Q') { s.write_all(&o.0)?; o.0.clear(); }
    }
}
/// a statement of a version: recorded, or rejected when it says so
fn user(q: &str, d: &mut Dbs) -> Result<(), String> {
    if q.contains("FAIL") { return Err("the statement is rejected".into()); }
    d.log.push(q.to_string());
    Ok(())
}
