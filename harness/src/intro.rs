//! Explorer for the introspection: a stub answers the catalog queries with the rows
//! of a random database, and the snapshot has to be that database.
use crate::pgstub::{self, Canned, Shared, Val};
use crate::snapshot::*;
use crate::vcommon::*;
use crate::ventry::Prop;
use crate::vsnap;
use std::collections::BTreeMap;

pub fn find(id: &str) -> Option<Prop> {
    match id {
        "C18" => Some(Prop { run: c18, fixed: 0, rule: "the rows a random database has in the catalogs, served by a stub for the queries the code sends (in the order of their select lists, only for the schemas asked for); the snapshot is compared object by object, columns in order; repeated rows, rows of unknown schemas or tables and rejected queries have to be reported", known: None }),
        _ => None,
    }
}
fn s(x: &str) -> Val { Val::S(x.to_string()) }
fn o(x: &Option<String>) -> Val { match x { Some(x) => s(x), None => Val::Null } }
const N: u32 = 19;
const T: u32 = 25;
const NS: u32 = 1003;
const BO: u32 = 16;
const L: u32 = 20;
const H: u32 = 21;
const HS: u32 = 1005;
fn empty() -> Vec<Canned> {
    let c = |kind, schema, cols: &[(&'static str, u32)]| Canned { kind, cols: cols.to_vec(), schema, rows: vec![], reject: false };
    let con = [("constraint_schema", N), ("constraint_name", N), ("table_schema", N), ("table_name", N), ("table_columns", NS), ("is_deferrable", BO), ("initially_deferred", BO)];
    vec![
        c("schema", 0, &[("schema_name", N)]),
        c("sequence", 0, &[("schema_name", N), ("name", N), ("data_type", N), ("increment", L), ("min_value", L), ("max_value", L), ("start", L), ("cache", L), ("cycle", BO), ("owned_by_table_name", N), ("owned_by_column_name", N)]),
        c("table", 0, &[("schema", N), ("name", N)]),
        c("column", 0, &[("schema", N), ("table", N), ("ordinal_position", H), ("column_name", N), ("column_default", T), ("not_null", BO), ("data_type", T)]),
        c("pk", 0, &con),
        c("uq", 0, &con),
        c("fk", 0, &[("constraint_schema", N), ("constraint_name", N), ("constraint_table_name", N), ("table_columns", NS), ("target_schema", N), ("target_table_name", N), ("target_columns", NS), ("constraint_deferrable", BO), ("constraint_deferred", BO), ("match_option", 1043), ("update_rule", 1043), ("delete_rule", 1043)]),
        c("check", 0, &[("constraint_schema", N), ("table_name", N), ("constraint_name", N), ("check_clause", T), ("is_deferrable", BO), ("initially_deferred", BO)]),
        c("index", 0, &[("schema_name", N), ("index_name", N), ("table_name", N), ("unique", BO), ("method", N), ("key_length", H), ("key_columns", NS), ("key_options", HS), ("expressions", T)]),
        c("function", 0, &[("schema", N), ("name", N), ("body", T), ("language", N), ("returns", T), ("volatility", T)]),
    ]
}
pub fn at(k: &str) -> usize { ["schema", "sequence", "table", "column", "pk", "uq", "fk", "check", "index", "function"].iter().position(|x| *x == k).unwrap() }
/// the rows of a database; the columns of a table keep their order, all else is mixed
pub fn rows(db: &Db, r: &mut Rng) -> Vec<Canned> {
    let mut c = empty();
    let mut cols: Vec<Vec<Vec<Val>>> = vec![];
    for (sn, sc) in db {
        c[at("schema")].rows.push(vec![s(sn)]);
        for (n, rel) in &sc.rels {
            match rel {
                Rel::Vw(_) => {}
                Rel::Sq(q) => c[at("sequence")].rows.push(vec![s(sn), s(n), s(&q.dt), Val::L(q.inc), Val::L(q.min), Val::L(q.max), Val::L(q.start), Val::L(q.cache), Val::B(q.cycle), o(&q.ot), o(&q.oc)]),
                Rel::Ix(x) => {
                    let single = x.keys.len() == 1 && r.b();
                    let kc = if !single { Val::A(x.keys.clone()) } else if r.b() { Val::A(names(r)) } else { Val::Null };
                    let ex = if single { s(&x.keys[0]) } else { Val::Null };
                    let opts = (0..x.keys.len()).map(|_| r.n(4) as i16).collect();
                    c[at("index")].rows.push(vec![s(sn), s(n), s(&x.table), Val::B(x.unique), s(&x.method), Val::H(x.keys.len() as i16), kc, Val::HS(opts), ex]);
                }
                Rel::Tab(t) => {
                    c[at("table")].rows.push(vec![s(sn), s(n)]);
                    let mut num = 0i16;
                    let mut mine = vec![];
                    for k in &t.order {
                        num += 1 + r.n(2) as i16;
                        let x = &t.cols[k];
                        mine.push(vec![s(sn), s(n), Val::H(num), s(k), s(x.df.as_deref().unwrap_or("")), Val::B(x.nn), s(&x.dt)]);
                    }
                    cols.push(mine);
                    for (k, x) in &t.cons {
                        match x {
                            Con::Pk { cols, d, i } => c[at("pk")].rows.push(vec![s(sn), s(k), s(sn), s(n), Val::A(cols.clone()), Val::B(*d), Val::B(*i)]),
                            Con::Uq { cols, d, i } => c[at("uq")].rows.push(vec![s(sn), s(k), s(sn), s(n), Val::A(cols.clone()), Val::B(*d), Val::B(*i)]),
                            Con::Ck { expr, d, i } => c[at("check")].rows.push(vec![s(sn), s(n), s(k), s(expr), Val::B(*d), Val::B(*i)]),
                            Con::Fk { cols, ts, tt, tcols, mo, ur, dr, d, i } => c[at("fk")].rows.push(vec![s(sn), s(k), s(n), Val::A(cols.clone()), s(ts), s(tt), Val::A(tcols.clone()), Val::B(*d), Val::B(*i), s(mo), s(ur), s(dr)]),
                        }
                    }
                }
            }
        }
        for (n, f) in &sc.funs { c[at("function")].rows.push(vec![s(sn), s(n), s(&f.body), s(&f.lang), s(&f.ret), s(&f.vol)]); }
    }
    for x in c.iter_mut() { for i in (1..x.rows.len()).rev() { let j = r.n(i + 1); x.rows.swap(i, j); } }
    let mut cols: Vec<std::collections::VecDeque<_>> = cols.into_iter().map(|x| x.into()).collect();
    loop {
        cols.retain(|x| !x.is_empty());
        if cols.is_empty() { break; }
        let i = r.n(cols.len());
        c[at("column")].rows.push(cols[i].pop_front().unwrap());
    }
    c
}
thread_local! { static CONN: std::cell::RefCell<Option<(Shared, std::mem::ManuallyDrop<postgres::Client>)>> = std::cell::RefCell::new(None); }
fn run(canned: Vec<Canned>, schemas: &[&str]) -> Result<Database, String> {
    CONN.with(|c| {
        let mut c = c.borrow_mut();
        if c.as_ref().map_or(true, |x| x.1.is_closed()) {
            let (port, w) = pgstub::serve();
            *c = Some((w, std::mem::ManuallyDrop::new(postgres::Client::connect(&format!("postgres://u@127.0.0.1:{}/d", port), postgres::NoTls).unwrap())));
        }
        let (w, cl) = c.as_mut().unwrap();
        { let mut g = w.lock().unwrap(); g.canned = canned; g.canned_seen.clear(); }
        let mut tx = cl.transaction().unwrap();
        let x = crate::introspection::introspect(&mut tx, schemas).map_err(|e| e.to_string());
        let _ = tx.rollback();
        x
    })
}
/// the abstract value, the columns of every table in order
fn text(d: &Db) -> String { format!("{:?}", d) }
pub fn c18(r: &mut Rng, _: u64) -> (String, Case) {
    let mut db = gen_db(r, true);
    for sc in db.values_mut() {
        sc.rels.retain(|_, v| !matches!(v, Rel::Vw(_)));
        for v in sc.rels.values_mut() {
            match v {
                Rel::Tab(t) => for c in t.cols.values_mut() { if c.df.as_deref() == Some("") { c.df = None; } },
                Rel::Ix(x) => if r.one(4) { x.keys = vec![crate::vcommon::text(r)]; }
                Rel::Sq(q) => if r.one(4) { q.oc = None },
                _ => {}
            }
        }
    }
    let mut schemas: Vec<String> = db.keys().cloned().collect();
    // a database has more schemas than are asked for
    let mut all = db.clone();
    for _ in 0..r.n(3) { let n = name(r); if !all.contains_key(&n) { let sc = gen_sch(r, true); all.insert(n, sc); } }
    while { let i = db.len(); i > 0 && r.one(6) } { let k = schemas.remove(r.n(schemas.len())); db.remove(&k); }
    if r.one(4) { schemas.push("nowhere\u{1}".into()); }
    let refs: Vec<&str> = schemas.iter().map(|x| x.as_str()).collect();
    let mut c = rows(&all, r);
    let d = format!("asking for {:?} in {}", schemas, text(&all));
    if r.one(3) {
        // something which cannot be loaded
        let mine: Vec<(usize, usize)> = c.iter().enumerate().flat_map(|(i, k)| k.rows.iter().enumerate().filter(|(_, x)| matches!(&x[k.schema], Val::S(n) if schemas.contains(n))).map(move |(j, _)| (i, j)).collect::<Vec<_>>()).collect();
        let what = match r.n(4) {
            0 => { let i = r.n(c.len()); c[i].reject = true; format!("the query for {} is rejected", c[i].kind) }
            k if mine.is_empty() => { let i = (k * 3) % c.len(); c[i].reject = true; format!("the query for {} is rejected", c[i].kind) }
            1 => { let (i, j) = *r.pick(&mine); let x = c[i].rows[j].clone(); let p = r.n(c[i].rows.len() + 1); c[i].rows.insert(p, x.clone()); format!("repeated: {} {:?}", c[i].kind, x) }
            2 => {
                let (i, j) = *r.pick(&mine);
                if c[i].kind == "schema" { let x = c[i].rows[j].clone(); c[i].rows.push(x); "repeated schema".into() }
                else { schemas.push("lost\u{1}".into()); let sc = c[i].schema; c[i].rows[j][sc] = s("lost\u{1}"); if c[i].kind == "pk" || c[i].kind == "uq" { c[i].rows[j][2] = s("lost\u{1}"); } format!("in no schema: {} {:?}", c[i].kind, c[i].rows[j]) }
            }
            _ => {
                let on: Vec<(usize, usize)> = mine.iter().filter(|(i, _)| ["column", "pk", "uq", "fk", "check"].contains(&c[*i].kind)).cloned().collect();
                if on.is_empty() { c[0].reject = true; "the query for schemas is rejected".into() }
                else {
                    let (i, j) = *r.pick(&on);
                    let p = match c[i].kind { "pk" | "uq" => 3, "fk" => 2, _ => 1 };
                    c[i].rows[j][p] = s("no such table\u{1}");
                    format!("of no table: {} {:?}", c[i].kind, c[i].rows[j])
                }
            }
        };
        let refs: Vec<&str> = schemas.iter().map(|x| x.as_str()).collect();
        let d = format!("{}; {}", d, what);
        return match run(c, &refs) {
            Err(_) => (d, Case::Ok),
            Ok(x) => { let m = format!("no error, but {}", text(&vsnap::model(&x))); (d, Case::Bad(m)) }
        };
    }
    let got = run(c, &refs);
    match got {
        Err(e) => { let m = format!("failed: {}", e); (d, Case::Bad(m)) }
        Ok(x) => {
            let m = vsnap::model(&x);
            if m == db { let t = db.is_empty(); (d, if t { Case::Trivial } else { Case::Ok }) }
            else { let m = format!("the snapshot is {}\nexpected {}", text(&m), text(&db)); (d, Case::Bad(m)) }
        }
    }
}
