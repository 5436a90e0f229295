//! Explorers for the snapshot, its changes and the diff.
use crate::snapshot::changes::Change;
use crate::snapshot::*;
use crate::vcommon::*;
use crate::ventry::Prop;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

// ---- model <-> real ---------------------------------------------------------
pub fn con_m(c: &Constraint) -> Con {
    match c {
        Constraint::PrimaryKey(k) => Con::Pk { cols: k.columns.clone(), d: k.deferrable, i: k.initially_deferred },
        Constraint::Unique(k) => Con::Uq { cols: k.columns.clone(), d: k.deferrable, i: k.initially_deferred },
        Constraint::Check(k) => Con::Ck { expr: k.expression.clone(), d: k.deferrable, i: k.initially_deferred },
        Constraint::ForeignKey(k) => Con::Fk {
            cols: k.columns.clone(), ts: k.target_schema.clone(), tt: k.target_table.clone(), tcols: k.target_columns.clone(),
            mo: k.match_option.clone(), ur: k.update_rule.clone(), dr: k.delete_rule.clone(), d: k.deferrable, i: k.initially_deferred,
        },
    }
}
pub fn con_r(sn: &str, tn: &str, n: &str, c: &Con) -> Constraint {
    let (schema_name, table_name, name) = (sn.to_string(), tn.to_string(), n.to_string());
    match c {
        Con::Pk { cols, d, i } => Constraint::PrimaryKey(PrimaryKey { schema_name, table_name, name, columns: cols.clone(), deferrable: *d, initially_deferred: *i }),
        Con::Uq { cols, d, i } => Constraint::Unique(Unique { schema_name, table_name, name, columns: cols.clone(), deferrable: *d, initially_deferred: *i }),
        Con::Ck { expr, d, i } => Constraint::Check(Check { schema_name, table_name, name, expression: expr.clone(), deferrable: *d, initially_deferred: *i }),
        Con::Fk { cols, ts, tt, tcols, mo, ur, dr, d, i } => Constraint::ForeignKey(ForeignKey {
            schema_name, table_name, name, columns: cols.clone(), target_schema: ts.clone(), target_table: tt.clone(), target_columns: tcols.clone(),
            match_option: mo.clone(), update_rule: ur.clone(), delete_rule: dr.clone(), deferrable: *d, initially_deferred: *i,
        }),
    }
}
pub fn col_m(c: &Column) -> Col { Col { dt: c.data_type.clone(), nn: c.not_null, df: c.default.clone() } }
pub fn col_r(sn: &str, tn: &str, n: &str, c: &Col) -> Column {
    Column { schema_name: sn.to_string(), table_name: tn.to_string(), name: n.to_string(), data_type: c.dt.clone(), not_null: c.nn, default: c.df.clone() }
}
pub fn rel_m(v: &Relation, sn: &str) -> Rel {
    match v {
        Relation::Table(t) => {
            let mut m = Tab { order: vec![], cols: BTreeMap::new(), cons: BTreeMap::new() };
            for c in &t.columns {
                assert!(c.schema_name == t.schema_name && c.table_name == t.name, "column stored in the wrong table");
                assert!(m.cols.insert(c.name.clone(), col_m(c)).is_none(), "column name repeated");
                m.order.push(c.name.clone());
            }
            for (k, c) in &t.constraints {
                assert!(k == c.get_name() && c.get_table_name() == t.name && c.get_schema_name() == t.schema_name, "constraint stored under the wrong name");
                m.cons.insert(k.clone(), con_m(c));
            }
            Rel::Tab(m)
        }
        Relation::View(x) => Rel::Vw(x.query.clone()),
        Relation::Index(x) => Rel::Ix(Idx { table: x.table_name.clone(), unique: x.unique, method: x.method.clone(), keys: x.key_expressions.clone() }),
        Relation::Sequence(q) => Rel::Sq(Seq {
            dt: q.data_type.clone(), inc: q.increment, min: q.min_value, max: q.max_value, start: q.start, cache: q.cache, cycle: q.cycle,
            ot: q.owned_by_table.clone(), oc: q.owned_by_column.clone(),
        }),
    }
}
pub fn rel_r(sn: &str, n: &str, v: &Rel, r: &mut Rng) -> Relation {
    let (schema_name, name) = (sn.to_string(), n.to_string());
    match v {
        Rel::Tab(t) => {
            let mut m = Table { schema_name, name, columns: vec![], constraints: HashMap::new() };
            let mut order: Vec<&String> = t.cols.keys().collect();
            if t.order.len() == t.cols.len() { order = t.order.iter().collect(); }
            for k in order { m.columns.push(col_r(sn, n, k, &t.cols[k])); }
            for (k, c) in &t.cons { m.constraints.insert(k.clone(), con_r(sn, n, k, c)); }
            Relation::Table(m)
        }
        Rel::Vw(q) => Relation::View(View { schema_name, name, query: q.clone() }),
        Rel::Ix(x) => Relation::Index(Index { schema_name, name, table_name: x.table.clone(), unique: x.unique, method: x.method.clone(), key_expressions: x.keys.clone() }),
        Rel::Sq(q) => Relation::Sequence(Sequence {
            schema_name, name, data_type: q.dt.clone(), increment: q.inc, min_value: q.min, max_value: q.max, start: q.start, cache: q.cache, cycle: q.cycle,
            owned_by_table: q.ot.clone(), owned_by_column: q.oc.clone(),
        }),
    }
}
pub fn fun_r(sn: &str, n: &str, f: &Fun) -> Function {
    Function { schema_name: sn.to_string(), name: n.to_string(), body: f.body.clone(), language: f.lang.clone(), returns: f.ret.clone(), volatility: f.vol.clone() }
}
pub fn sch_r(sn: &str, s: &Sch, r: &mut Rng) -> Schema {
    let mut m = Schema { name: sn.to_string(), relations: HashMap::new(), functions: HashMap::new() };
    for (k, v) in &s.rels { m.relations.insert(k.clone(), rel_r(sn, k, v, r)); }
    for (k, f) in &s.funs { m.functions.insert(k.clone(), fun_r(sn, k, f)); }
    m
}
pub fn real(d: &Db, r: &mut Rng) -> Database {
    let mut m = Database { schemas: HashMap::new() };
    for (k, s) in d { m.schemas.insert(k.clone(), sch_r(k, s, r)); }
    m
}
/// panics when an object is not stored under its own name
pub fn model(d: &Database) -> Db {
    let mut m = Db::new();
    for (k, s) in &d.schemas {
        assert!(*k == s.name, "schema stored under the wrong name");
        let mut x = Sch::default();
        for (n, v) in &s.relations {
            assert!(n == v.get_name() && v.get_schema_name() == s.name, "relation stored under the wrong name");
            x.rels.insert(n.clone(), rel_m(v, &s.name));
        }
        for (n, f) in &s.functions {
            assert!(*n == f.name && f.schema_name == s.name, "function stored under the wrong name");
            x.funs.insert(n.clone(), Fun { body: f.body.clone(), lang: f.language.clone(), ret: f.returns.clone(), vol: f.volatility.clone() });
        }
        m.insert(k.clone(), x);
    }
    m
}

// ---- what a change means, written against its stored form ---------------------
fn st(v: &Value, k: &str) -> String { v[k].as_str().unwrap_or_else(|| panic!("stored change has no {}", k)).to_string() }
fn ost(v: &Value, k: &str) -> Option<String> { v[k].as_str().map(|s| s.to_string()) }
fn bo(v: &Value, k: &str) -> bool { !v[k].is_null() && v[k].as_bool().unwrap_or_else(|| panic!("stored change has no {}", k)) }
fn int(v: &Value, k: &str) -> i64 { v[k].as_i64().unwrap_or_else(|| panic!("stored change has no {}", k)) }
fn vst(v: &Value, k: &str) -> Vec<String> { v[k].as_array().unwrap_or(&vec![]).iter().map(|x| x.as_str().unwrap().to_string()).collect() }
fn tab_of<'a>(d: &'a mut Db, s: &str, t: &str) -> Option<&'a mut Tab> { match d.get_mut(s)?.rels.get_mut(t)? { Rel::Tab(t) => Some(t), _ => None } }
fn con_kind(c: &Con) -> usize { match c { Con::Pk { .. } => 0, Con::Uq { .. } => 1, Con::Ck { .. } => 2, Con::Fk { .. } => 3 } }

pub fn step(ch: &Value, d: &Db) -> Option<Db> {
    let mut d = d.clone();
    let (ty, c) = (ch["type"].as_str().unwrap(), &ch["change"]);
    let kind = |ty: &str| if ty.contains("PrimaryKey") { 0 } else if ty.contains("Unique") { 1 } else if ty.contains("Check") { 2 } else { 3 };
    match ty {
        "AddCheckChange" | "AddForeignKeyChange" | "AddPrimaryKeyChange" | "AddUniqueChange" => {
            let v = match kind(ty) {
                0 => Con::Pk { cols: vst(c, "columns"), d: bo(c, "deferrable"), i: bo(c, "initially_deferred") },
                1 => Con::Uq { cols: vst(c, "columns"), d: bo(c, "deferrable"), i: bo(c, "initially_deferred") },
                2 => Con::Ck { expr: st(c, "expression"), d: bo(c, "deferrable"), i: bo(c, "initially_deferred") },
                _ => Con::Fk { cols: vst(c, "columns"), ts: st(c, "target_schema"), tt: st(c, "target_table"), tcols: vst(c, "target_columns"), mo: st(c, "match_option"), ur: st(c, "update_rule"), dr: st(c, "delete_rule"), d: bo(c, "deferrable"), i: bo(c, "initially_deferred") },
            };
            let t = tab_of(&mut d, &st(c, "schema"), &st(c, "table"))?;
            let k = st(c, "constraint");
            if t.cons.contains_key(&k) { return None; }
            t.cons.insert(k, v);
        }
        "AlterCheckChange" | "AlterForeignKeyChange" | "AlterPrimaryKeyChange" | "AlterUniqueChange" => {
            let t = tab_of(&mut d, &st(c, "schema"), &st(c, "table"))?;
            let x = t.cons.get_mut(&st(c, "constraint"))?;
            if con_kind(x) != kind(ty) { return None; }
            let (nd, ni) = (bo(c, "deferrable"), bo(c, "initially_deferred"));
            match x { Con::Pk { d, i, .. } | Con::Uq { d, i, .. } | Con::Ck { d, i, .. } | Con::Fk { d, i, .. } => { *d = nd; *i = ni; } }
        }
        "DropCheckChange" | "DropForeignKeyChange" | "DropPrimaryKeyChange" | "DropUniqueChange" => {
            let t = tab_of(&mut d, &st(c, "schema"), &st(c, "table"))?;
            let k = st(c, "constraint");
            if con_kind(t.cons.get(&k)?) != kind(ty) { return None; }
            t.cons.remove(&k);
        }
        "AddColumnChange" => {
            let t = tab_of(&mut d, &st(c, "schema"), &st(c, "table"))?;
            let k = st(c, "column");
            if t.cols.contains_key(&k) { return None; }
            t.cols.insert(k, Col { dt: st(c, "data_type"), nn: bo(c, "not_null"), df: ost(c, "default") });
        }
        "AlterColumnSetDataTypeChange" => { tab_of(&mut d, &st(c, "schema"), &st(c, "table"))?.cols.get_mut(&st(c, "column"))?.dt = st(c, "data_type"); }
        "AlterColumnSetDefaultChange" => { tab_of(&mut d, &st(c, "schema"), &st(c, "table"))?.cols.get_mut(&st(c, "column"))?.df = ost(c, "default"); }
        "AlterColumnSetNotNullChange" => { tab_of(&mut d, &st(c, "schema"), &st(c, "table"))?.cols.get_mut(&st(c, "column"))?.nn = bo(c, "not_null"); }
        "DropColumnChange" => { tab_of(&mut d, &st(c, "schema"), &st(c, "table"))?.cols.remove(&st(c, "column"))?; }
        "RenameColumnChange" => {
            let t = tab_of(&mut d, &st(c, "from_schema"), &st(c, "from_table"))?;
            let (a, b) = (st(c, "from_column"), st(c, "to_column"));
            if a != b && t.cols.contains_key(&b) { return None; }
            let v = t.cols.remove(&a)?;
            t.cols.insert(b, v);
        }
        "CreateFunctionChange" => {
            let s = d.get_mut(&st(c, "schema"))?;
            let k = st(c, "function");
            if s.funs.contains_key(&k) { return None; }
            s.funs.insert(k, Fun { body: st(c, "body"), lang: st(c, "language"), ret: st(c, "returns"), vol: st(c, "volatility") });
        }
        "DropFunctionChange" => { d.get_mut(&st(c, "schema"))?.funs.remove(&st(c, "function"))?; }
        "CreateIndexChange" => { tab_of(&mut d, &st(c, "schema"), &st(c, "table"))?; let v = Rel::Ix(Idx { table: st(c, "table"), unique: bo(c, "unique"), method: st(c, "method"), keys: vst(c, "key_expressions") }); add(&mut d, &st(c, "schema"), st(c, "index"), v)?; }
        "CreateSequenceChange" => { let v = Rel::Sq(Seq { dt: st(c, "data_type"), inc: int(c, "increment"), min: int(c, "min_value"), max: int(c, "max_value"), start: int(c, "start"), cache: int(c, "cache"), cycle: bo(c, "cycle"), ot: None, oc: None }); add(&mut d, &st(c, "schema"), st(c, "sequence"), v)?; }
        "CreateViewChange" => { add(&mut d, &st(c, "schema"), st(c, "view"), Rel::Vw(st(c, "query")))?; }
        "CreateTableChange" => {
            let mut t = Tab { order: vec![], cols: BTreeMap::new(), cons: BTreeMap::new() };
            for x in c["columns"].as_array().unwrap() {
                if t.cols.insert(st(x, "name"), Col { dt: st(x, "data_type"), nn: bo(x, "not_null"), df: ost(x, "default") }).is_some() { return None; }
            }
            add(&mut d, &st(c, "schema"), st(c, "table"), Rel::Tab(t))?;
        }
        "DropIndexChange" => { let k = st(c, "index"); let s = d.get_mut(&st(c, "schema"))?; if !matches!(s.rels.get(&k)?, Rel::Ix(_)) { return None; } s.rels.remove(&k); }
        "DropSequenceChange" => { let k = st(c, "sequence"); let s = d.get_mut(&st(c, "schema"))?; if !matches!(s.rels.get(&k)?, Rel::Sq(_)) { return None; } s.rels.remove(&k); }
        "DropViewChange" => { let k = st(c, "view"); let s = d.get_mut(&st(c, "schema"))?; if !matches!(s.rels.get(&k)?, Rel::Vw(_)) { return None; } s.rels.remove(&k); }
        "DropTableChange" => { let k = st(c, "table"); let s = d.get_mut(&st(c, "schema"))?; if !matches!(s.rels.get(&k)?, Rel::Tab(_)) { return None; } s.rels.remove(&k); }
        "CreateSchemaChange" => { let k = st(c, "schema_name"); if d.contains_key(&k) { return None; } d.insert(k, Sch::default()); }
        "DropSchemaChange" => { d.remove(&st(c, "schema_name"))?; }
        _ => panic!("unknown change {}", ty),
    }
    Some(d)
}
fn add(d: &mut Db, s: &str, k: String, v: Rel) -> Option<()> {
    let s = d.get_mut(s)?;
    if s.rels.contains_key(&k) { return None; }
    s.rels.insert(k, v);
    Some(())
}
/// may the change lose what the dropped object contained?
pub fn invertible(ch: &Value, d: &Db) -> bool {
    let c = &ch["change"];
    let rel = |k: &str| d.get(&st(c, "schema")).and_then(|s| s.rels.get(&st(c, k)).map(|r| (s, r)));
    match ch["type"].as_str().unwrap() {
        "DropTableChange" => match rel("table") { Some((_, Rel::Tab(t))) => t.cons.is_empty(), _ => true },
        "DropSchemaChange" => d.get(&st(c, "schema_name")).map_or(true, |s| s.rels.is_empty() && s.funs.is_empty()),
        "DropIndexChange" => match rel("index") { Some((s, Rel::Ix(x))) => matches!(s.rels.get(&x.table), Some(Rel::Tab(_))), _ => true },
        "DropSequenceChange" => match rel("sequence") { Some((_, Rel::Sq(q))) => q.ot.is_none() && q.oc.is_none(), _ => true },
        _ => true,
    }
}
pub const KINDS: &[&str] = &["AddCheckChange", "AddColumnChange", "AddForeignKeyChange", "AddPrimaryKeyChange", "AddUniqueChange", "AlterCheckChange", "AlterColumnSetDataTypeChange", "AlterColumnSetDefaultChange", "AlterColumnSetNotNullChange", "AlterForeignKeyChange", "AlterPrimaryKeyChange", "AlterUniqueChange", "CreateFunctionChange", "CreateIndexChange", "CreateSchemaChange", "CreateSequenceChange", "CreateTableChange", "CreateViewChange", "DropCheckChange", "DropColumnChange", "DropForeignKeyChange", "DropFunctionChange", "DropIndexChange", "DropPrimaryKeyChange", "DropSchemaChange", "DropSequenceChange", "DropTableChange", "DropUniqueChange", "DropViewChange", "RenameColumnChange"];

fn ks<V>(m: &BTreeMap<String, V>, r: &mut Rng) -> Option<String> { if m.is_empty() || r.one(8) { None } else { let i = r.n(m.len()); m.keys().nth(i).cloned() } }
/// a random change of kind `k`, mostly aimed at objects which exist in `d`
pub fn gen_change(k: &str, d: &Db, r: &mut Rng) -> Value {
    let s = ks(d, r).unwrap_or_else(|| name(r));
    let empty = Sch::default();
    let sch = d.get(&s).unwrap_or(&empty).clone();
    let of = |f: fn(&Rel) -> bool, r: &mut Rng| { let m: BTreeMap<String, ()> = sch.rels.iter().filter(|(_, v)| f(v)).map(|(k, _)| (k.clone(), ())).collect(); ks(&m, r) };
    let t = of(|v| matches!(v, Rel::Tab(_)), r).unwrap_or_else(|| name(r));
    let tab = match sch.rels.get(&t) { Some(Rel::Tab(t)) => t.clone(), _ => Tab { order: vec![], cols: BTreeMap::new(), cons: BTreeMap::new() } };
    let want = if k.contains("PrimaryKey") { 0 } else if k.contains("Unique") { 1 } else if k.contains("Check") { 2 } else { 3 };
    let cons: BTreeMap<String, ()> = tab.cons.iter().filter(|(_, c)| con_kind(c) == want).map(|(k, _)| (k.clone(), ())).collect();
    let con = if k.starts_with("Add") || r.one(8) { name(r) } else { ks(&cons, r).or(ks(&tab.cons, r)).unwrap_or_else(|| name(r)) };
    let col = ks(&tab.cols, r).unwrap_or_else(|| name(r));
    let fresh = |ex: Option<String>, r: &mut Rng| if r.one(3) { ex.unwrap_or_else(|| name(r)) } else { name(r) };
    let c = match k {
        "AddPrimaryKeyChange" | "AddUniqueChange" => json!({"schema": s, "table": t, "constraint": con, "columns": names(r), "deferrable": r.b(), "initially_deferred": r.b()}),
        "AddCheckChange" => json!({"schema": s, "table": t, "constraint": con, "expression": text(r), "deferrable": r.b(), "initially_deferred": r.b()}),
        "AddForeignKeyChange" => {
            let c = loop { if let Con::Fk { cols, ts, tt, tcols, mo, ur, dr, d, i } = gen_con(r) { break (cols, ts, tt, tcols, mo, ur, dr, d, i); } };
            json!({"schema": s, "table": t, "constraint": con, "columns": c.0, "target_schema": c.1, "target_table": c.2, "target_columns": c.3, "match_option": c.4, "update_rule": c.5, "delete_rule": c.6, "deferrable": c.7, "initially_deferred": c.8})
        }
        "AlterCheckChange" | "AlterForeignKeyChange" | "AlterPrimaryKeyChange" | "AlterUniqueChange" => json!({"schema": s, "table": t, "constraint": con, "deferrable": r.b(), "initially_deferred": r.b()}),
        "DropCheckChange" | "DropForeignKeyChange" | "DropPrimaryKeyChange" | "DropUniqueChange" => json!({"schema": s, "table": t, "constraint": con}),
        "AddColumnChange" => { let v = gen_col(r); json!({"schema": s, "table": t, "column": fresh(Some(col), r), "data_type": v.dt, "not_null": v.nn, "default": v.df}) }
        "AlterColumnSetDataTypeChange" => json!({"schema": s, "table": t, "column": col, "data_type": gen_col(r).dt}),
        "AlterColumnSetDefaultChange" => json!({"schema": s, "table": t, "column": col, "default": gen_col(r).df}),
        "AlterColumnSetNotNullChange" => json!({"schema": s, "table": t, "column": col, "not_null": r.b()}),
        "DropColumnChange" => json!({"schema": s, "table": t, "column": col}),
        "RenameColumnChange" => json!({"from_schema": s, "from_table": t, "from_column": col, "to_column": name(r)}),
        "CreateFunctionChange" => { let f = gen_fun(r); json!({"schema": s, "function": fresh(ks(&sch.funs, r), r), "body": f.body, "language": f.lang, "returns": f.ret, "volatility": f.vol}) }
        "DropFunctionChange" => json!({"schema": s, "function": ks(&sch.funs, r).unwrap_or_else(|| name(r))}),
        "CreateIndexChange" => { let x = gen_idx(r, t.clone()); json!({"schema": s, "table": t, "index": fresh(ks(&sch.rels, r), r), "unique": x.unique, "method": x.method, "key_expressions": x.keys}) }
        "CreateSequenceChange" => { let q = gen_seq(r, false); json!({"schema": s, "sequence": fresh(ks(&sch.rels, r), r), "data_type": q.dt, "increment": q.inc, "min_value": q.min, "max_value": q.max, "start": q.start, "cache": q.cache, "cycle": q.cycle}) }
        "CreateViewChange" => json!({"schema": s, "view": fresh(ks(&sch.rels, r), r), "query": text(r)}),
        "CreateTableChange" => {
            let mut v = vec![];
            for _ in 0..r.n(4) { let c = gen_col(r); v.push(json!({"name": name(r), "data_type": c.dt, "not_null": c.nn, "default": c.df})); }
            json!({"schema": s, "table": fresh(ks(&sch.rels, r), r), "columns": v})
        }
        "DropIndexChange" => json!({"schema": s, "index": of(|v| matches!(v, Rel::Ix(_)), r).or(ks(&sch.rels, r)).unwrap_or_else(|| name(r))}),
        "DropSequenceChange" => json!({"schema": s, "sequence": of(|v| matches!(v, Rel::Sq(_)), r).or(ks(&sch.rels, r)).unwrap_or_else(|| name(r))}),
        "DropViewChange" => json!({"schema": s, "view": of(|v| matches!(v, Rel::Vw(_)), r).or(ks(&sch.rels, r)).unwrap_or_else(|| name(r))}),
        "DropTableChange" => json!({"schema": s, "table": of(|v| matches!(v, Rel::Tab(_)), r).or(ks(&sch.rels, r)).unwrap_or_else(|| name(r))}),
        "CreateSchemaChange" | "DropSchemaChange" => json!({"schema_name": if k.starts_with("Create") && r.b() { name(r) } else { s }}),
        _ => unreachable!(),
    };
    json!({"type": k, "change": c})
}

// ---- explorers ------------------------------------------------------------------
fn pair(r: &mut Rng, k: u64) -> (Db, Db) {
    let s = gen_db(r, false);
    let t = if r.one(3) { gen_db(r, false) } else { let mut t = s.clone(); for _ in 0..1 + r.n(3) { mutate(&mut t, r, false); } t };
    (s, t)
}
fn show_pair(s: &Db, t: &Db) -> String { format!("source: {:?}\ntarget: {:?}", s, t) }

fn c01(r: &mut Rng, k: u64) -> (String, Case) {
    let (s, t) = pair(r, k);
    let d = show_pair(&s, &t);
    let (mut a, b) = (real(&s, r), real(&t, r));
    let chs = compare_diff(&a, &b);
    for (i, c) in chs.iter().enumerate() {
        if let Err(e) = c.apply(&mut a) { return (d, Case::Bad(format!("change {} of the diff cannot be applied: {:?} in {:?}", i, e, chs))); }
    }
    if !same(&model(&a), &t) { return (d, Case::Bad(format!("after the diff {:?} the source is {:?}", chs, model(&a)))); }
    (d, if chs.is_empty() { Case::Trivial } else { Case::Ok })
}
fn c02(r: &mut Rng, k: u64) -> (String, Case) {
    if r.one(3) {
        // a single change
        let s = gen_db(r, true);
        let j = gen_change(*r.pick(KINDS), &s, r);
        let d = format!("change: {}\nsource: {:?}", j, s);
        let c: Change = serde_json::from_value(j.clone()).unwrap();
        let post = match step(&j, &s) { Some(x) if invertible(&j, &s) => x, _ => return (d, Case::Trivial) };
        let mut a = real(&s, r);
        let u = match c.revert(&a) { Ok(u) => u, Err(e) => return (d, Case::Bad(format!("cannot be reverted: {:?}", e))) };
        if let Err(e) = c.apply(&mut a) { return (d, Case::Bad(format!("cannot be applied: {:?}", e))); }
        if let Err(e) = u.apply(&mut a) { return (d, Case::Bad(format!("its reversal {:?} cannot be applied: {:?}", u, e))); }
        if !same(&model(&a), &s) { return (d, Case::Bad(format!("its reversal {:?} leads to {:?}", u, model(&a)))); }
        return (d, Case::Ok);
    }
    let (s, t) = pair(r, k);
    let d = show_pair(&s, &t);
    let (mut a, b) = (real(&s, r), real(&t, r));
    let chs = compare_diff(&a, &b);
    let mut undo = vec![];
    for c in &chs {
        match c.revert(&a) { Ok(u) => undo.push(u), Err(e) => return (d, Case::Bad(format!("{:?} cannot be reverted: {:?}", c, e))) }
        if let Err(e) = c.apply(&mut a) { return (d, Case::Bad(format!("{:?} cannot be applied: {:?}", c, e))); }
    }
    for u in undo.iter().rev() { if let Err(e) = u.apply(&mut a) { return (d, Case::Bad(format!("{:?} cannot be applied on the way back: {:?}", u, e))); } }
    if !same(&model(&a), &s) { return (d, Case::Bad(format!("after {:?} and back through {:?} the source is {:?}", chs, undo, model(&a)))); }
    (d, if chs.is_empty() { Case::Trivial } else { Case::Ok })
}
fn c03(r: &mut Rng, k: u64) -> (String, Case) {
    let s = gen_db(r, k % 2 == 0);
    let mut t = s.clone();
    if r.b() { for _ in 0..1 + r.n(2) { mutate(&mut t, r, false); } }
    let d = show_pair(&s, &t);
    let n = compare_diff(&real(&s, r), &real(&t, r)).len();
    if (n == 0) != same(&s, &t) { return (d, Case::Bad(format!("{} changes between {} snapshots", n, if same(&s, &t) { "equal" } else { "different" }))); }
    (d, if s.is_empty() { Case::Trivial } else { Case::Ok })
}
fn c04(r: &mut Rng, k: u64) -> (String, Case) {
    let s = gen_db(r, true);
    let j = gen_change(KINDS[(k % KINDS.len() as u64) as usize], &s, r);
    let d = format!("change: {}\nsource: {:?}", j, s);
    let c: Change = serde_json::from_value(j.clone()).unwrap();
    let mut a = real(&s, r);
    let out = c.apply(&mut a);
    let m = model(&a);
    match (step(&j, &s), out) {
        (Some(x), Ok(())) => if !same(&x, &m) { return (d, Case::Bad(format!("led to {:?}\ninstead of {:?}", m, x))); },
        (Some(_), Err(e)) => return (d, Case::Bad(format!("was rejected: {:?}", e))),
        (None, Ok(())) => return (d, Case::Bad(format!("was accepted and led to {:?}", m))),
        (None, Err(_)) => if !same(&s, &m) { return (d, Case::Bad(format!("was rejected but left {:?}", m))); },
    }
    (d, Case::Ok)
}
/// a random walk over the containers, against the model
fn c15(r: &mut Rng, k: u64) -> (String, Case) {
    let mut m = gen_db(r, true);
    let mut a = real(&m, r);
    let mut log = vec![format!("start: {:?}", m)];
    macro_rules! chk { ($c:expr, $($x:tt)*) => { if !$c { return (log.join("\n"), Case::Bad(format!($($x)*))); } } }
    for _ in 0..1 + r.n(6) {
        let s = ks(&m, r).unwrap_or_else(|| name(r));
        let op = r.n(16);
        let other = name(r);
        log.push(format!("operation {} on schema {:?} ({:?})", op, s, other));
        chk!(a.has_schema(&s) == m.contains_key(&s), "has_schema({:?})", s);
        chk!(a.get_schema(&s).map(|x| x.name.clone()).ok() == if m.contains_key(&s) { Some(s.clone()) } else { None }, "get_schema({:?})", s);
        chk!(a.iter_schemas().count() == m.len(), "iter_schemas yields {}", a.iter_schemas().count());
        if op == 0 {
            let x = gen_sch(r, true);
            let ok = a.add_schema(sch_r(&s, &x, r)).is_ok();
            chk!(ok == !m.contains_key(&s), "add_schema gave {}", ok);
            if ok { m.insert(s.clone(), x); }
        } else if op == 1 {
            let ok = a.remove_schema(&s).map(|x| x.name).ok();
            chk!(ok == m.remove(&s).map(|_| s.clone()), "remove_schema gave {:?}", ok);
        } else if m.contains_key(&s) {
            let z = a.get_schema_mut(&s).unwrap();
            let y = m.get_mut(&s).unwrap();
            chk!(z.get_name() == s, "schema name");
            let n = ks(&y.rels, r).unwrap_or_else(|| name(r));
            let f = ks(&y.funs, r).unwrap_or_else(|| name(r));
            log.push(format!("relation {:?} function {:?}", n, f));
            chk!(z.has_relation(&n) == y.rels.contains_key(&n), "has_relation");
            chk!(z.get_relation(&n).ok().map(|v| rel_m(v, &s)) == y.rels.get(&n).cloned(), "get_relation");
            chk!(z.has_function(&f) == y.funs.contains_key(&f), "has_function");
            chk!(z.get_function(&f).ok().map(|v| v.get_name().to_string()) == y.funs.get(&f).map(|_| f.clone()), "get_function");
            chk!(z.iter_relations().count() == y.rels.len() && z.iter_functions().count() == y.funs.len(), "iteration");
            match op {
                2 | 3 => { let v = match r.n(3) { 0 => Rel::Vw(text(r)), 1 => Rel::Sq(gen_seq(r, true)), _ => Rel::Tab(gen_tab(r)) };
                    let ok = z.add_relation(rel_r(&s, &n, &v, r)).is_ok();
                    chk!(ok == !y.rels.contains_key(&n), "add_relation gave {}", ok);
                    if ok { y.rels.insert(n.clone(), v); } }
                4 => { let g = z.remove_relation(&n).ok().map(|v| rel_m(&v, &s)); let e = y.rels.remove(&n); chk!(g == e, "remove_relation gave {:?}", g); }
                5 => { let v = gen_fun(r); let ok = z.add_function(fun_r(&s, &f, &v)).is_ok(); chk!(ok == !y.funs.contains_key(&f), "add_function gave {}", ok); if ok { y.funs.insert(f.clone(), v); } }
                6 => { let g = z.remove_function(&f).is_ok(); let e = y.funs.remove(&f).is_some(); chk!(g == e, "remove_function gave {:?}", g); }
                7 => { if let (Ok(g), Some(e)) = (z.get_function_mut(&f), y.funs.get_mut(&f)) { g.body = other.clone(); e.body = other.clone(); } else { chk!(!y.funs.contains_key(&f) && z.get_function_mut(&f).is_err(), "get_function_mut"); } }
                _ => {
                    if let Some(e) = y.rels.get_mut(&n) {
                        let g = z.get_relation_mut(&n).unwrap();
                        chk!(g.as_table().is_ok() == matches!(e, Rel::Tab(_)) && g.as_view().is_ok() == matches!(e, Rel::Vw(_)) && g.as_index().is_ok() == matches!(e, Rel::Ix(_)) && g.as_sequence().is_ok() == matches!(e, Rel::Sq(_)), "relation kinds");
                        chk!(g.as_view_mut().is_ok() == matches!(e, Rel::Vw(_)) && g.as_index_mut().is_ok() == matches!(e, Rel::Ix(_)) && g.as_sequence_mut().is_ok() == matches!(e, Rel::Sq(_)), "mutable relation kinds");
                        if let Rel::Tab(e) = e {
                            let t = match g.as_table_mut() { Ok(t) => t, Err(x) => return (log.join("\n"), Case::Bad(format!("as_table_mut: {:?}", x))) };
                            let c = ks(&e.cols, r).unwrap_or_else(|| name(r));
                            let q = ks(&e.cons, r).unwrap_or_else(|| name(r));
                            log.push(format!("column {:?} constraint {:?}", c, q));
                            chk!(t.has_column(&c) == e.cols.contains_key(&c), "has_column");
                            chk!(t.get_column(&c).ok().map(col_m) == e.cols.get(&c).cloned(), "get_column");
                            chk!(t.has_constraint(&q) == e.cons.contains_key(&q), "has_constraint");
                            chk!(t.get_constraint(&q).ok().map(con_m) == e.cons.get(&q).cloned(), "get_constraint");
                            chk!(t.iter_columns().map(|c| c.get_name().to_string()).collect::<Vec<_>>() == e.order, "iter_columns");
                            chk!(t.iter_constraints().count() == e.cons.len(), "iter_constraints");
                            match op {
                                8 | 9 => { let v = gen_col(r); let ok = t.add_column(col_r(&s, &n, &c, &v)).is_ok(); chk!(ok == !e.cols.contains_key(&c), "add_column gave {}", ok); if ok { e.order.push(c.clone()); e.cols.insert(c, v); } }
                                10 | 11 => { let x = t.remove_column(&c).ok().map(|x| col_m(&x)); let y = e.cols.remove(&c); e.order.retain(|z| *z != c); chk!(x == y, "remove_column gave {:?}", x); }
                                12 => { let v = gen_con(r); let ok = t.add_constraint(con_r(&s, &n, &q, &v)).is_ok(); chk!(ok == !e.cons.contains_key(&q), "add_constraint gave {}", ok); if ok { e.cons.insert(q, v); } }
                                13 => { let x = t.remove_constraint(&q).ok().map(|x| con_m(&x)); let y = e.cons.remove(&q); chk!(x == y, "remove_constraint gave {:?}", x); }
                                14 => { match (t.get_column_mut(&c), e.cols.get_mut(&c)) { (Ok(x), Some(y)) => { x.data_type = other.clone(); y.dt = other.clone(); } (Err(_), None) => {} _ => chk!(false, "get_column_mut") } }
                                _ => { match (t.get_constraint_mut(&q), e.cons.get(&q)) {
                                    (Ok(x), Some(y)) => {
                                        let k = con_kind(y);
                                        chk!(x.as_primary_key_mut().is_ok() == (k == 0) && x.as_unique_mut().is_ok() == (k == 1) && x.as_check_mut().is_ok() == (k == 2) && x.as_foreign_key_mut().is_ok() == (k == 3), "mutable constraint kinds");
                                        chk!(x.as_primary_key().is_ok() == (k == 0) && x.as_unique().is_ok() == (k == 1) && x.as_check().is_ok() == (k == 2) && x.as_foreign_key().is_ok() == (k == 3), "constraint kinds");
                                        chk!(con_m(x) == *y, "get_constraint_mut");
                                    }
                                    (Err(_), None) => {} _ => chk!(false, "get_constraint_mut") } }
                            }
                        } else { chk!(g.as_table_mut().is_err(), "as_table_mut of a non-table"); }
                    } else { chk!(z.get_relation_mut(&n).is_err(), "get_relation_mut of a missing relation"); }
                }
            }
        } else { chk!(a.get_schema_mut(&s).is_err(), "get_schema_mut of a missing schema"); }
        chk!(model(&a) == m, "containers hold {:?}\ninstead of {:?}", model(&a), m);
    }
    (log.join("\n"), Case::Ok)
}
fn known_owned() -> Vec<(String, Option<String>)> {
    let mut r = Rng::new(1);
    let q = Seq { dt: "integer".into(), inc: 1, min: 1, max: 9, start: 1, cache: 1, cycle: false, ot: Some("t".into()), oc: Some("c".into()) };
    let (mut s, mut t) = (Db::new(), Db::new());
    s.insert("public".into(), Sch::default());
    t.insert("public".into(), Sch { rels: [("q".to_string(), Rel::Sq(q))].into_iter().collect(), funs: BTreeMap::new() });
    let (mut a, b) = (real(&s, &mut r), real(&t, &mut r));
    for c in compare_diff(&a, &b) { let _ = c.apply(&mut a); }
    let bad = !same(&model(&a), &t);
    vec![("owned-sequence".into(), if bad { Some("creating a sequence owned by a table column loses the ownership, so the diff does not reach its target".into()) } else { None })]
}
/// merging two snapshots
fn c14(r: &mut Rng, k: u64) -> (String, Case) {
    let s = gen_db(r, true);
    let mut t = gen_db(r, true);
    if r.b() {
        // make clashes unlikely, so that merges which must succeed are common
        let mut u = Db::new();
        for (k, v) in t { let mut x = Sch::default(); for (n, f) in v.funs { x.funs.insert(format!("{}2", n), f); } for (n, f) in v.rels { let f = match f { Rel::Ix(mut i) => { i.table = format!("{}2", i.table); Rel::Ix(i) } o => o }; x.rels.insert(format!("{}2", n), f); } u.insert(k, x); }
        t = u;
    }
    let d = format!("into: {:?}\nmerged: {:?}", s, t);
    let mut a = real(&s, r);
    let ok = a.merge(real(&t, r)).is_ok();
    let mut clash = false;
    let mut m = s.clone();
    for (k, v) in &t {
        let x = m.entry(k.clone()).or_default();
        for (n, f) in &v.rels { clash |= x.rels.insert(n.clone(), f.clone()).is_some(); }
        for (n, f) in &v.funs { clash |= x.funs.insert(n.clone(), f.clone()).is_some(); }
    }
    if ok == clash { return (d, Case::Bad(format!("merge {} although names {}", if ok { "succeeded" } else { "failed" }, if clash { "clash" } else { "do not clash" }))); }
    if ok && model(&a) != m { return (d, Case::Bad(format!("merge gave {:?}", model(&a)))); }
    (d, if t.is_empty() { Case::Trivial } else { Case::Ok })
}

pub fn find(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => Prop { run: c01, fixed: 0, rule: "random pairs of well-formed snapshots (independent, or one to three edits apart); non-trivial when the diff is not empty", known: Some(known_owned) },
        "C02" => Prop { run: c02, fixed: 0, rule: "random single changes with their reversal, and diffs of random pairs walked forth and back; non-trivial when something was reverted", known: None },
        "C03" => Prop { run: c03, fixed: 0, rule: "random snapshots compared with themselves and with edited copies; non-trivial when not empty", known: None },
        "C04" => Prop { run: c04, fixed: 0, rule: "random changes of all 30 kinds applied to random snapshots, against an independent step function; every case counts", known: None },
        "C14" => Prop { run: c14, fixed: 0, rule: "random pairs of snapshots merged, against a union of maps; non-trivial when the merged one is not empty", known: None },
        "C15" => Prop { run: c15, fixed: 0, rule: "random operation sequences on the containers, against ordered maps; every case counts", known: None },
        _ => return None,
    })
}
