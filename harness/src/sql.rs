//! Explorers for the SQL text of changes: it is read by a small lexer following
//! PostgreSQL's rules and compared, token by token, with what the stored form of
//! the change calls for.
use crate::snapshot::changes::Change;
use crate::util::sqlfmt::*;
use crate::vcommon::*;
use crate::ventry::Prop;
use crate::vsnap;
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum T { Id(String), Str(String), W(String), N(String), P(char) }

/// PostgreSQL's lexical rules (standard_conforming_strings on)
pub fn lex(s: &str) -> Result<Vec<T>, String> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut v) = (0, vec![]);
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() { i += 1; }
        else if x == '-' && c.get(i + 1) == Some(&'-') { while i < c.len() && c[i] != '\n' { i += 1; } }
        else if x == '/' && c.get(i + 1) == Some(&'*') {
            let mut d = 0;
            loop {
                if i + 1 >= c.len() { return Err("unterminated comment".into()); }
                if c[i] == '/' && c[i + 1] == '*' { d += 1; i += 2; } else if c[i] == '*' && c[i + 1] == '/' { d -= 1; i += 2; if d == 0 { break; } } else { i += 1; }
            }
        }
        else if x == '"' || x == '\'' || ((x == 'e' || x == 'E') && c.get(i + 1) == Some(&'\'')) {
            let esc = x == 'e' || x == 'E';
            if esc { i += 1; }
            let q = c[i];
            i += 1;
            let mut t = String::new();
            loop {
                match c.get(i) {
                    None => return Err(format!("unterminated {}", q)),
                    Some(&y) if y == q => { if c.get(i + 1) == Some(&q) { t.push(q); i += 2; } else { i += 1; break; } }
                    Some('\\') if esc => { t.push('\\'); if let Some(z) = c.get(i + 1) { t.push(*z); } i += 2; }
                    Some(&y) => { t.push(y); i += 1; }
                }
            }
            if q == '"' { if t.is_empty() { return Err("empty identifier".into()); } v.push(T::Id(t)); } else { v.push(T::Str(t)); }
        }
        else if x == '$' && !c.get(i + 1).map_or(false, |y| y.is_ascii_digit()) {
            let mut j = i + 1;
            while j < c.len() && (c[j].is_alphanumeric() || c[j] == '_') { j += 1; }
            if c.get(j) != Some(&'$') { return Err("stray $".into()); }
            let tag: String = c[i..=j].iter().collect();
            let rest: String = c[j + 1..].iter().collect();
            match rest.find(&tag) { None => return Err("unterminated dollar quote".into()), Some(k) => { let t = rest[..k].to_string(); i = j + 1 + t.chars().count() + tag.chars().count(); v.push(T::Str(t)); } }
        }
        else if x.is_alphabetic() || x == '_' || !x.is_ascii() {
            let mut t = String::new();
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '$' || !c[i].is_ascii()) && !c[i].is_whitespace() { t.push(c[i].to_ascii_lowercase()); i += 1; }
            v.push(T::W(t));
        }
        else if x.is_ascii_digit() { let mut t = String::new(); while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '.') { t.push(c[i]); i += 1; } v.push(T::N(t)); }
        else { v.push(T::P(x)); i += 1; }
    }
    Ok(v)
}

struct X(Vec<T>);
impl X {
    fn kw(mut self, s: &str) -> X { for w in s.split(' ') { self.0.push(T::W(w.to_lowercase())); } self }
    fn id(mut self, s: &str) -> X { self.0.push(T::Id(s.to_string())); self }
    fn p(mut self, c: char) -> X { self.0.push(T::P(c)); self }
    fn qa(self, s: &str, t: &str) -> X { self.id(s).p('.').id(t) }
    fn raw(mut self, s: &str) -> X { self.0.extend(lex(s).unwrap()); self }
    fn str(mut self, s: &str) -> X { self.0.push(T::Str(s.to_string())); self }
    fn num(self, i: i64) -> X { let x = if i < 0 { self.p('-') } else { self }; x.raw(&i.unsigned_abs().to_string()) }
    fn ids(mut self, v: &[String]) -> X { for (i, s) in v.iter().enumerate() { if i > 0 { self = self.p(','); } self = self.id(s); } self }
    fn defer(self, c: &Value) -> X {
        let x = self.kw(if bo(c, "deferrable") { "deferrable" } else { "not deferrable" });
        x.kw(if bo(c, "initially_deferred") { "initially deferred" } else { "initially immediate" })
    }
    fn coldef(self, n: &str, c: &Value) -> X {
        let mut x = self.id(n).raw(&st(c, "data_type"));
        if bo(c, "not_null") { x = x.kw("not null"); }
        if let Some(d) = c["default"].as_str() { x = x.kw("default").raw(d); }
        x
    }
}
fn st(v: &Value, k: &str) -> String { v[k].as_str().unwrap_or_else(|| panic!("stored change has no {}", k)).to_string() }
fn bo(v: &Value, k: &str) -> bool { !v[k].is_null() && v[k].as_bool().unwrap_or_else(|| panic!("stored change has no {}", k)) }
fn int(v: &Value, k: &str) -> i64 { v[k].as_i64().unwrap_or_else(|| panic!("stored change has no {}", k)) }
fn vst(v: &Value, k: &str) -> Vec<String> { v[k].as_array().unwrap_or(&vec![]).iter().map(|x| x.as_str().unwrap().to_string()).collect() }

/// the tokens the change calls for
fn wanted(j: &Value) -> Vec<T> {
    let (ty, c) = (j["type"].as_str().unwrap(), &j["change"]);
    let alter = || X(vec![]).kw("alter table").qa(&st(c, "schema"), &st(c, "table"));
    let x = match ty {
        "AddCheckChange" => alter().kw("add constraint").id(&st(c, "constraint")).kw("check").raw(&st(c, "expression")).defer(c),
        "AddPrimaryKeyChange" => alter().kw("add constraint").id(&st(c, "constraint")).kw("primary key").p('(').ids(&vst(c, "columns")).p(')').defer(c),
        "AddUniqueChange" => alter().kw("add constraint").id(&st(c, "constraint")).kw("unique").p('(').ids(&vst(c, "columns")).p(')').defer(c),
        "AddForeignKeyChange" => alter().kw("add constraint").id(&st(c, "constraint")).kw("foreign key").p('(').ids(&vst(c, "columns")).p(')')
            .kw("references").qa(&st(c, "target_schema"), &st(c, "target_table")).p('(').ids(&vst(c, "target_columns")).p(')')
            .kw("match").raw(&st(c, "match_option")).kw("on update").raw(&st(c, "update_rule")).kw("on delete").raw(&st(c, "delete_rule")).defer(c),
        "AlterCheckChange" | "AlterForeignKeyChange" | "AlterPrimaryKeyChange" | "AlterUniqueChange" => alter().kw("alter constraint").id(&st(c, "constraint")).defer(c),
        "DropCheckChange" | "DropForeignKeyChange" | "DropPrimaryKeyChange" | "DropUniqueChange" => alter().kw("drop constraint").id(&st(c, "constraint")),
        "AddColumnChange" => alter().kw("add column").coldef(&st(c, "column"), c),
        "AlterColumnSetDataTypeChange" => alter().kw("alter column").id(&st(c, "column")).kw("set data type").raw(&st(c, "data_type")),
        "AlterColumnSetDefaultChange" => { let x = alter().kw("alter column").id(&st(c, "column")); match c["default"].as_str() { Some(d) => x.kw("set default").raw(d), None => x.kw("drop default") } }
        "AlterColumnSetNotNullChange" => alter().kw("alter column").id(&st(c, "column")).kw(if bo(c, "not_null") { "set not null" } else { "drop not null" }),
        "DropColumnChange" => alter().kw("drop column").id(&st(c, "column")),
        "RenameColumnChange" => X(vec![]).kw("alter table").qa(&st(c, "from_schema"), &st(c, "from_table")).kw("rename column").id(&st(c, "from_column")).kw("to").id(&st(c, "to_column")),
        "CreateFunctionChange" => X(vec![]).kw("create function").id(&st(c, "schema")).p('.').raw(&st(c, "function")).kw("returns").raw(&st(c, "returns")).kw("language").raw(&st(c, "language")).raw(&st(c, "volatility")).kw("as").str(&st(c, "body")),
        "DropFunctionChange" => X(vec![]).kw("drop function").id(&st(c, "schema")).p('.').raw(&st(c, "function")),
        "CreateIndexChange" => {
            let mut x = X(vec![]).kw(if bo(c, "unique") { "create unique index" } else { "create index" }).id(&st(c, "index")).kw("on").qa(&st(c, "schema"), &st(c, "table")).kw("using").raw(&st(c, "method")).p('(');
            for (i, k) in vst(c, "key_expressions").iter().enumerate() { if i > 0 { x = x.p(','); } x = x.raw(k); }
            x.p(')')
        }
        "DropIndexChange" => X(vec![]).kw("drop index").qa(&st(c, "schema"), &st(c, "index")),
        "CreateSequenceChange" => X(vec![]).kw("create sequence").qa(&st(c, "schema"), &st(c, "sequence")).kw("as").raw(&st(c, "data_type")).kw("increment by").num(int(c, "increment"))
            .kw("minvalue").num(int(c, "min_value")).kw("maxvalue").num(int(c, "max_value")).kw("start with").num(int(c, "start")).kw("cache").num(int(c, "cache")).kw(if bo(c, "cycle") { "cycle" } else { "no cycle" }),
        "DropSequenceChange" => X(vec![]).kw("drop sequence").qa(&st(c, "schema"), &st(c, "sequence")),
        "CreateViewChange" => X(vec![]).kw("create view").qa(&st(c, "schema"), &st(c, "view")).kw("as").raw(&st(c, "query")),
        "DropViewChange" => X(vec![]).kw("drop view").qa(&st(c, "schema"), &st(c, "view")),
        "CreateTableChange" => {
            let mut x = X(vec![]).kw("create table").qa(&st(c, "schema"), &st(c, "table")).p('(');
            for (i, k) in c["columns"].as_array().unwrap().iter().enumerate() { if i > 0 { x = x.p(','); } x = x.coldef(&st(k, "name"), k); }
            x.p(')')
        }
        "DropTableChange" => X(vec![]).kw("drop table").qa(&st(c, "schema"), &st(c, "table")),
        "CreateSchemaChange" => X(vec![]).kw("create schema").id(&st(c, "schema_name")),
        "DropSchemaChange" => X(vec![]).kw("drop schema").id(&st(c, "schema_name")),
        _ => panic!("unknown kind {}", ty),
    };
    x.p(';').0
}
/// leaves out what says nothing but the default, where a new object is made
fn canon(ty: &str, v: &[T]) -> Vec<T> {
    let ws = |s: &str| s.split(' ').map(|w| T::W(w.to_string())).collect::<Vec<_>>();
    let mut v = v.to_vec();
    let mut cut = |pat: &str, by: &str| { let p = ws(pat); let b = if by.is_empty() { vec![] } else { ws(by) }; let mut i = 0; while i + p.len() <= v.len() { if v[i..i + p.len()] == p[..] { v.splice(i..i + p.len(), b.clone()); } i += 1; } };
    match ty {
        "AddCheckChange" | "AddPrimaryKeyChange" | "AddUniqueChange" | "AddForeignKeyChange" => for p in ["not deferrable", "initially immediate", "match simple", "on update no action", "on delete no action"] { cut(p, ""); },
        "CreateSequenceChange" => { cut("no cycle", ""); cut("increment by", "increment"); cut("start with", "start"); }
        "AddColumnChange" => cut("add column", "add"),
        "DropColumnChange" => cut("drop column", "drop"),
        "RenameColumnChange" => cut("rename column", "rename"),
        "AlterColumnSetDataTypeChange" => cut("set data type", "type"),
        _ => {}
    }
    v
}
fn check(j: &Value) -> (String, Case) {
    let d = format!("change: {}", j);
    let c: Change = serde_json::from_value(j.clone()).unwrap();
    let sql = c.render_sql();
    let got = match lex(&sql) { Ok(t) => t, Err(e) => return (d, Case::Bad(format!("{}: {}", e, sql))) };
    let ty = j["type"].as_str().unwrap();
    let want = wanted(j);
    if canon(ty, &got) != canon(ty, &want) { return (d, Case::Bad(format!("rendered as {}\nwhich reads {:?}\ninstead of   {:?}", sql, got, want))); }
    (d, Case::Ok)
}
const RAW: &[&str] = &["f(a integer)", "g()", "h(x text, \"Y\" public.\"T\")"];
fn raw_functions(j: &mut Value, r: &mut Rng) { if j["change"]["function"].is_string() { j["change"]["function"] = json!(*r.pick(RAW)); } }
fn more(j: &mut Value, r: &mut Rng) {
    // attributes beyond the usual ones
    let c = &mut j["change"];
    for k in ["body", "query", "default", "expression"] { if c[k].is_string() && r.one(3) { c[k] = json!(*r.pick(&["'it''s'::text", "nextval('s.\"q\"'::regclass)", "((a)::text = ANY (ARRAY['x'::text]))", "'{}'::jsonb", "a \"b\" 'c'", "SELECT 1 AS \"A\" FROM s.t"])); } }
    if c["body"].is_string() && r.one(2) { c["body"] = json!(*r.pick(&["\nBEGIN\n  RETURN 'it''s';\nEND\n", "'", "a\\'b", "$$", "select '--'", ""])); }
    for k in ["increment", "min_value", "max_value", "start", "cache"] { if c[k].is_i64() && r.one(3) { c[k] = json!(*r.pick(&[0i64, -1, 1, i64::MIN, i64::MAX, 1000000])); } }
    if c["columns"].is_array() && r.one(3) && c["columns"][0].is_string() { let n = 1 + r.n(5); c["columns"] = json!((0..n).map(|i| format!("{}{}", name(r), i)).collect::<Vec<_>>()); }
}
fn c09(r: &mut Rng, k: u64) -> (String, Case) {
    let s = gen_db(r, true);
    let mut j = vsnap::gen_change(vsnap::KINDS[(k % vsnap::KINDS.len() as u64) as usize], &s, r);
    raw_functions(&mut j, r);
    more(&mut j, r);
    check(&j)
}

const BAD: &[char] = &['"', '\'', ';', '-', '\\', '$', '.', ',', ' ', '\n', '\t', '(', ')', '%', 'a', 'B', '1', 'ü', '\u{1F600}', '\u{2019}', '{', '}', '/', '*'];
fn hostile(r: &mut Rng) -> String {
    if r.one(12) { return word(r); }
    if r.one(4) { return r.pick(&["\"; DROP SCHEMA public; --", "a\"\"b", "\"", "\"\"", "User", "select", "a'b", "x\\", "--", "/*", "a.b", "E'", "\u{201d}", "$1", "a\".\"b", "a\", \"b", " a "]).to_string(); }
    (0..1 + r.n(8)).map(|_| *r.pick(BAD)).collect()
}
fn c10(r: &mut Rng, k: u64) -> (String, Case) {
    if k % 512 == 511 { return crate::vhist::c19(r, k); }
    if k % 8 == 7 {
        let ns: Vec<String> = (0..1 + r.n(4)).map(|_| hostile(r)).collect();
        let d = format!("names: {:?}", ns);
        let toks = |s: &str| lex(s);
        let t = (sql_qn(&ns[0]), sql_qs(&ns[0]), sql_qa(&ns[0], &ns[ns.len() - 1]), sql_ql(&ns), sql_l(ns.iter().map(|n| sql_qn(n))), sql_ql(ns.iter().map(|s| s.as_str())));
        let ids = X(vec![]).ids(&ns).0;
        let want = [vec![T::Id(ns[0].clone())], vec![T::Str(ns[0].clone())], X(vec![]).qa(&ns[0], &ns[ns.len() - 1]).0, ids.clone(), ids.clone(), ids];
        for (s, w) in [&t.0, &t.1, &t.2, &t.3, &t.4, &t.5].iter().zip(&want) {
            if toks(s) != Ok(w.clone()) { return (d, Case::Bad(format!("{} reads {:?} instead of {:?}", s, toks(s), w))); }
        }
        return (d, Case::Ok);
    }
    let s = Db::new();
    let mut j = vsnap::gen_change(vsnap::KINDS[((k + k / 8) % vsnap::KINDS.len() as u64) as usize], &s, r);
    raw_functions(&mut j, r);
    let o = j["change"].as_object_mut().unwrap();
    for (k, v) in o.iter_mut() {
        match k.as_str() {
            "schema" | "table" | "constraint" | "column" | "from_schema" | "from_table" | "from_column" | "to_column" | "schema_name" | "view" | "index" | "sequence" | "target_schema" | "target_table" | "body" => if !r.one(4) { *v = json!(hostile(r)) },
            "columns" | "target_columns" => for x in v.as_array_mut().unwrap() { if x.is_string() { *x = json!(hostile(r)) } else { x["name"] = json!(hostile(r)) } },
            _ => {}
        }
    }
    check(&j)
}
pub fn find(id: &str) -> Option<Prop> {
    Some(match id {
        "C09" => Prop { run: c09, fixed: 0, rule: "random changes of all 30 kinds, their text read by a lexer with PostgreSQL's rules and compared with the tokens their stored form calls for; every case counts", known: None },
        "C10" => Prop { run: c10, fixed: 0, rule: "random changes of all kinds whose names and literals are made of quotes, separators and comment marks, the quoting functions themselves, and commands with such metadata schemas; every case counts", known: None },
        _ => return None,
    })
}
