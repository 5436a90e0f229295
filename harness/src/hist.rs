//! Explorers for version history, staging, profiles in use and migrations.
use crate::history::*;
use crate::pgstub::{self, Dbs, Shared, VRow};
use crate::snapshot::{changes::Change, compare_diff};
use crate::vcommon::*;
use crate::ventry::Prop;
use crate::vsnap;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub type Files = BTreeMap<PathBuf, Vec<u8>>;
pub fn scratch() -> PathBuf { PathBuf::from(std::env::var("VH_SCRATCH").expect("VH_SCRATCH")) }
/// an empty directory of our own, below the scratch directory
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Dir { let p = scratch().join("case"); let _ = std::fs::remove_dir_all(&p); std::fs::create_dir_all(&p).unwrap(); Dir(p) }
}
impl Drop for Dir { fn drop(&mut self) { let _ = std::env::set_current_dir(scratch()); let _ = std::fs::remove_dir_all(&self.0); } }
pub fn tree(p: &Path) -> Files {
    fn go(p: &Path, m: &mut Files) { if let Ok(d) = std::fs::read_dir(p) { for e in d { let q = e.unwrap().path(); if q.is_dir() { m.insert(q.join("."), vec![]); go(&q, m); } else { m.insert(q.clone(), std::fs::read(&q).unwrap()); } } } }
    let mut m = Files::new();
    go(p, &mut m);
    m
}
pub fn put_yaml(p: &Path, v: &Value) { std::fs::write(p, serde_yaml::to_string(v).unwrap()).unwrap(); }
pub fn get_yaml(b: &[u8]) -> Value {
    let mut v: Value = serde_yaml::from_slice(b).unwrap_or(Value::Null);
    // what is empty may be left out
    if v.is_object() {
        for k in ["changes", "up", "down"] { if v[k].is_null() { v[k] = json!([]); } }
        if v["previous"].is_null() { v["previous"] = Value::Null; }
    }
    v
}
pub fn ver(name: &str, prev: Option<&str>, changes: Value, up: Vec<String>, down: Vec<String>) -> Value { json!({"name": name, "previous": prev, "changes": changes, "up": up, "down": down}) }
pub fn bad<T: Into<String>>(d: String, m: T) -> (String, Case) { (d, Case::Bad(m.into())) }

// ---- C11: going up ------------------------------------------------------------------------
fn c11(r: &mut Rng, k: u64) -> (String, Case) {
    let dir = Dir::new();
    // names which are prefixes, suffixes and case variants of one another
    let pool = *r.pick(&[["init", "a", "b.c", "20230101_000000-auto", "d e", "ü", "stage"], ["init", "i", "initial", "A", "a", "ab", "b"], ["init", "20230101_000000-a", "20230101_000000-ab", "20230101_000000-A", "20230101_000000-", "a", "stage"]]);
    let n = 2 + r.n(6);
    let mut files: BTreeMap<String, (String, Option<String>)> = BTreeMap::new();
    let chaos = r.one(3);
    for i in 0..n.min(pool.len()) {
        let prev = if chaos && r.one(2) { if r.one(4) { None } else { Some(r.pick(&pool).to_string()) } } else if i == 0 { None } else { Some(pool[i - 1].to_string()) };
        files.insert(pool[i].to_string(), (pool[i].to_string(), prev));
    }
    for (f, (n, p)) in &files { put_yaml(&dir.0.join(format!("{}.yaml", f)), &ver(n, p.as_deref(), json!([]), vec![], vec![])); }
    let (lo, hi) = (r.pick(&pool).to_string(), r.pick(&pool).to_string());
    let d = format!("files {:?}\nfrom {:?} to {:?}", files, lo, hi);
    // walking back
    let mut want = Some(vec![]);
    let mut cur = hi.clone();
    let mut met = BTreeSet::new();
    loop {
        let v = match files.get(&cur) { Some(v) => v, None => { want = None; break; } };
        if cur == lo { break; }
        if !met.insert(cur.clone()) { want = None; break; }
        match &v.1 { Some(p) => { want.as_mut().unwrap().push(v.0.clone()); cur = p.clone(); } None => { want = None; break; } }
    }
    if let Some(w) = &mut want { w.reverse(); }
    let got = FSHistory::new(dir.0.clone()).get_upward_range(&lo, &hi);
    match (&want, &got) {
        (Some(w), Ok(g)) if w == g => {}
        (None, Err(e)) => { let _ = e.to_string(); }
        _ => return bad(d, format!("the range is {:?}, expected {:?}", got.map_err(|e| e.to_string()), want)),
    }
    (d, if want.map_or(false, |w| w.is_empty()) { Case::Trivial } else { Case::Ok })
}

// ---- C12: reading a history -----------------------------------------------------------------
fn c12(r: &mut Rng, k: u64) -> (String, Case) {
    let dir = Dir::new();
    let pool = ["init", "a", "b", "c.yaml", "20230101_000000-auto", "stage"];
    let n = 1 + r.n(6);
    let mut files: BTreeMap<String, Option<String>> = BTreeMap::new();
    let chaos = r.one(3);
    for i in 0..n { files.insert(pool[i].to_string(), if i == 0 { None } else if chaos && r.one(2) { Some(r.pick(&pool).to_string()) } else { Some(pool[i - 1].to_string()) }); }
    if chaos && r.one(3) { files.insert("init".into(), Some(r.pick(&pool).to_string())); }
    let mut names: Vec<&String> = files.keys().collect();
    for i in (1..names.len()).rev() { let j = r.n(i + 1); names.swap(i, j); }
    for f in names { put_yaml(&dir.0.join(format!("{}.yaml", f)), &ver(f, files[f].as_deref(), json!([]), vec![], vec![])); }
    let mut other = vec![];
    for (f, sub) in [("notes.txt", false), ("sub.yaml", true), ("README", false), ("x.yml", false), (".keep", false)] { if r.one(3) { other.push(f); if sub { std::fs::create_dir(dir.0.join(f)).unwrap(); } else { std::fs::write(dir.0.join(f), "{not: [a version").unwrap(); } } }
    let d = format!("versions {:?}, also {:?}", files, other);
    let mut next: BTreeMap<String, String> = BTreeMap::new();
    let mut branch = false;
    for (f, p) in &files { if let Some(p) = p { branch |= next.insert(p.clone(), f.clone()).is_some(); } }
    let mut chain = vec!["init".to_string()];
    let mut cyclic = false;
    while let Some(n) = next.get(chain.last().unwrap()) { if chain.contains(n) { cyclic = true; break; } chain.push(n.clone()); }
    let got = FSHistory::from_dir(&dir.0);
    match got {
        Err(e) => { let m = e.to_string(); if !branch && !cyclic { return bad(d, format!("reading fails: {}", m)); } if branch && !matches!(e, FSHistoryError::Branched { .. }) && !cyclic { return bad(d, format!("a branch is reported as: {}", m)); } }
        Ok(h) => {
            if branch || cyclic { return bad(d, "a branched or cyclic history is accepted"); }
            let m: BTreeMap<String, String> = h.next_map.clone().into_iter().collect();
            if m != next { return bad(d, format!("the successors are {:?}", m)); }
            let cur = if chain.len() >= 2 { chain[chain.len() - 2].clone() } else { "init".to_string() };
            if h.current_version != cur { return bad(d, format!("the current version is {}, expected {}", h.current_version, cur)); }
            if files.contains_key(&cur) { match h.get_current_version() { Ok(v) if v.name == cur => {} x => return bad(d, format!("reading the current version gives {:?}", x.map(|v| v.name).map_err(|e| e.to_string()))) } }
        }
    }
    (d, if files.len() > 1 { Case::Ok } else { Case::Trivial })
}

// ---- versions made of changes ------------------------------------------------------------------
/// the changes between two models, as stored
pub fn diff_json(a: &Db, b: &Db, r: &mut Rng) -> Vec<Value> { compare_diff(&vsnap::real(a, r), &vsnap::real(b, r)).iter().map(|c| serde_json::to_value(c).unwrap()).collect() }
pub fn play(cs: &[Value], d: &Db) -> Option<Db> { let mut d = d.clone(); for c in cs { d = vsnap::step(c, &d)?; } Some(d) }

// ---- C17: replaying a history -------------------------------------------------------------------
/// without what may be left out: nothing, no, and empty lists
fn lean(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(_, x)| !x.is_null() && **x != json!(false) && **x != json!([])).map(|(k, x)| (k.clone(), lean(x))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(lean).collect()),
        x => x.clone(),
    }
}
fn c17(r: &mut Rng, k: u64) -> (String, Case) {
    let dir = Dir::new();
    let names = ["init", "a", "b", "stage"];
    let mut vs: Vec<(String, Vec<Value>)> = vec![];
    let mut cur = Db::new();
    for n in names.iter() {
        let mut next = if r.one(3) { gen_db(r, false) } else { let mut x = cur.clone(); for _ in 0..r.n(4) { mutate(&mut x, r, false); } x };
        if *n == "init" { next.insert("public".into(), Sch::default()); }
        let mut cs = diff_json(&cur, &next, r);
        if r.one(12) && !cs.is_empty() { let i = r.n(cs.len()); if r.b() { cs.remove(i); } else { let c = cs[i].clone(); cs.push(c); } }
        // changes a comparison does not come up with
        if r.b() {
            let mut at = play(&cs, &cur);
            for _ in 0..r.n(4) {
                let Some(x) = &at else { break };
                let c = vsnap::gen_change(*r.pick(vsnap::KINDS), x, r);
                let y = vsnap::step(&c, x);
                if y.is_some() || r.one(20) { cs.push(c); at = y; }
            }
        }
        if let Some(x) = play(&cs, &cur) { cur = x; }
        vs.push((n.to_string(), cs));
    }
    for (i, (n, cs)) in vs.iter().enumerate() { put_yaml(&dir.0.join(format!("{}.yaml", n)), &ver(n, if i == 0 { None } else { Some(&vs[i - 1].0) }, json!(cs), vec![], vec![])); }
    let upto = r.n(names.len());
    let d = format!("versions {}\nup to {}", serde_json::to_string(&vs).unwrap(), names[upto]);
    let mut want = Some(Db::new());
    for i in 0..=upto { want = want.and_then(|x| play(&vs[i].1, &x)); }
    let h = match FSHistory::from_dir(&dir.0) { Ok(h) => h, Err(e) => return bad(d, format!("reading fails: {}", e)) };
    let got = calculate_snapshot(&h, names[upto]);
    match (want, got) {
        (Some(w), Ok(g)) => { let m = vsnap::model(&g); if !same(&m, &w) { return bad(d, format!("the snapshot is {:?}\nexpected {:?}", m, w)); } }
        (None, Err(e)) => { let _ = e.to_string(); }
        (w, g) => return bad(d, format!("replaying {}, expected it to {}", if g.is_ok() { "succeeds" } else { "fails" }, if w.is_some() { "succeed" } else { "fail" })),
    }
    (d, Case::Ok)
}

// ---- a project in a scratch directory ---------------------------------------------------------------
pub struct Prof { pub name: String, pub hist: String, pub defs: String, pub url: String, pub meta: String }
pub fn put_project(root: &Path, ps: &[Prof]) {
    let mut m = serde_json::Map::new();
    for p in ps { m.insert(p.name.clone(), json!({"database_url": p.url, "history": p.hist, "definitions": p.defs, "metadata_schema": p.meta})); }
    put_yaml(&root.join(".podo.yaml"), &json!({ "profiles": m }));
    for p in ps { std::fs::create_dir_all(root.join(&p.hist)).unwrap(); std::fs::create_dir_all(root.join(&p.defs)).unwrap(); }
}
pub fn profs(r: &mut Rng, port: u16) -> Vec<Prof> {
    let names = ["database", "test", "Pr od"];
    let n = 1 + r.n(3);
    (0..n).map(|i| Prof {
        name: names[i].into(), hist: format!("d{}/history", i), defs: format!("d{}/definitions", i),
        url: format!("postgresql://u@127.0.0.1:{}/db{}", port, i), meta: r.pick(&["podo_meta", "Meta Data", "m", "My", "a\"b", "it's"]).to_string(),
    }).collect()
}
pub fn small_db(r: &mut Rng) -> Db {
    let mut s = Sch::default();
    for t in ["t1", "t2", "t3"] {
        if r.one(3) { continue; }
        let mut x = Tab { order: vec![], cols: BTreeMap::new(), cons: BTreeMap::new() };
        for c in ["a", "b", "c"] { if r.b() { x.order.push(c.into()); x.cols.insert(c.into(), Col { dt: r.pick(&["integer", "text"]).to_string(), nn: r.b(), df: None }); } }
        if x.cols.contains_key("a") && r.b() { x.cons.insert(format!("{}_pk", t), Con::Pk { cols: vec!["a".into()], d: false, i: false }); }
        if x.cols.contains_key("b") && r.b() { x.cons.insert(format!("{}_uq", t), Con::Uq { cols: vec!["b".into()], d: r.b(), i: false }); }
        if r.b() { s.rels.insert(format!("{}_ix", t), Rel::Ix(Idx { table: t.into(), unique: r.b(), method: "btree".into(), keys: vec!["a".into()] })); }
        s.rels.insert(t.into(), Rel::Tab(x));
    }
    if r.one(3) { s.rels.insert("vw".into(), Rel::Vw("SELECT 1".into())); }
    [("public".to_string(), s)].into_iter().collect()
}
fn strs(v: &Value) -> Vec<String> { v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect()).unwrap_or_default() }
pub fn change(v: &Value) -> Change { serde_json::from_value(v.clone()).unwrap() }

/// a command, called directly or from the command line
fn cmd(r: &mut Rng, name: &str, profile: &str, version: Option<&str>) -> Result<(), String> {
    if r.one(12) {
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.env("VH_AS_PODO", "1").arg(name);
        if profile != "database" || r.b() { c.args(["--profile", profile]); }
        if let Some(v) = version { c.arg(format!("--version={}", v)); }
        let o = c.output().unwrap();
        return if o.status.success() { Ok(()) } else { Err(format!("{} {}", o.status, String::from_utf8_lossy(&o.stderr))) };
    }
    match name {
        "stage" => crate::cmd::stage(profile), "reset" => crate::cmd::reset(profile), "make" => crate::cmd::make(profile, version),
        "up" => crate::cmd::up(profile, version), "down" => crate::cmd::down(profile, version), "status" => crate::cmd::status(profile),
        _ => unreachable!(),
    }.map_err(|e| e.to_string())
}

// ---- C13: init, stage, make, reset --------------------------------------------------------------------
fn c13_init(r: &mut Rng) -> (String, Case) {
    let dir = Dir::new();
    let sub = dir.0.join("x/y");
    std::fs::create_dir_all(&sub).unwrap();
    let at = [dir.0.clone(), dir.0.join("x"), sub][r.n(3)].clone();
    let project = r.n(4);
    match project { 0 => put_project(&dir.0, &profs(r, 1)), 1 => std::fs::write(dir.0.join("x/.podo.yaml"), "not: [yaml").unwrap(), _ => {} }
    let above = match project { 0 => true, 1 => at != dir.0, _ => false };
    std::env::set_current_dir(&at).unwrap();
    let before = tree(&dir.0);
    let res = crate::cmd::init();
    let after = tree(&dir.0);
    let d = format!("init in {:?}, project file {}", at, project);
    if above {
        if after != before { return bad(d, "init changes files although there is a project already"); }
        return (d, Case::Ok);
    }
    if let Err(e) = res { return bad(d, format!("init fails: {}", e)); }
    let (h, f) = (at.join("database/history"), at.join("database/definitions"));
    let new: Vec<PathBuf> = after.keys().filter(|k| !before.contains_key(*k) && !k.ends_with(".") && after.contains_key(*k)).cloned().collect();
    let want: BTreeSet<PathBuf> = [at.join(".podo.yaml"), h.join("init.yaml"), h.join("stage.yaml"), f.join("public.yaml")].into_iter().collect();
    let new: BTreeSet<PathBuf> = new.into_iter().filter(|p| p.file_name().map_or(true, |n| n != ".") && !p.is_dir()).collect();
    if new != want { return bad(d, format!("init writes {:?}", new)); }
    for (p, b) in &before { if after.get(p) != Some(b) { return bad(d, format!("init changes {:?}", p)); } }
    let init = get_yaml(&after[&h.join("init.yaml")]);
    if init != ver("init", None, json!([{"type": "CreateSchemaChange", "change": {"schema_name": "public"}}]), vec!["CREATE SCHEMA public;".into()], vec!["DROP SCHEMA public;".into()]) { return bad(d, format!("init.yaml holds {}", init)); }
    let stage = get_yaml(&after[&h.join("stage.yaml")]);
    if stage != ver("stage", Some("init"), json!([]), vec![], vec![]) { return bad(d, format!("stage.yaml holds {}", stage)); }
    match crate::definition::load_snpashot(&f) { Ok(s) => { if vsnap::model(&s) != [("public".to_string(), Sch::default())].into_iter().collect::<Db>() { return bad(d, "the definitions of a fresh project are not the empty public schema"); } } Err(e) => return bad(d, format!("the definitions of a fresh project cannot be read: {}", e)) }
    // a second time, here or below, it changes nothing
    let inner = h.clone();
    std::env::set_current_dir(if r.b() { &at } else { &inner }).unwrap();
    let _ = crate::cmd::init();
    if tree(&dir.0) != after { return bad(d, "a second init changes files"); }
    (d, Case::Ok)
}
/// a version made of changes of every kind
fn c13_make(r: &mut Rng) -> (String, Case) {
    let dir = Dir::new();
    let ps = profs(r, 1);
    put_project(&dir.0, &ps);
    std::env::set_current_dir(&dir.0).unwrap();
    let p = &ps[r.n(ps.len())];
    let h = dir.0.join(&p.hist);
    let db = gen_db(r, true);
    let cs: Vec<Value> = vsnap::KINDS.iter().map(|k| vsnap::gen_change(k, &db, r)).collect();
    let texts = |r: &mut Rng| (0..r.n(4)).map(|_| word(r)).collect::<Vec<_>>();
    let stage = ver("stage", Some("init"), json!(cs), texts(r), texts(r));
    put_yaml(&h.join("init.yaml"), &ver("init", None, json!([]), vec![], vec![]));
    put_yaml(&h.join("stage.yaml"), &stage);
    let d = format!("staged {}", stage);
    if let Err(e) = cmd(r, "make", &p.name, Some("x")) { return bad(d, format!("make fails: {}", e)); }
    let after = tree(&dir.0);
    let Some((f, b)) = after.iter().find(|(k, _)| k.to_string_lossy().ends_with("-x.yaml")) else { return bad(d, "nothing made") };
    let mut want = stage.clone();
    want["name"] = json!(f.file_stem().unwrap().to_string_lossy());
    let got = get_yaml(b);
    if lean(&got) != lean(&want) { return bad(d, format!("the version made holds {}\nexpected {}", got, want)); }
    (d, Case::Ok)
}
fn c13(r: &mut Rng, k: u64) -> (String, Case) {
    if r.one(4) { return c13_init(r); }
    if r.one(4) { return c13_make(r); }
    let dir = Dir::new();
    let ps = profs(r, 1);
    put_project(&dir.0, &ps);
    for p in &ps {
        let h = dir.0.join(&p.hist);
        put_yaml(&h.join("init.yaml"), &ver("init", None, json!([{"type": "CreateSchemaChange", "change": {"schema_name": "public"}}]), vec!["CREATE SCHEMA public;".into()], vec!["DROP SCHEMA public;".into()]));
        put_yaml(&h.join("stage.yaml"), &ver("stage", Some("init"), json!([]), vec![], vec![]));
    }
    let below = dir.0.join("some/where");
    std::fs::create_dir_all(&below).unwrap();
    std::env::set_current_dir(if r.b() { &dir.0 } else { &below }).unwrap();
    let mut log = vec![];
    let mut chain: Vec<Vec<(String, Vec<Value>)>> = ps.iter().map(|_| vec![("init".to_string(), vec![json!({"type": "CreateSchemaChange", "change": {"schema_name": "public"}})])]).collect();
    for _ in 0..3 + r.n(6) {
        let i = r.n(ps.len());
        let p = &ps[i];
        let (h, f) = (dir.0.join(&p.hist), dir.0.join(&p.defs));
        let stage_file = h.join("stage.yaml");
        if r.b() {
            // new definitions
            let db = small_db(r);
            let s = vsnap::real(&db, r);
            crate::definition::save_snapshot(&f.join("public.yaml"), &s).unwrap();
            log.push(format!("[{}] define {:?}", p.name, db));
        }
        if r.one(8) {
            // statements added to the stage by hand
            let mut v = get_yaml(&std::fs::read(&stage_file).unwrap());
            for k in ["up", "down"] { if r.b() { let mut a = strs(&v[k]); a.insert(r.n(a.len() + 1), format!("-- {} by hand\nUPDATE t SET a = 1;", k)); v[k] = json!(a); } }
            put_yaml(&stage_file, &v);
            log.push(format!("[{}] the stage edited to {}", p.name, v));
        }
        let before = tree(&dir.0);
        let old = get_yaml(&before[&stage_file]);
        let only = |after: &Files, except: &[PathBuf]| -> Option<PathBuf> { for k in before.keys().chain(after.keys()) { if before.get(k) != after.get(k) && !except.contains(k) { return Some(k.clone()); } } None };
        match r.n(6) {
            0 => {
                log.push(format!("[{}] reset", p.name));
                let res = cmd(r, "reset", &p.name, None);
                let after = tree(&dir.0);
                let d = log.join("\n");
                if let Err(e) = res { return bad(d, format!("reset fails: {}", e)); }
                if let Some(k) = only(&after, &[stage_file.clone()]) { return bad(d, format!("reset changes {:?}", k)); }
                let got = get_yaml(&after[&stage_file]);
                if got != ver("stage", old["previous"].as_str(), json!([]), vec![], vec![]) { return bad(d, format!("after reset the stage holds {}", got)); }
            }
            1 | 2 => {
                let label = *r.pick(&[None, Some("first"), Some("ü x"), Some("")]);
                log.push(format!("[{}] make {:?}", p.name, label));
                let res = cmd(r, "make", &p.name, label);
                let after = tree(&dir.0);
                let d = log.join("\n");
                let new: Vec<PathBuf> = after.keys().filter(|k| !before.contains_key(*k)).cloned().collect();
                let empty = ["changes", "up", "down"].iter().all(|k| old[k].as_array().map_or(true, |a| a.is_empty()));
                if empty || res.is_err() {
                    if empty && res.is_err() { return bad(d, "make fails on an empty stage"); }
                    if after != before { return bad(d, format!("make changes files although it {}: {:?}", if empty { "has nothing to make" } else { "fails" }, only(&after, &[]))); }
                    continue;
                }
                if new.len() != 1 || new[0].parent() != Some(&h) { return bad(d, format!("make creates {:?}", new)); }
                if let Some(k) = only(&after, &[stage_file.clone(), new[0].clone()]) { return bad(d, format!("make changes {:?}", k)); }
                let name = new[0].file_name().unwrap().to_str().unwrap().strip_suffix(".yaml").unwrap_or("?").to_string();
                let (ts, lb) = name.split_once('-').unwrap_or(("", ""));
                if lb != label.unwrap_or("auto") || ts.len() != 15 { return bad(d, format!("the version made is called {}", name)); }
                let mut want = old.clone();
                want["name"] = json!(name);
                let got = get_yaml(&after[&new[0]]);
                if lean(&got) != lean(&want) { return bad(d, format!("the version made holds {}\nexpected {}", got, want)); }
                let got = get_yaml(&after[&stage_file]);
                if got != ver("stage", Some(&name), json!([]), vec![], vec![]) { return bad(d, format!("after make the stage holds {}", got)); }
                chain[i].push((name, old["changes"].as_array().cloned().unwrap_or_default()));
            }
            _ => {
                log.push(format!("[{}] stage", p.name));
                let d = log.join("\n");
                let target = match crate::definition::load_snpashot(&f) { Ok(t) => vsnap::model(&t), Err(_) => continue };
                let mut src = Some(Db::new());
                for (_, cs) in &chain[i] { src = src.and_then(|x| play(cs, &x)); }
                let staged = old["changes"].as_array().cloned().unwrap_or_default();
                let src = match src.and_then(|x| play(&staged, &x)) { Some(x) => x, None => return bad(d, "the history does not replay") };
                let res = cmd(r, "stage", &p.name, None);
                let after = tree(&dir.0);
                if let Err(e) = res { return bad(d, format!("stage fails: {}", e)); }
                if let Some(k) = only(&after, &[stage_file.clone()]) { return bad(d, format!("stage changes {:?}", k)); }
                let got = get_yaml(&after[&stage_file]);
                if got["name"] != "stage" || got["previous"] != old["previous"] { return bad(d, format!("the staged version is {} after {}", got["name"], got["previous"])); }
                let cs = got["changes"].as_array().cloned().unwrap_or_default();
                if cs.len() < staged.len() || lean(&json!(cs[..staged.len()])) != lean(&json!(staged)) { return bad(d, format!("staged changes are lost: {:?} were staged, now {:?}", staged, cs)); }
                let new = &cs[staged.len()..];
                match play(new, &src) { Some(x) if same(&x, &target) => {} x => return bad(d, format!("the staged changes {:?} lead to {:?}\nnot to {:?}", new, x, target)) }
                if same(&src, &target) && !new.is_empty() { return bad(d, format!("staging again adds {:?}", new)); }
                let (mut up, mut down) = (strs(&old["up"]), vec![]);
                let mut cur = crate::snapshot::Database::new();
                for c in chain[i].iter().flat_map(|x| &x.1).chain(&staged) { let _ = change(c).apply(&mut cur); }
                for c in new {
                    let c = change(c);
                    up.push(c.render_sql());
                    down.insert(0, c.revert(&cur).map(|c| c.render_sql()).unwrap_or("not revertible".into()));
                    let _ = c.apply(&mut cur);
                }
                down.extend(strs(&old["down"]));
                if strs(&got["up"]) != up { return bad(d, format!("the upward statements are {:?}\nexpected {:?}", strs(&got["up"]), up)); }
                if strs(&got["down"]) != down { return bad(d, format!("the downward statements are {:?}\nexpected {:?}", strs(&got["down"]), down)); }
            }
        }
    }
    (log.join("\n"), Case::Ok)
}

// ---- C19: up, down, status against a database --------------------------------------------------------
thread_local! { static STUB: std::cell::RefCell<Option<(u16, Shared)>> = std::cell::RefCell::new(None); }
pub fn stub() -> (u16, Shared) {
    STUB.with(|s| s.borrow_mut().get_or_insert_with(pgstub::serve).clone())
}
#[derive(Clone, Debug)]
struct V { name: String, prev: Option<String>, changes: Value, up: Vec<String>, down: Vec<String> }
fn row(v: &V, order: i32) -> VRow { VRow { name: v.name.clone(), previous: v.prev.clone(), changes: String::new(), up: v.up.clone(), down: v.down.clone(), order } }
pub fn c19(r: &mut Rng, k: u64) -> (String, Case) {
    let dir = Dir::new();
    let (port, w) = stub();
    { let mut g = w.lock().unwrap(); g.dbs.clear(); g.odd.clear(); }
    let ps = profs(r, port);
    put_project(&dir.0, &ps);
    let init = V { name: "init".into(), prev: None, changes: json!([{"type": "CreateSchemaChange", "change": {"schema_name": "public"}}]), up: vec!["CREATE SCHEMA public;".into()], down: vec!["DROP SCHEMA public;".into()] };
    let mut hist: Vec<Vec<V>> = vec![];
    for (i, p) in ps.iter().enumerate() {
        let mut vs = vec![init.clone()];
        for j in 0..r.n(5) {
            let n = format!("2023010{}_00000{}-{}", r.n(9), j, r.pick(&["auto", "x", "It's"]));
            let st = |r: &mut Rng, k: &str| (0..r.n(4)).map(|l| format!("{}{} {} {} {} {}", r.pick(&["", "", "", "-- a note\n", " \n", ";", "COMMIT ", "ü"]), pgstub::MARK, p.name, j, k, if r.one(25) { "FAIL".to_string() } else { l.to_string() })).collect::<Vec<_>>();
            let (up, down) = (st(r, "up"), st(r, "down"));
            let ch = if r.b() { json!([]) } else { json!([{"type": "CreateViewChange", "change": {"schema": "public", "view": format!("v{}", j), "query": "SELECT 'x\"y'"}}]) };
            vs.push(V { name: n, prev: Some(vs.last().unwrap().name.clone()), changes: ch, up, down });
        }
        let h = dir.0.join(&p.hist);
        for v in &vs { put_yaml(&h.join(format!("{}.yaml", v.name)), &ver(&v.name, v.prev.as_deref(), v.changes.clone(), v.up.clone(), v.down.clone())); }
        put_yaml(&h.join("stage.yaml"), &ver("stage", Some(&vs.last().unwrap().name), json!([]), vec![format!("{} staged", pgstub::MARK)], vec![]));
        hist.push(vs);
    }
    std::env::set_current_dir(&dir.0).unwrap();
    let mut log: Vec<String> = vec![];
    // what the databases should hold: versions applied (in order), statements executed
    let mut applied: Vec<Vec<V>> = ps.iter().map(|_| vec![]).collect();
    let mut done: Vec<Vec<String>> = ps.iter().map(|_| vec![]).collect();
    let files = tree(&dir.0);
    let mut worked = false;
    for _ in 0..3 + r.n(8) {
        let i = r.n(ps.len());
        let p = &ps[i];
        let all = &hist[i];
        let target: Option<String> = match r.n(6) { 0 | 1 | 2 => None, 5 if r.one(3) => Some("missing".into()), _ => Some(r.pick(all).name.clone()) };
        let mut cur = applied[i].clone();
        let mut stm = done[i].clone();
        if cur.is_empty() { cur.push(init.clone()); }
        let (mut ok, mut commit) = (true, false);
        let res;
        match r.n(5) {
            0 => { log.push(format!("[{}] status", p.name)); let _ = cmd(r, "status", &p.name, None); res = None; }
            1 | 2 | 3 => {
                log.push(format!("[{}] up {:?}", p.name, target));
                let at = all.iter().position(|v| v.name == cur.last().unwrap().name).unwrap();
                let to = match &target { None => Some(all.len() - 1), Some(n) => all.iter().position(|v| v.name == *n) };
                match to {
                    Some(t) if t >= at => {
                        for v in &all[at + 1..=t] {
                            for s in &v.up { if s.contains("FAIL") { ok = false; } stm.push(s.clone()); }
                            cur.push(v.clone());
                        }
                        commit = ok && t > at;
                    }
                    _ => ok = false,
                }
                res = Some(cmd(r, "up", &p.name, target.as_deref()));
            }
            _ => {
                log.push(format!("[{}] down {:?}", p.name, target));
                let to = match &target { None => cur.last().unwrap().prev.clone(), Some(n) => Some(n.clone()) };
                match to {
                    None => {}
                    Some(n) => match cur.iter().position(|v| v.name == n) {
                        Some(t) => while cur.len() > t + 1 {
                            let v = cur.pop().unwrap();
                            for s in &v.down { if s.contains("FAIL") { ok = false; } stm.push(s.clone()); }
                            commit = true;
                        },
                        None => ok = false,
                    },
                }
                commit = commit && ok;
                res = Some(cmd(r, "down", &p.name, target.as_deref()));
            }
        }
        // the server handles the end of a connection on its own time, but commits before it answers
        let g = w.lock().unwrap();
        let d = || format!("history {:?}\n{}", hist, log.join("\n"));
        if !g.odd.is_empty() { return (d(), Case::Trivial); }
        if let Some(res) = res {
            if res.is_ok() != ok { return bad(d(), format!("the command {}, expected it to {}", match res { Ok(_) => "succeeds".to_string(), Err(e) => format!("fails ({})", e) }, if ok { "succeed" } else { "fail" })); }
            if commit { applied[i] = cur; done[i] = stm; worked = true; }
        }
        for j in 0..ps.len() {
            let db = g.dbs.get(&format!("db{}", j)).cloned().unwrap_or_default();
            if db.log != done[j] { return bad(d(), format!("statements committed in database {}: {:?}\nexpected {:?}", j, db.log, done[j])); }
            let rows = db.tables.get(&format!("{}\0version", ps[j].meta)).cloned().unwrap_or_default();
            let mut rows: Vec<VRow> = rows;
            rows.sort_by_key(|x| x.order);
            if applied[j].is_empty() { if rows.len() > 1 || rows.iter().any(|x| x.name != "init") { return bad(d(), format!("versions recorded in database {}: {:?}", j, rows)); } continue; }
            if rows.len() != applied[j].len() { return bad(d(), format!("versions recorded in database {}: {:?}\nexpected {:?}", j, rows, applied[j])); }
            for (a, b) in rows.iter().zip(&applied[j]) {
                if a.name != b.name || a.previous != b.prev || a.up != b.up || a.down != b.down || serde_json::from_str::<Value>(&a.changes).ok() != Some(b.changes.clone()) { return bad(d(), format!("database {} records {:?}\ninstead of {:?}", j, a, b)); }
            }
        }
        drop(g);
        if tree(&dir.0) != files { return bad(d(), "files of the project change"); }
    }
    (format!("history {:?}\n{}", hist, log.join("\n")), if worked { Case::Ok } else { Case::Trivial })
}

pub fn find(id: &str) -> Option<Prop> {
    Some(match id {
        "C11" => Prop { run: c11, fixed: 0, rule: "random version files (chains, gaps, cycles, several roots) and random pairs of ends, against walking back in a map; non-trivial unless the range is empty", known: None },
        "C12" => Prop { run: c12, fixed: 0, rule: "random directories of version files (chains, branches, cycles) among other files and directories; non-trivial with two versions or more", known: None },
        "C13" => Prop { run: c13, fixed: 0, rule: "random sequences of definition edits and stage, make, reset commands over one to three profiles, and init in various places, against the files before; every case counts", known: None },
        "C17" => Prop { run: c17, fixed: 0, rule: "random histories of random changes (some not applicable), against an independent step function; every case counts", known: None },
        "C19" => Prop { run: c19, fixed: 0, rule: "random sequences of up, down and status over one to three profiles and databases, with rejected statements, against a model of what each database holds; non-trivial when something was committed", known: None },
        _ => return None,
    })
}
