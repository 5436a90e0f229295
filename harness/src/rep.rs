//! Explorer for the commands which report: `status` against a stub database, its output taken from the
//! process; `clone` from canned catalog rows, its file read back.
use crate::pgstub::{Dbs, VRow};
use crate::snapshot::compare_diff;
use crate::vcommon::*;
use crate::ventry::Prop;
use crate::vhist::*;
use crate::{vintro, vsnap};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn find(id: &str) -> Option<Prop> {
    match id {
        "C20" => Some(Prop { run: c20, fixed: 0, rule: "status (its output) over one to three profiles with random histories, stages, definitions and recorded versions; clone from random catalog rows (its file, read back); every case counts", known: None }),
        _ => None,
    }
}
fn podo(args: &[&str]) -> (bool, String, String) {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).env("VH_AS_PODO", "1").env("NO_COLOR", "1").env_remove("CLICOLOR_FORCE").args(args).output().unwrap();
    (o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned())
}
fn sorted(s: &str) -> Vec<String> { let mut v: Vec<String> = s.lines().map(|x| x.trim_end_matches(',').to_string()).collect(); v.sort(); v }

fn c20(r: &mut Rng, k: u64) -> (String, Case) { if r.one(3) { clone(r) } else { status(r) } }

fn status(r: &mut Rng) -> (String, Case) {
    let dir = Dir::new();
    let (port, w) = stub();
    { let mut g = w.lock().unwrap(); g.dbs.clear(); g.odd.clear(); g.canned.clear(); g.canned_db = None; }
    let mut ps = profs(r, port);
    if r.one(6) { let i = r.n(ps.len()); ps[i].url = "postgresql://u@127.0.0.1:1/none".into(); }
    put_project(&dir.0, &ps);
    let init = json!([{"type": "CreateSchemaChange", "change": {"schema_name": "public"}}]);
    let mut log = vec![];
    let mut want: Vec<(Option<String>, Vec<Value>, Db, Db)> = vec![];
    for (i, p) in ps.iter().enumerate() {
        let (h, f) = (dir.0.join(&p.hist), dir.0.join(&p.defs));
        let mut cur: Db = play(init.as_array().unwrap(), &Db::new()).unwrap();
        let mut names = vec!["init".to_string()];
        put_yaml(&h.join("init.yaml"), &ver("init", None, init.clone(), vec![], vec![]));
        for j in 0..r.n(3) {
            let n = format!("2023010{}_00000{}-{}", r.n(9), j, r.pick(&["auto", "x", "It's"]));
            let next = small_db(r);
            let cs = diff_json(&cur, &next, r);
            put_yaml(&h.join(format!("{}.yaml", n)), &ver(&n, names.last().map(|x| x.as_str()), json!(cs), vec![], vec![]));
            names.push(n);
            cur = next;
        }
        let mut staged = vec![];
        if r.b() { let next = small_db(r); staged = diff_json(&cur, &next, r); cur = next; }
        // statements added by hand are not changes
        let (up, down) = (if r.one(4) { vec!["-- by hand".to_string()] } else { vec![] }, vec![]);
        put_yaml(&h.join("stage.yaml"), &ver("stage", names.last().map(|x| x.as_str()), json!(staged), up, down));
        let defs = if r.b() { cur.clone() } else { small_db(r) };
        crate::definition::save_snapshot(&f.join("public.yaml"), &vsnap::real(&defs, r)).unwrap();
        // what the database records
        let at = r.n(names.len() + 1);
        let mut d = Dbs::default();
        if at > 0 {
            d.schemas.insert(p.meta.clone());
            let mut rows: Vec<VRow> = (0..at).map(|j| VRow { name: names[j].clone(), previous: if j == 0 { None } else { Some(names[j - 1].clone()) }, changes: "[]".into(), up: vec![], down: vec![], order: 3 * j as i32 + 1 }).collect();
            for i in (1..rows.len()).rev() { let j = r.n(i + 1); rows.swap(i, j); }
            d.serial = 100;
            d.tables.insert(format!("{}\0version", p.meta), rows);
        }
        w.lock().unwrap().dbs.insert(format!("db{}", i), d);
        let name = if p.url.ends_with("none") { None } else if at > 0 { Some(names[at - 1].clone()) } else { Some(crate::history::DBHistoryError::NotInitialized.to_string()) };
        log.push(format!("[{}] versions {:?}, staged {}, schema with the stage {:?}, definitions {:?}, the database at {:?}", p.name, names, json!(staged), cur, defs, name));
        want.push((name, staged, cur, defs));
    }
    std::env::set_current_dir(&dir.0).unwrap();
    let (files, dbs) = (tree(&dir.0), format!("{:?}", w.lock().unwrap().dbs.iter().map(|(k, v)| (k.clone(), (v.tables.clone(), v.log.clone()))).collect::<BTreeMap<_, _>>()));
    let i = r.n(ps.len());
    let p = &ps[i];
    let (name, staged, src, dst) = &want[i];
    let d = format!("{}\nstatus --profile {:?}", log.join("\n"), p.name);
    let (ok, out, err) = podo(&["status", "--profile", &p.name]);
    if !w.lock().unwrap().odd.is_empty() { return (d, Case::Trivial); }
    let now = format!("{:?}", w.lock().unwrap().dbs.iter().map(|(k, v)| (k.clone(), (v.tables.clone(), v.log.clone()))).collect::<BTreeMap<_, _>>());
    if now != dbs { return bad(d, format!("status changes a database: {}
was {}", now, dbs)); }
    if !ok { return bad(d, format!("status fails: {}", err)); }
    if tree(&dir.0) != files { return bad(d, "status changes files"); }
    let head = "On database version: ";
    let (first, mut rest) = match out.split_once('\n') { Some(x) => x, None => return bad(d, format!("status prints {:?}", out)) };
    if !first.starts_with(head) || name.as_ref().map_or(first.len() <= head.len(), |n| first[head.len()..] != **n) { return bad(d, format!("status says {:?}, but the database is at {:?}", first, name)); }
    let sec = |h: &str, cs: &[String]| if cs.is_empty() { String::new() } else { format!("{}\n{}", h, cs.iter().map(|c| format!("    {}\n", c)).collect::<String>()) };
    let st = sec("Changes staged:", &staged.iter().map(|c| change(c).render_sql()).collect::<Vec<_>>());
    match rest.strip_prefix(&st[..]) { Some(x) => rest = x, None => return bad(d, format!("status prints\n{}\nwhere the staged changes are\n{}", out, st)) }
    let others: Vec<String> = compare_diff(&vsnap::real(src, r), &vsnap::real(dst, r)).iter().map(|c| c.render_sql()).collect();
    let mut ot = sec("Changes not staged:", &others);
    if staged.is_empty() && others.is_empty() { ot = "No changes.\n".into(); }
    if sorted(rest) != sorted(&ot) { return bad(d, format!("status prints\n{}\nwhere the changes not staged are\n{}", out, ot)); }
    if same(src, dst) != rest.lines().all(|l| l == "No changes.") { return bad(d, format!("status prints\n{}", out)); }
    (d, Case::Ok)
}

fn clone(r: &mut Rng) -> (String, Case) {
    let dir = Dir::new();
    let (port, w) = stub();
    let ps = profs(r, port);
    put_project(&dir.0, &ps);
    std::env::set_current_dir(&dir.0).unwrap();
    let mut db = small_db(r);
    if r.one(6) { db.clear(); }
    for s in db.values_mut() {
        s.rels.retain(|_, v| !matches!(v, Rel::Vw(_)));
        if r.b() { s.rels.insert("sq".into(), Rel::Sq(Seq { dt: "int8".into(), inc: 1, min: 1, max: i64::MAX, start: r.n(5) as i64 + 1, cache: 1, cycle: r.b(), ot: None, oc: None })); }
        if r.b() { s.funs.insert("fn".into(), Fun { body: "select 1".into(), lang: "SQL".into(), ret: "void".into(), vol: r.pick(&["VOLATILE", "STABLE"]).to_string() }); }
    }
    let mut all = db.clone();
    if r.b() { let mut s = small_db(r).remove("public").unwrap(); s.rels.retain(|_, v| !matches!(v, Rel::Vw(_))); all.insert(r.pick(&["other", "Public", "pg_catalog"]).to_string(), s); }
    let i = r.n(ps.len());
    let p = &ps[i];
    let mut c = vintro::rows(&all, r);
    let reject = r.one(5);
    if reject { let j = r.n(c.len()); c[j].reject = true; }
    { let mut g = w.lock().unwrap(); g.dbs.clear(); g.odd.clear(); g.canned = c; g.canned_db = Some(format!("db{}", i)); }
    let f = dir.0.join(&p.defs).join("public.yaml");
    // a definition file from before is replaced
    if r.b() { let old = small_db(r); crate::definition::save_snapshot(&f, &vsnap::real(&old, r)).unwrap(); }
    let files = tree(&dir.0);
    let d = format!("clone --profile {:?} of {:?}{}", p.name, all, if reject { ", a query rejected" } else { "" });
    let (ok, err) = if r.one(3) { let (ok, _, e) = podo(&["clone", "--profile", &p.name]); (ok, e) } else { match crate::cmd::clone(&p.name) { Ok(()) => (true, String::new()), Err(e) => (false, e.to_string()) } };
    let after = tree(&dir.0);
    { let mut g = w.lock().unwrap(); g.canned.clear(); g.canned_db = None; }
    if ok == reject { return bad(d, format!("clone {}", if ok { "succeeds".to_string() } else { format!("fails: {}", err) })); }
    for k in files.keys().chain(after.keys()) { if (reject || *k != f) && files.get(k) != after.get(k) { return bad(d, format!("clone changes {:?}", k)); } }
    if reject { return (d, Case::Ok); }
    let text = match std::fs::read_to_string(&f) { Ok(t) => t, Err(e) => return bad(d, format!("public.yaml cannot be read: {}", e)) };
    match crate::definition::load_yaml_string(&text) {
        Ok(x) => { let m = vsnap::model(&x); if !same(&m, &db) { return bad(d, format!("public.yaml holds {:?}\nthe database {:?}", m, db)); } }
        Err(e) => return bad(d, format!("public.yaml cannot be loaded: {}\n{}", e, text)),
    }
    (d, Case::Ok)
}
