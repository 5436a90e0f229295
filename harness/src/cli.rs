//! Explorer for the command line: the process run with its arguments, against the command called directly
//! on the same files and databases.
use crate::pgstub::{self, Dbs, VRow};
use crate::vcommon::*;
use crate::ventry::Prop;
use crate::vhist::*;
use crate::vsnap;
use serde_json::json;
use std::collections::BTreeMap;
use std::path::Path;

pub fn find(id: &str) -> Option<Prop> {
    match id {
        "C21" => Some(Prop { run: c21, fixed: 0, rule: "random commands with random options (given, with =, in either order, left out, unknown) run as a process, against the command called directly on the same files and databases; non-trivial unless nothing happens at all", known: Some(known) }),
        _ => None,
    }
}
const COMMANDS: [&str; 8] = ["init", "status", "stage", "reset", "make", "up", "down", "clone"];
fn podo(args: &[String]) -> (Option<i32>, String, String) { call("VH_AS_PODO", args) }
/// the command itself: exit status 0 if it succeeds, and 77 and the failure on standard error if not
pub fn direct() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let (p, v) = (a.get(1).map(|s| &s[..]).unwrap_or(""), a.get(2).map(|s| &s[..]));
    let res = match &a[0][..] {
        "init" => crate::cmd::init(), "status" => crate::cmd::status(p), "stage" => crate::cmd::stage(p), "reset" => crate::cmd::reset(p), "make" => crate::cmd::make(p, v),
        "up" => crate::cmd::up(p, v), "down" => crate::cmd::down(p, v), "clone" => crate::cmd::clone(p), _ => unreachable!(),
    };
    if let Err(e) = res { eprintln!("{}", e); std::process::exit(77) }
}
fn call(how: &str, args: &[String]) -> (Option<i32>, String, String) {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).env(how, "1").env("NO_COLOR", "1").env_remove("CLICOLOR_FORCE").args(args).output().unwrap();
    (o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned())
}
/// what is compared: files and texts with their lines in order, and without the time of day
fn plain(b: &[u8]) -> Vec<String> {
    static RE: std::sync::OnceLock<regex::Regex> = std::sync::OnceLock::new();
    let re = RE.get_or_init(|| regex::Regex::new(r"[0-9]{8}_[0-9]{6}").unwrap());
    let s = String::from_utf8_lossy(b).into_owned();
    let mut v: Vec<String> = re.replace_all(&s, "T").lines().map(|x| x.trim_start_matches(|c| c == '-' || c == ' ').to_string()).collect();
    v.sort();
    v
}
fn files(p: &Path) -> BTreeMap<String, Vec<String>> { tree(p).iter().map(|(k, v)| (plain(k.strip_prefix(p).unwrap().to_str().unwrap().as_bytes()).join("\n"), plain(v))).collect() }
fn world(d: &BTreeMap<String, Dbs>) -> String { format!("{:?}", d.iter().filter(|(_, v)| !v.tables.is_empty() || !v.log.is_empty()).map(|(k, v)| (k.clone(), v.tables.clone(), v.log.clone())).collect::<Vec<_>>()) }

/// the project and the databases of a case
fn setup(root: &Path, r: &mut Rng) -> Vec<Prof> {
    let _ = std::env::set_current_dir(scratch());
    let _ = std::fs::remove_dir_all(root);
    std::fs::create_dir_all(root.join("in/side")).unwrap();
    let (port, w) = stub();
    { let mut g = w.lock().unwrap(); g.dbs.clear(); g.odd.clear(); g.canned.clear(); g.canned_db = None; }
    let mut ps = profs(r, port);
    if r.one(4) { let n = ps.len(); ps[0].name = "local".into(); if n > 1 && r.b() { ps[n - 1].name = "database".into(); } }
    if r.one(8) { return vec![]; }
    put_project(root, &ps);
    let init = json!([{"type": "CreateSchemaChange", "change": {"schema_name": "public"}}]);
    for (i, p) in ps.iter().enumerate() {
        let h = root.join(&p.hist);
        let mut cur: Db = play(init.as_array().unwrap(), &Db::new()).unwrap();
        put_yaml(&h.join("init.yaml"), &ver("init", None, init.clone(), vec!["CREATE SCHEMA public;".into()], vec!["DROP SCHEMA public;".into()]));
        let mut vs: Vec<VRow> = vec![VRow { name: "init".into(), previous: None, changes: init.to_string(), up: vec![], down: vec![], order: 1 }];
        for j in 0..r.n(4) {
            let n = ["database", "v1", "x y"][j].to_string();
            let s = |k: &str| vec![format!("{} {} {} {}", pgstub::MARK, p.name, n, k)];
            put_yaml(&h.join(format!("{}.yaml", n)), &ver(&n, Some(&vs[j].name), json!([]), s("up"), s("down")));
            vs.push(VRow { name: n.clone(), previous: Some(vs[j].name.clone()), changes: "[]".into(), up: s("up"), down: s("down"), order: j as i32 + 2 });
        }
        let staged = if r.b() { let next = small_db(r); let c = diff_json(&cur, &next, r); cur = next; c } else { vec![] };
        put_yaml(&h.join("stage.yaml"), &ver("stage", vs.last().map(|v| &v.name[..]), json!(staged), if staged.is_empty() { vec![] } else { vec!["-- staged".into()] }, vec![]));
        let defs = if r.b() { cur.clone() } else { small_db(r) };
        crate::definition::save_snapshot(&root.join(&p.defs).join("public.yaml"), &vsnap::real(&defs, r)).unwrap();
        let at = r.n(vs.len() + 1);
        if at > 0 {
            let mut d = Dbs::default();
            d.schemas.insert(p.meta.clone());
            d.serial = 50;
            d.tables.insert(format!("{}\0version", p.meta), vs[..at].to_vec());
            w.lock().unwrap().dbs.insert(format!("db{}", i), d);
        }
    }
    ps
}
fn now() -> BTreeMap<String, Dbs> { let (_, w) = stub(); let g = w.lock().unwrap(); g.dbs.iter().map(|(k, v)| (k.clone(), v.clone())).collect() }
fn odd() -> bool { let (_, w) = stub(); let g = w.lock().unwrap(); !g.odd.is_empty() }

fn c21(r: &mut Rng, k: u64) -> (String, Case) {
    let dir = Dir::new();
    let root = dir.0.join("project");
    let seed = r.next();
    let ps = setup(&root, &mut Rng::new(seed));
    let name = *r.pick(&["init", "status", "stage", "stage", "reset", "make", "make", "up", "up", "down", "down", "clone", "", "frobnicate", "res", "mak", "Make", "in", "sta"]);
    let takes = |o: &str| match o { "profile" => COMMANDS[1..].contains(&name), _ => ["make", "up", "down"].contains(&name) };
    let profile = if r.one(3) { None } else if ps.is_empty() || r.one(6) { Some(r.pick(&["database", "local", "nobody", "v1", "it's -- odd", " database", "Database", ""]).to_string()) } else { Some(r.pick(&ps).name.clone()) };
    let version = if r.b() { None } else { Some(r.pick(&["init", "v1", "database", "x y", "missing", "ü", "v1.yaml", " v1 ", "V1", ""]).to_string()) };
    let mut args: Vec<String> = vec![];
    if !name.is_empty() { args.push(name.into()); }
    let mut opts: Vec<(&str, Option<String>)> = vec![("profile", profile.clone()), ("version", version.clone())];
    if r.b() { opts.reverse(); }
    let mut wrong = !COMMANDS.contains(&name);
    let (mut p0, mut v0) = (None, None);
    for (o, v) in opts {
        let Some(v) = v else { continue };
        if !takes(o) { if !r.one(8) { continue; } wrong = true; }
        // an option cut short is not one of the options
        let o2 = if r.one(20) { wrong = true; &o[..4] } else { o };
        if r.b() { args.push(format!("--{}={}", o2, v)); } else { args.push(format!("--{}", o2)); args.push(v.clone()); }
        if o == "profile" { p0 = Some(v) } else { v0 = Some(v) }
    }
    if r.one(25) { args.push("surplus".into()); wrong = true; }
    let at = if r.b() { root.clone() } else { root.join("in/side") };
    let d = format!("profiles {:?}\npodo {:?}", ps.iter().map(|p| (&p.name, &p.hist, &p.url)).collect::<Vec<_>>(), args);
    std::env::set_current_dir(&at).unwrap();
    let (f0, w0) = (files(&root), world(&now()));
    let (code, out, err) = podo(&args);
    let (f1, w1) = (files(&root), world(&now()));
    if odd() { return (d, Case::Trivial); }
    if wrong {
        // asking the program for its version is a command line of its own
        let asks = name.is_empty() && args.iter().any(|a| a.starts_with("--version"));
        if code == Some(0) && !asks { return bad(d, "a command line which is not one is accepted"); }
        if f1 != f0 || w1 != w0 { return bad(d, "a command line which is not one changes something"); }
        if err.is_empty() && out.is_empty() { return bad(d, "a command line which is not one is refused in silence"); }
        return (d, Case::Ok);
    }
    // the same directly
    setup(&root, &mut Rng::new(seed));
    std::env::set_current_dir(&at).unwrap();
    let mut direct = vec![name.to_string(), p0.clone().unwrap_or("database".into())];
    direct.extend(v0.clone());
    let (code2, out2, err2) = call("VH_AS_COMMAND", &direct);
    let (f2, w2) = (files(&root), world(&now()));
    if odd() { return (d, Case::Trivial); }
    let first = |a: &BTreeMap<String, Vec<String>>, b: &BTreeMap<String, Vec<String>>| a.keys().chain(b.keys()).find(|k| a.get(*k) != b.get(*k)).map(|k| (k.clone(), a.get(k).cloned(), b.get(k).cloned()));
    if let Some(x) = first(&f1, &f2) { return bad(d, format!("the files differ from those the command leaves: {:?}", x)); }
    if w1 != w2 { return bad(d, format!("the databases hold {}\nthe command leaves {}", w1, w2)); }
    if plain(out.as_bytes()) != plain(out2.as_bytes()) { return bad(d, format!("it prints {:?}\nthe command prints {:?}", out, out2)); }
    match code2 {
        Some(0) => {
            if code != Some(0) { return bad(d, format!("the exit status is {:?} although nothing went wrong: {}", code, err)); }
            if !err.is_empty() { return bad(d, format!("reported although nothing went wrong: {}", err)); }
        }
        Some(77) => {
            if !matches!(code, Some(c) if c != 0 && c != 101) { return bad(d, format!("the exit status is {:?} although the command fails: {}", code, err2)); }
            if plain(err.as_bytes()) != plain(err2.as_bytes()) { return bad(d, format!("the failure is reported as {:?}\nit is {:?}", err, err2)); }
        }
        // what a panicking command leaves behind is another property's concern
        _ => if code == Some(0) { return bad(d, format!("the exit status is 0 although the command ends abnormally: {}", err2)) },
    }
    (d, if f1 == f0 && w1 == w0 && out.is_empty() && err.is_empty() { Case::Trivial } else { Case::Ok })
}

/// the commands offered which are not written yet
fn known() -> Vec<(String, Option<String>)> {
    let dir = Dir::new();
    let root = dir.0.join("project");
    let mut v = vec![];
    let mut r = Rng::new(7);
    while setup(&root, &mut r).is_empty() { }
    std::env::set_current_dir(&root).unwrap();
    for c in ["print", "sync"] {
        let code = podo(&[c.to_string()]).0;
        let listed = podo(&["--help".to_string()]).1.lines().any(|l| l.trim_start().starts_with(&format!("{} ", c)));
        v.push((c.to_string(), if listed && code == Some(101) { Some(format!("`podo {}` is offered by --help and panics", c)) } else { None }));
    }
    v
}
