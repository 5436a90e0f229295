//! Explorer for project discovery and profile resolution.
use crate::project::*;
use crate::vcommon::*;
use crate::ventry::Prop;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir { let p = PathBuf::from(std::env::var("VH_SCRATCH").expect("VH_SCRATCH")).join("case"); let _ = std::fs::remove_dir_all(&p); std::fs::create_dir_all(&p).unwrap(); Dir(p) }
}
impl Drop for Dir { fn drop(&mut self) { let _ = std::env::set_current_dir("/"); let _ = std::fs::remove_dir_all(&self.0); } }

/// environment variables in a text: $NAME or ${NAME}, missing ones are empty, everything else stays
fn expand(s: &str, env: &BTreeMap<String, String>) -> String {
    let c: Vec<char> = s.chars().collect();
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '$' {
            let b = i + 1 < c.len() && c[i + 1] == '{';
            let from = if b { i + 2 } else { i + 1 };
            let mut j = from;
            while j < c.len() && word(c[j]) { j += 1; }
            if j > from && (!b || (j < c.len() && c[j] == '}')) {
                out += env.get(&c[from..j].iter().collect::<String>()).map(|x| x.as_str()).unwrap_or("");
                i = if b { j + 1 } else { j };
                continue;
            }
        }
        out.push(c[i]);
        i += 1;
    }
    out
}
const VARS: [&str; 5] = ["VHX", "VHX_A", "VHX2", "vhx", "VHX_UNSET"];
fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.n(5) {
        let v = r.pick(&VARS).to_string();
        match r.n(9) { 0 => s += &format!("${}", v), 1 | 2 => s += &format!("${{{}}}", v), 3 => s += "$", 4 => s += "${", 5 => s += "}", 6 => s += " x-y/", 7 => s += "ü{}", _ => s += r.pick(&["db", "/abs", "a/b", "postgres://u:p@h/d?x=1", "$$"]) }
    }
    s
}
type P = (String, String, String, String);
fn profiles(r: &mut Rng) -> BTreeMap<String, P> {
    let mut m = BTreeMap::new();
    for n in ["database", "Database", "test", "te st", "", "$VHX"] { if r.b() { m.insert(n.to_string(), (text(r), text(r), text(r), if r.one(3) { text(r) } else { "podo_meta".into() })); } }
    m
}
fn put(at: &Path, m: &BTreeMap<String, P>) {
    let ps: serde_json::Map<String, serde_json::Value> = m.iter().map(|(n, p)| (n.clone(), serde_json::json!({"database_url": p.0, "history": p.1, "definitions": p.2, "metadata_schema": p.3}))).collect();
    std::fs::write(at.join(".podo.yaml"), serde_yaml::to_string(&serde_json::json!({ "profiles": ps })).unwrap()).unwrap();
}
fn c16(r: &mut Rng, k: u64) -> (String, Case) {
    let dir = Dir::new();
    let levels = ["", "a", "a/b", "a/b/c"];
    std::fs::create_dir_all(dir.0.join("a/b/c")).unwrap();
    let mut env = BTreeMap::new();
    for v in &VARS[..4] { let x = if r.one(4) { "".to_string() } else { r.pick(&["val", "x y", "/abs/dir", "$VHX_A", "rel/dir", "${VHX}"]).to_string() }; if r.one(5) { std::env::remove_var(v); } else { std::env::set_var(v, &x); env.insert(v.to_string(), x); } }
    let mut files: BTreeMap<usize, BTreeMap<String, P>> = BTreeMap::new();
    for l in 0..levels.len() { if r.one(3) { let m = profiles(r); put(&dir.0.join(levels[l]), &m); files.insert(l, m); } }
    let at = r.n(levels.len());
    let start = if at == 0 { dir.0.clone() } else { dir.0.join(levels[at]) };
    let d = format!("env {:?}, project files {:?}, from {:?}", env, files.iter().map(|(l, m)| (levels[*l], m)).collect::<Vec<_>>(), levels[at]);
    let want = (0..=at).rev().find_map(|l| files.get(&l).map(|m| (l, m)));
    let got = discover_project(start);
    let bad = |m: String| (d.clone(), Case::Bad(m));
    match (want, got) {
        (None, Err(ProjectError::ProjectNotFound { .. })) => (d, Case::Trivial),
        (None, Err(e)) => bad(format!("no project there, but the error is: {}", e)),
        (None, Ok(_)) => bad("a project is found where there is none".into()),
        (Some(_), Err(e)) => bad(format!("the project is not read: {}", e)),
        (Some((l, m)), Ok(p)) => {
            let base = if l == 0 { dir.0.clone() } else { dir.0.join(levels[l]) };
            if p.base_dir != base { return bad(format!("the project is taken from {:?}", p.base_dir)); }
            for n in ["database", "Database", "test", "te st", "", "$VHX", "nope"] {
                let got = (p.resolve_database_url(n), p.resolve_history_dir(n), p.resolve_definitions_dir(n), p.resolve_metadata_schema(n));
                match (m.get(n), got) {
                    (Some(w), (Ok(a), Ok(b), Ok(c), Ok(e))) => {
                        let want = (expand(&w.0, &env), base.join(expand(&w.1, &env)), base.join(expand(&w.2, &env)), w.3.clone());
                        if (a.clone(), b.clone(), c.clone(), e.clone()) != want { return bad(format!("profile {:?} is {:?}, expected {:?}", n, (a, b, c, e), want)); }
                    }
                    (None, (Err(_), Err(_), Err(_), Err(_))) => {}
                    (w, (a, b, c, e)) => return bad(format!("profile {:?}: found {}, but expected {}", n, a.is_ok() || b.is_ok() || c.is_ok() || e.is_ok(), w.is_some())),
                }
            }
            match (m.get("database"), p.resolve_default_history_dir(), p.resolve_default_definitions_dir()) {
                (Some(w), Ok(a), Ok(b)) if a == base.join(expand(&w.1, &env)) && b == base.join(expand(&w.2, &env)) => {}
                (None, Err(_), Err(_)) => {}
                (_, a, b) => return bad(format!("the default directories are {:?} {:?}", a.ok(), b.ok())),
            }
            (d, if m.is_empty() { Case::Trivial } else { Case::Ok })
        }
    }
}
pub fn find(id: &str) -> Option<Prop> {
    Some(match id {
        "C16" => Prop { run: c16, fixed: 0, rule: "random project files at up to four directory levels, random environment, all profile names; against an independent expansion; non-trivial when a project with profiles is found", known: None },
        _ => return None,
    })
}
