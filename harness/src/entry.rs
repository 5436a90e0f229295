//! vh PROPERTY SEED MILLIS OUT.json [CASE]: explores the property on the real
//! code and writes what it covered; exit 0 nothing wrong, 1 counterexample.
use crate::vcommon::{Case, Rng};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::time::{Duration, Instant};

pub struct Prop {
    /// one case from one random stream; the first string describes the case
    pub run: fn(&mut Rng, u64) -> (String, Case),
    /// how many leading cases are systematic rather than random
    pub fixed: u64,
    pub rule: &'static str,
    pub known: Option<fn() -> Vec<(String, Option<String>)>>,
}

fn find(id: &str) -> Option<Prop> {
    #[cfg(feature = "snap")]
    if let Some(p) = crate::vsnap::find(id) { return Some(p); }
    #[cfg(feature = "sql")]
    if let Some(p) = crate::vsql::find(id) { return Some(p); }
    #[cfg(feature = "hist")]
    if let Some(p) = crate::vhist::find(id) { return Some(p); }
    #[cfg(feature = "defn")]
    if let Some(p) = crate::vdefn::find(id) { return Some(p); }
    #[cfg(feature = "proj")]
    if let Some(p) = crate::vproj::find(id) { return Some(p); }
    #[cfg(feature = "intro")]
    if let Some(p) = crate::vintro::find(id) { return Some(p); }
    #[cfg(feature = "rep")]
    if let Some(p) = crate::vrep::find(id) { return Some(p); }
    #[cfg(feature = "cli")]
    if let Some(p) = crate::vcli::find(id) { return Some(p); }
    let _ = id;
    None
}

pub fn guarded(p: &Prop, r: &mut Rng, k: u64) -> (String, Case) {
    let run = p.run;
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(r, k))) {
        Ok(x) => x,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            (format!("case {}", k), Case::Bad(format!("panicked: {}", m)))
        }
    }
}

pub fn main() {
    // the command line of the real program
    if std::env::var_os("VH_AS_PODO").is_some() { return crate::podo_main(); }
    #[cfg(feature = "cli")]
    if std::env::var_os("VH_AS_COMMAND").is_some() { return crate::vcli::direct(); }
    let a: Vec<String> = std::env::args().collect();
    let (id, seed, ms, out) = (&a[1], a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), &a[4]);
    let only = a.get(5).map(|s| s.parse::<u64>().unwrap());
    let p = match find(id) { Some(p) => p, None => { eprintln!("no explorer for {}", id); std::process::exit(2) } };
    std::panic::set_hook(Box::new(|_| {}));
    let end = Instant::now() + Duration::from_millis(ms);
    let (mut n, mut k) = (0u64, only.unwrap_or(0));
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut bad: Option<(u64, String, String)> = None;
    loop {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k));
        let (d, c) = guarded(&p, &mut r, k);
        n += 1;
        match c {
            Case::Bad(m) => { bad = Some((k, d, m)); break; }
            Case::Trivial => {}
            Case::Ok => {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                d.hash(&mut h);
                if seen.len() < 2_000_000 { seen.insert(h.finish()); }
                if samples.len() < 3 && n % 7 == 3 { samples.push(d.chars().take(600).collect()); }
            }
        }
        k += 1;
        if only.is_some() || (k >= p.fixed && Instant::now() >= end) { break; }
    }
    // known findings: (name, what fails if it still fails)
    let known: Vec<(String, Option<String>)> = match p.known { Some(f) if only.is_none() => f(), _ => vec![] };
    let js = serde_json::json!({
        "property": id, "seed": seed, "evaluations": n, "distinct_nontrivial": seen.len(), "rule": p.rule, "samples": samples,
        "known": known.iter().map(|(a, b)| serde_json::json!({"id": a, "fails": b})).collect::<Vec<_>>(),
        "bad": bad.as_ref().map(|(k, d, m)| serde_json::json!({"case": k, "input": d.chars().take(20000).collect::<String>(), "what": m.chars().take(8000).collect::<String>()})),
    });
    std::fs::write(out, serde_json::to_string_pretty(&js).unwrap()).unwrap();
    std::process::exit(if bad.is_some() { 1 } else { 0 });
}
