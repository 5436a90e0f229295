
// ---- appended by /verif/lib/harness: entry point of the explorer ----
#[allow(dead_code, unused_imports, unused_variables)]
#[path = "/verif/harness/src/common.rs"]
mod vcommon;
#[cfg(any(feature = "hist", feature = "intro", feature = "sql", feature = "rep", feature = "cli"))]
#[allow(dead_code, unused_imports, unused_variables)]
#[path = "/verif/harness/src/pgstub.rs"]
mod pgstub;
#[cfg(any(feature = "snap", feature = "hist", feature = "sql", feature = "defn", feature = "intro", feature = "rep", feature = "cli"))]
#[allow(dead_code, unused_imports, unused_variables)]
#[path = "/verif/harness/src/snap.rs"]
mod vsnap;
#[cfg(feature = "sql")]
#[allow(dead_code, unused_imports, unused_variables)]
#[path = "/verif/harness/src/sql.rs"]
mod vsql;
#[cfg(any(feature = "hist", feature = "sql", feature = "rep", feature = "cli"))]
#[allow(dead_code, unused_imports, unused_variables)]
#[path = "/verif/harness/src/hist.rs"]
mod vhist;
#[cfg(feature = "defn")]
#[allow(dead_code, unused_imports, unused_variables)]
#[path = "/verif/harness/src/defn.rs"]
mod vdefn;
#[cfg(feature = "proj")]
#[allow(dead_code, unused_imports, unused_variables)]
#[path = "/verif/harness/src/proj.rs"]
mod vproj;
#[cfg(any(feature = "intro", feature = "rep"))]
#[allow(dead_code, unused_imports, unused_variables)]
#[path = "/verif/harness/src/intro.rs"]
mod vintro;

#[cfg(feature = "rep")]
#[allow(dead_code, unused_imports, unused_variables)]
#[path = "/verif/harness/src/rep.rs"]
mod vrep;

#[cfg(feature = "cli")]
#[allow(dead_code, unused_imports, unused_variables)]
#[path = "/verif/harness/src/cli.rs"]
mod vcli;

#[path = "/verif/harness/src/entry.rs"]
mod ventry;
fn main() { ventry::main() }
