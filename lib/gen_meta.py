#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one place, so that they stay in step."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, quant, tests, files, mech, state=(), observe=(), level_note="", technique=None, theorems=(), na=None):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech, state=state,
                observe=observe, level_note=level_note, technique=technique, theorems=list(theorems), na=na)


ALL = [
P("C01", "Applying the computed diff always reaches the target",
  "For any two well-formed schema snapshots, the list of changes computed between them can be applied to the first one in order without any change being rejected, and the result equals the second one in every object and every attribute (column order aside). "
  "A snapshot is well formed when every object is stored under its own name, column names are unique, every index belongs to a table of its schema, and no sequence is owned by a column.",
  ["inputs", "programs"], "every pair of well-formed snapshots: any number of schemas, tables, columns, constraints, indexes, sequences, views and functions, and any iteration order of the maps holding them",
  "The tests compare a few hand-written pairs, one object kind at a time, and mostly assert the change list itself; they never mix kinds, replace an object by one of another kind under the same name, or vary map order.",
  ["src/snapshot/diff.rs", "src/snapshot/changes/"],
  [("comparison of databases, schemas, tables, columns and constraints", "src/snapshot/diff.rs"), ("application of changes", "src/snapshot/changes/*/*_change.rs apply"), ("order of emitted changes (indexes before and after tables)", "src/snapshot/diff.rs")],
  observe=["the change list of the diff and the snapshot after applying it"],
  technique="deductive verification with Verus contracts on the extracted diff and apply code",
  theorems=["diff::compare_diff"],
  level_note="Proved for all snapshots: the postcondition of the comparison says that folding its changes over the source gives the target. Assumes the library contracts of the shim, well-formed inputs, and compares abstract values (maps), so column order is not covered."),
P("C02", "Reverting a change, or a whole diff backwards, restores the previous state",
  "For every change that can be applied to a well-formed snapshot and discards nothing a single change cannot bring back (dropping a non-empty schema, a table that still has constraints, an index whose table is missing, or an owned sequence does), its reversal computed before applying it can be applied afterwards and restores exactly the snapshot before it. "
  "Consequently the reversals of the changes of a diff, each computed just before its change is applied, lead back from target to source when applied in reverse order.",
  ["inputs", "programs", "histories"], "every kind of change, every well-formed snapshot it applies to, and every change list a diff computes",
  "The tests revert the changes of a few hand-written diffs; most change kinds are never reverted against a snapshot where their attributes differ from the defaults, and renaming is not reverted at all.",
  ["src/snapshot/changes/", "src/snapshot/diff.rs", "src/cmd/stage.rs"],
  [("reversal of every kind of change", "src/snapshot/changes/*/*_change.rs revert"), ("dispatch", "src/snapshot/changes/mod.rs")],
  observe=["the change returned as reversal, and the snapshot after applying both"],
  technique="deductive verification with Verus contracts on the extracted revert and apply code",
  theorems=["crevert::Change::revert", "dlem::lemma_back"],
  level_note="Proved for all changes and snapshots, and for whole change lists by a lemma over the contracts. Assumes the shim's library contracts; equality is on abstract values (column order aside)."),
P("C03", "The diff is empty exactly when the snapshots are equal",
  "Comparing two well-formed snapshots yields no changes if and only if they are equal in every object and attribute (column order aside); in particular staging twice in a row stages nothing the second time, and no attribute difference is ever overlooked.",
  ["inputs"], "every pair of well-formed snapshots",
  "The tests check that a few equal pairs give no changes; a missed attribute only shows for a pair differing in that attribute alone.",
  ["src/snapshot/diff.rs"],
  [("attribute comparisons per object kind", "src/snapshot/diff.rs")],
  observe=["whether the change list is empty"],
  technique="deductive verification with Verus contracts on the extracted diff code",
  theorems=["diff::compare_diff"],
  level_note="Proved: equal snapshots give the empty list for all well-formed snapshots; an empty list implies equality for snapshots within the precondition of C01. Column order is not compared."),
P("C04", "A change does exactly what it says, or is rejected and changes nothing",
  "Applying any change to any well-formed snapshot either succeeds and produces exactly the described effect on the named object while every other object keeps its value, or is rejected with an error and leaves the snapshot exactly as it was. "
  "It succeeds exactly when the described effect is possible: the schema, table, column or constraint it names exists with the right kind and the name it introduces is free. It never panics and keeps the snapshot well formed.",
  ["inputs", "programs"], "every kind of change with any attribute values, on every well-formed snapshot",
  "The tests apply changes that a diff produced for the snapshot at hand; changes aimed at missing objects, at objects of another kind or at taken names are never tried, and frame conditions are not looked at.",
  ["src/snapshot/changes/", "src/snapshot/types/"],
  [("application of every kind of change", "src/snapshot/changes/*/*_change.rs apply")],
  observe=["result and snapshot after applying a change"],
  technique="deductive verification with Verus contracts on the extracted apply code",
  theorems=["capply::Change::apply"],
  level_note="Proved for all changes and all well-formed snapshots against a step function written per change kind. Assumes the shim's library contracts."),
P("C05", "A snapshot written as definitions reads back as the same snapshot",
  "Every well-formed snapshot which can be written down, saved to a definition file and loaded again, is the same snapshot: every schema, table, column in its order, constraint, index, view, sequence and function with every attribute; also when its objects are spread over several files of a directory tree. "
  "It can be written down when names are not empty and not padded with white space, view queries, unique columns and referenced columns are not empty, column types are trimmed and hold neither = nor !, foreign keys refer to names without dots, indexes belong to tables not beginning with the word delete or update, and a sequence has an owning table only together with a column.",
  ["inputs", "configurations"], "every storable snapshot, whatever its names, texts and numbers, and any iteration order of its maps",
  "The tests render and parse one hand-written definition per kind, at node level, mostly with attributes which differ from the defaults; they never go through YAML text, combine kinds, or use names or texts with unusual characters.",
  ["src/definition/mod.rs", "src/definition/ddl/", "src/definition/base/", "src/definition/defaults.rs"],
  [("writing definitions", "src/definition/ddl/*.rs render_*, src/definition/base/yaml.rs render_*"), ("reading definitions", "src/definition/ddl/*.rs parse_*, src/definition/base/yaml.rs parse_*"), ("files", "src/definition/mod.rs")],
  observe=["the snapshot loaded from what was saved"],
  technique="deductive verification with Verus contracts on the extracted definition code", theorems=["dload::save_snapshot", "dload::load_yaml_string", "dload::load_snpashot", "dtab::render_schema_definition", "dtab::parse_schema_definition"],
  level_note="Proved: the text saved means, under the contract the loader is verified against, exactly the snapshot saved, for all storable snapshots; and a directory means its files' contents merged. Assumes the shim's library contracts, serde_yaml reading back a tidy mapping it wrote, and the contract of the one regular expression."),
P("C06", "A definition key is its longest keyword, and the rest is the name",
  "Every key of a definition file is taken apart into the longest keyword it begins with as a whole word, upper and lower case not distinguished, and the trimmed rest as the name, whatever characters the name holds and whatever keyword it begins like; a key without keyword is an error. "
  "Every definition tree is written as a mapping which reads back as the same tree, in the same order.",
  ["inputs"], "every mapping and every key, and every tree with keyword types, padded-free names and distinct keys",
  "The tests read one small document and look at three names.",
  ["src/definition/base/yaml.rs", "src/definition/base/node.rs"], [("keys and values", "src/definition/base/yaml.rs")],
  observe=["the definitions read from a document"],
  technique="deductive verification with Verus contracts on the extracted YAML code", theorems=["dyaml::create_node_from_mapping_key", "dyaml::parse_mapping_to_nodes", "dyaml::render_nodes_to_mapping", "dyspec::lemma_nodes_back"],
  level_note="Proved for all mappings and trees against an independent statement of the longest whole keyword. Assumes the contracts of serde_yaml's value types and of the text functions in the shim."),
P("C07", "Reading definitions never crashes",
  "Whatever a definition file contains, reading it either yields a snapshot which is well formed, every object stored under its own name exactly once, or reports an error; it never panics and always terminates.",
  ["inputs", "fault_sequences"], "every text of a definition file",
  "The tests only read valid definitions.",
  ["src/definition/"], [("reading definitions", "src/definition/mod.rs load_yaml_string"), ("parsers", "src/definition/ddl/*.rs, src/definition/base/*.rs")],
  observe=["that reading returns, and the snapshot it returns"],
  technique="deductive verification with Verus contracts on the extracted definition code", theorems=["dload::load_yaml_string", "dtab::parse_schema_definition"],
  level_note="Proved: load_yaml_string returns a well formed snapshot or an error, and no function reading definitions can panic, index out of bounds, unwrap a missing value, overflow or loop forever, for all inputs. serde_yaml's own parser is outside."),
P("C08", "Omitted attributes mean the documented defaults, anything else is an error",
  "An attribute left out of a definition means the same as writing its default: constraints not deferrable and not initially deferred, foreign keys SIMPLE with NO ACTION, indexes btree and not unique, functions in SQL returning void and VOLATILE, sequences int8 stepping by 1 with cache 1 and no cycle, with bounds and start following from type and direction. "
  "Attributes may come in any order. A definition with an unknown attribute, a value of the wrong type, a missing mandatory attribute, two kinds of constraint at once, or a name used twice is reported as an error and never read as something else.",
  ["inputs", "configurations"], "every definition tree, with any subset and order of attributes, valid or not",
  "The tests parse one valid definition per kind.",
  ["src/definition/ddl/", "src/definition/defaults.rs"], [("parsers", "src/definition/ddl/*.rs parse_*"), ("defaults", "src/definition/defaults.rs")],
  observe=["the snapshot read from a document, or the error"],
  technique="deductive verification with Verus contracts on the extracted definition code", theorems=["drel::parse_sequence_definition", "dcon::parse_constraint_definition"],
  level_note="Proved: every parser accepts exactly the trees the specification gives a meaning, and yields that meaning. Contents of error messages are not specified; the contract of the one regular expression is assumed."),
P("C09", "The SQL of a change says everything the change says",
  "For every change, the SQL rendered for it is one terminated statement of the right kind on the named object which states every attribute of the change as it is: columns in order with type, nullability and default, constraint columns, target, match option and rules, deferrability, all sequence parameters, index uniqueness, method and keys, the full function or view definition. "
  "Nothing is added, dropped, inverted or reordered, and the schema-qualified name is always used.",
  ["inputs", "programs"], "every kind of change with any attribute values",
  "No test looks at rendered SQL.",
  ["src/snapshot/changes/", "src/util/sqlfmt.rs"], [("rendering of every kind of change", "src/snapshot/changes/*/*_change.rs render_sql"), ("lists and names", "src/util/sqlfmt.rs")],
  observe=["the text returned for a change"],
  technique="deductive verification with Verus contracts on the extracted rendering code", theorems=["sqlq::Change::render_sql", "sqld::distinct_AddUnique"],
  level_note="Proved for all changes: the text equals the statement the contract spells out per kind, and, for kinds without raw SQL in the middle, different changes give different texts. Raw SQL parts are taken over verbatim; acceptance by a database is not decided."),
P("C10", "Names and literals survive quoting and never leak into the statement",
  "Whatever characters a schema, table, column, constraint, index, sequence or view name, a function body, or the metadata schema's name contains, every statement generated from it reads back, by PostgreSQL's lexical rules, as exactly that name or text at that place, and the rest of the statement is not affected; names in a list stay separate.",
  ["inputs"], "every name and text, whatever characters it holds",
  "No test looks at rendered SQL, and no test uses a name needing quotes.",
  ["src/util/sqlfmt.rs", "src/snapshot/changes/", "src/history/dbh.rs"], [("quoting", "src/util/sqlfmt.rs"), ("rendering of every kind of change", "src/snapshot/changes/*/*_change.rs render_sql"), ("statements on the version table", "src/history/dbh.rs")],
  observe=["the text returned for a change, and the statements sent for the version table"],
  technique="deductive verification with Verus contracts on the extracted quoting and rendering code", theorems=["sqlm::lemma_quoted", "sqlm::lemma_names_read", "sqlq::sql_qn"],
  level_note="Proved: a reader following PostgreSQL's quoting rules gets back every quoted name, literal and list of names together with what follows, and all generated statements use these. Raw SQL parts are outside the property."),
P("C14", "Combining snapshots loses nothing and rejects clashes",
  "Merging one snapshot into another yields every schema, relation and function of both with all their attributes when no relation or function name of a common schema occurs in both, and reports an error when one does; an object of either side is never silently replaced or dropped.",
  ["inputs", "configurations"], "every pair of snapshots, any iteration order",
  "No test merges two snapshots that share a schema.",
  ["src/snapshot/types/database.rs", "src/snapshot/types/schema.rs", "src/definition/mod.rs"],
  [("merging databases and schemas", "src/snapshot/types/database.rs, src/snapshot/types/schema.rs")],
  observe=["merged snapshot or error"],
  technique="deductive verification with Verus contracts on the extracted merge code",
  theorems=["smerge::Database::merge"],
  level_note="Proved for all pairs of well-formed snapshots; which of several clashes is reported first is not specified."),
P("C15", "Snapshot containers look up, add and remove exactly the named object",
  "Looking up a schema, relation, function, column or constraint by name finds it exactly when one of that name was added and not removed since, adding fails exactly when the name is taken and then changes nothing, and removing returns the named object and only that one. "
  "Asking for an object as a particular kind succeeds exactly when it is of that kind.",
  ["inputs", "programs"], "every sequence of container operations with any names",
  "The tests use the containers only as a vehicle for diffs and never look at failing lookups, double additions or wrong kinds.",
  ["src/snapshot/types/"],
  [("containers", "src/snapshot/types/{database,schema,table,relation,constraint}.rs")],
  observe=["results of the container operations"],
  technique="deductive verification with Verus contracts on the extracted container code",
  theorems=["sfns::Schema::add_relation", "sfns::Table::remove_column"],
  level_note="Proved for all containers and names. Error contents are not specified; the shim's library contracts are assumed."),
P("C11", "The versions to apply going up are exactly the chain between the two ends",
  "For any two versions of a history, the versions to be applied from the first to the second are exactly those met when following the recorded predecessors back from the second until the first is reached, oldest first, the first excluded and the second included. "
  "When the second version does not descend from the first, a version on the way is missing, or the predecessors form a cycle, an error is reported: the computation always terminates.",
  ["histories", "inputs"], "every directory of version files and every pair of version names",
  "Nothing in the test suite touches version histories.",
  ["src/history/fsh.rs"], [("walking predecessors back", "src/history/fsh.rs FSHistory::get_upward_range")],
  state=[("version files", "each names its predecessor", "the history directory")], observe=["the returned list of versions"],
  technique="deductive verification with Verus contracts on the extracted history code", theorems=["hist::FSHistory::get_upward_range"],
  level_note="Proved for all directories, termination included. Assumes the contracts of directory reading and of YAML deserialisation in the shim."),
P("C12", "Reading a history finds its chain, its branches and its current version",
  "Reading a history directory relates every version to the one that follows it, for exactly the files that are version files, reports an error when two versions follow the same one or when the chain from the initial version comes back to itself, and determines as current version the last one before the tip of the chain starting at the initial version. It always terminates, whatever other files and directories lie there.",
  ["histories", "configurations"], "every directory content and every listing order",
  "Nothing in the test suite touches version histories.",
  ["src/history/fsh.rs"], [("reading the directory and following the chain", "src/history/fsh.rs FSHistory::from_dir")],
  state=[("version files", "each names its predecessor", "the history directory")], observe=["successor map and current version, or the error"],
  technique="deductive verification with Verus contracts on the extracted history code", theorems=["hist::FSHistory::from_dir"],
  level_note="Proved for all directories and listing orders, termination included. Assumes the contracts of directory reading and of YAML deserialisation in the shim."),
P("C13", "Staging, making and resetting keep the bookkeeping of versions",
  "Staging appends to the staged version exactly the changes leading from the schema the history (stage included) describes to the schema the definitions describe, their statements in that order, and in front of the downward statements the statements of the reversing changes in reverse order; it changes nothing else. "
  "Making writes the staged changes and statements, unchanged, to one new version file following the stage's predecessor, never over an existing one, and only afterwards empties the stage and puts it on top of that version; with an empty stage it changes nothing. "
  "Resetting empties the stage and keeps its predecessor; initialising a fresh project writes the project file, the initial version, an empty stage on top of it and the definitions of an empty public schema, and touches nothing where a project exists already.",
  ["histories", "programs", "configurations"], "every project, every history and staged version, every definition set",
  "Nothing in the test suite runs a command.",
  ["src/cmd/stage.rs", "src/cmd/make.rs", "src/cmd/reset.rs", "src/cmd/init.rs", "src/history/version.rs", "src/history/fsh.rs"],
  [("the commands", "src/cmd/{stage,make,reset,init}.rs"), ("construction and storage of versions", "src/history/version.rs, src/history/fsh.rs")],
  state=[("version files", "the history and the stage", "the history directory")], observe=["files of the project before and after a command"],
  technique="deductive verification with Verus contracts on the extracted command code", theorems=["cmds::stage", "cmds::make", "cmds::reset", "cmds::init"],
  level_note="Proved: every write a command performs is one the contract permits, and success means the required writes happened, in the required order. Assumes the contracts of file system and YAML in the shim; loading definitions is opaque here."),
P("C16", "Commands use the project and profile asked for",
  "The project a command works on is that of the innermost directory, from the working directory upwards, that holds a project file. Each profile name yields exactly the database URL, history directory, definitions directory and metadata schema the project file gives under that name, with environment variables expanded in URL and directories and relative directories taken from the project's directory; an unknown name is an error and never another profile.",
  ["configurations", "inputs"], "every directory nesting, project file, environment and profile name",
  "The tests look at the expansion of five strings; discovery and profiles are never tested.",
  ["src/project/mod.rs", "src/util/expand.rs"], [("discovery and profile resolution", "src/project/mod.rs"), ("environment variables", "src/util/expand.rs")],
  observe=["resolved values per profile name"],
  technique="deductive verification with Verus contracts on the extracted project code", theorems=["proj::discover_project", "proj::Project::get_profile"],
  level_note="Proved for all projects and names. What the regular expression finds in a text is assumed for its exact pattern (and cross-checked by running it against an independent implementation); that each variable it finds is replaced by its value, and nothing else changed, is proved."),
P("C17", "The schema of a version is the replay of all changes up to it",
  "The schema computed for a version is what results from applying to an empty schema all changes of the initial version and then those of each version of the chain up to it, oldest first, each version's changes in order; it is an error exactly when the history cannot be read or one of these changes cannot be applied.",
  ["histories"], "every history and every version of it",
  "Nothing in the test suite touches version histories.",
  ["src/history/snapshot.rs", "src/history/fsh.rs"], [("replay", "src/history/snapshot.rs calculate_snapshot")],
  state=[("version files", "the changes of each version", "the history directory")], observe=["the computed snapshot"],
  technique="deductive verification with Verus contracts on the extracted history code", theorems=["hist::calculate_snapshot"],
  level_note="Proved for all histories, over the contracts of change application (C04) and of the range of versions (C11)."),
P("C18", "Introspection turns every catalog row into exactly one matching object",
  "Introspecting the given schemas asks the catalog queries for them and turns each row of the answers into exactly one schema, sequence, table, column, primary key, unique constraint, foreign key, check, index or function of the snapshot, every attribute taken from the output column of that name, columns in the order of their rows, an empty default as none, and an index's expression text, if it has one, instead of its column names; the snapshot holds nothing else. "
  "A rejected query, a name answered twice, or a row belonging to a schema or table that was not answered is an error and never a partial snapshot, and nothing else is an error. What the SQL of the catalog queries makes of a database, and views, are not part of this.",
  ["inputs", "fault_sequences"], "every answer of the catalog queries: any number of rows of every kind in any order with any values, and any rejected query",
  "The tests of introspection need a PostgreSQL server, which the suite does not have; they look at a few rows of single queries and never at the snapshot made of them.",
  ["src/introspection/"], [("turning rows into objects", "src/introspection/mod.rs load_*"), ("reading the rows of one query", "src/introspection/*.rs introspect_*"), ("order of the output columns", "src/introspection/*.sql")],
  observe=["the snapshot (or error) for given answers of the catalog queries"],
  technique="deductive verification with Verus contracts on the extracted introspection code; the select lists are read from the .sql files on every run",
  theorems=["intro::introspect", "intro::load_columns", "intro::load_indexes", "intro::load_foreign_keys", "ifk::introspect_foreign_keys"],
  level_note="Proved for all answers: every row read by the position its column has in the .sql file, every object stored under its name once, and an error exactly when a query is rejected or the rows cannot be stored. The SQL text itself is interpreted only as far as its select list; what PostgreSQL answers is outside."),
P("C19", "Up and down execute exactly the right versions' statements, all or nothing",
  "Going up executes, in one transaction, the upward statements of exactly the versions from the one the database records as current (excluded) to the target (the last version by default), in order, and records each of them; going down executes the downward statements recorded in the database for the versions above the target (the predecessor of the current version by default), newest first, and removes each from the record. "
  "If any statement is rejected, or the target is not a version in that direction, nothing is committed and an error is reported; showing the status commits nothing, and no other database or metadata schema than those of the profile is used.",
  ["histories", "configurations", "fault_sequences"], "every history, recorded database state, target and profile",
  "Nothing in the test suite runs a command; the tests have no database.",
  ["src/cmd/up.rs", "src/cmd/down.rs", "src/cmd/status.rs", "src/history/dbh.rs"],
  [("the commands", "src/cmd/{up,down,status}.rs"), ("the record of versions in the database", "src/history/dbh.rs")],
  state=[("version table", "versions recorded as applied", "the metadata schema of the database")], observe=["statements committed per database, and the version table"],
  technique="deductive verification with Verus contracts on the extracted command code", theorems=["migr::up", "migr::down", "dbh::DBHistory::get_downward_range"],
  level_note="Proved: a commit happens only with the statement list the contract describes, and success means it happened. Assumes the transaction semantics of the database; what the statements on the version table do is interpreted by a stub server in the bounded companion."),
P("C20", "Status reports, and clone writes, exactly what is there",
  "Showing the status prints the version the profile's database records as current (or why it cannot be told), then the statement of every staged change in order, then the statements of exactly the changes leading from the schema the history (stage included) describes to the schema the definitions describe, and that there are none only if both lists are empty. "
  "Cloning writes exactly the snapshot that introspecting the schema public of the profile's database yields to the file public.yaml of the profile's definitions directory, and nothing at all when introspection fails; neither command changes any other file or any database.",
  ["histories", "configurations", "fault_sequences"], "every project, profile, history, stage, definition set and database content, and any rejected query",
  "Nothing in the test suite runs a command; the tests have no database.",
  ["src/cmd/status.rs", "src/cmd/clone.rs"],
  [("the report", "src/cmd/status.rs"), ("writing what introspection finds", "src/cmd/clone.rs")],
  observe=["the lines printed by status; public.yaml, the other files and the databases after clone"],
  technique="deductive verification with Verus contracts on the extracted command code", theorems=["report::status", "report::clone"],
  level_note="Proved: the lines status prints, in order, are exactly the report of the three parts, and clone may write nothing but the snapshot found, to that file. Introspection (C18), definitions (C05) and the comparison (C01) enter by the contracts proved there. Within the precondition of C01."),
P("C21", "The command line runs exactly the command it names",
  "A command line naming one of the commands init, status, stage, reset, make, up, down and clone runs that command and nothing else, for the profile given with --profile, or the profile database if none is given, and with the version given with --version, if any, both taken literally and in any order. "
  "The exit status is 0 exactly when the command succeeds, and otherwise not 0 with the command's failure on standard error. "
  "A command line which names none of the offered commands, or has options its command does not take, changes nothing, and is refused unless it asks for help or for the version of the program.",
  ["inputs", "configurations"], "every command line, and every project, profile and outcome of the command",
  "Nothing in the test suite runs the program.",
  ["src/main.rs"], [("the command line", "src/main.rs main, get_profile, get_version")],
  observe=["exit status, standard error, the files and the databases after a command line"],
  technique="deductive verification with Verus contracts on the extracted command line code", theorems=["cli::main"],
  level_note="Proved: main returns only if the command the command line names was called, with the profile and version given, and succeeded, and exits with a nonzero status only after printing its failure. The argument parser (crate clap) enters by an assumed contract, cross-checked by running command lines. print and sync are offered but not written; both panic (known findings)."),
]


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in ALL:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": list(p["observe"]), "hook_needed": None}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                                "why_tests_cant": p["tests"], "anchors": a}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in ALL:
        if p["id"] in PROPS:
            c = {"property": p["id"], "quick_cmd": "python3 lib/check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 lib/check.py " + p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "proof", "level_note": p["level_note"]}
            if p["theorems"]:
                c["theorems"] = p["theorems"]
            checks.append(c)
        else:
            na.append({"property": p["id"], "reason": p["na"] or "no contract built yet"})
    m = {"version": 1, "setup_cmd": "bash lib/setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: functions are extracted mechanically from the sources on every run, and the explorer compiles the same sources in place. Known findings: KNOWN_FINDINGS.txt."}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)


main()
