"""Which contracts decide which property."""
TRUST = [
    "rustc and Verus (its encoding of Rust, and the Z3 it drives)",
    "the extractor in /verif/extract: it copies the functions from the sources on every run and applies only the rewriting rules counted below",
    "the contracts of library operations in specs/prelude.rs (String, Vec, HashMap, Option, iterators), cross-checked by running the real code",
]
SNAP = ["stypes", "sfns", "ctypes", "cnew", "capply"]
DYAML = ["dtypes", "dnode", "dspec", "dyspec", "dyaml"]
DEFN = ["dtypes", "dnode", "dspec", "dyspec", "dyaml", "dcoerce", "dcon", "drel", "dtab", "dlsp", "dload"]
DTRUST = ["the contract of the one regular expression (column expressions), assumed for its exact pattern and cross-checked by running it"]
PROPS = {
    "C01": dict(feature="snap", proof=[("snapshot", SNAP + ["dlem", "diff"])], assumptions=[
        "every object is stored under its own name and column names are unique (what the loaders build)",
        "equality of snapshots is equality of their abstract values: column order is not compared",
        "derived equality of tables, views and sequences as relations is not used by the theorem",
        "sequences without an owner, and indexes whose table exists (see KNOWN_FINDINGS.txt)"]),
    "C02": dict(feature="snap", proof=[("snapshot", SNAP + ["crevert", "dlem", "diff"])], assumptions=[
        "every object is stored under its own name and column names are unique",
        "equality of snapshots is equality of their abstract values: column order is not compared"]),
    "C03": dict(feature="snap", proof=[("snapshot", SNAP + ["dlem", "diff"])], assumptions=[
        "every object is stored under its own name and column names are unique",
        "equality of snapshots is equality of their abstract values: column order is not compared"]),
    "C04": dict(feature="snap", proof=[("snapshot", SNAP)], assumptions=[
        "every object is stored under its own name and column names are unique (preserved by every change: part of the contract)"]),
    "C14": dict(feature="snap", proof=[("snapshot", ["stypes", "sfns", "dlem", "smerge"])], assumptions=[
        "every object is stored under its own name",
        "which of several clashes is reported first is not specified"]),
    "C15": dict(feature="snap", proof=[("snapshot", ["stypes", "sfns"])], assumptions=[
        "the contents of error messages are not specified"]),
    "C05": dict(feature="defn", proof=[("defn_c", DEFN + ["stypes", "sfns", "smerge"])], trust=DTRUST, assumptions=[
        "every object is stored under its own name and column names are unique",
        "serde_yaml reads back the mapping it wrote, for mappings whose keys are distinct texts and which hold no floating point numbers (dlsp; checked by running it)",
        "the files of a directory are not changed by somebody else while they are read; directories nest finitely deep",
        "storable: names are not empty and neither begin nor end with white space; view queries are not empty; unique constraints and foreign keys name columns; a column type is trimmed, not empty and holds neither = nor !, a default is trimmed; a sequence has an owning table exactly when it has an owning column; a foreign key's target schema and table hold no dot, and an index's table does not begin with the word delete or update (the last two and the marks in types: see KNOWN_FINDINGS.txt)"]),
    "C06": dict(feature="defn", proof=[("defn_c", DYAML)], assumptions=[
        "serde_yaml keeps the order of a mapping and replaces the value of a key put in twice"]),
    "C07": dict(feature="defn", proof=[("defn_c", DEFN + ["stypes", "sfns", "smerge"])], trust=DTRUST, assumptions=[
        "directories nest finitely deep",
        "memory does not run out, and serde_yaml itself returns (it bounds the nesting)"]),
    "C08": dict(feature="defn", proof=[("defn_c", DEFN)], trust=DTRUST, assumptions=[
        "when an attribute is given twice (in different case), the last one counts"]),
    "C09": dict(feature="sql", proof=[("snapshot", ["sqlm", "sqlq", "sqld"])], assumptions=[
        "raw SQL parts of a change (types, expressions, queries, function signatures) are taken over as they are",
        "the decimal form of an integer is the one SQL reads back (library)",
        "whether PostgreSQL accepts a statement in a given database state is not decided here"]),
    "C10": dict(feature="sql", proof=[("snapshot", ["sqlm", "sqlq", "sqld"]), ("history", ["dbh"])], assumptions=[
        "PostgreSQL reads a quoted identifier or literal up to the first quote which is not doubled (standard_conforming_strings on), and does not truncate it",
        "raw SQL parts of a change (types, expressions, queries, function signatures) are taken over as they are"]),
    "C11": dict(feature="hist", proof=[("history", ["hist"])], assumptions=[
        "the version files are not changed by somebody else while the command reads them",
        "a directory has one entry per name, and finitely many"]),
    "C12": dict(feature="hist", proof=[("history", ["hist"])], assumptions=[
        "the version files are not changed by somebody else while the command reads them",
        "a directory has one entry per name, and finitely many"]),
    "C13": dict(feature="hist", ms=9000, proof=[("history", ["hist", "proj", "cmds"])], assumptions=[
        "a command does not read version files after writing them, and nobody else writes them meanwhile",
        "what is staged: the schemas compared are well formed and within the precondition of C01",
        "reading and writing the definition files: the contracts assumed here for load_snpashot and save_snapshot are the ones C05 proves of them (crate defn_c, module dload), for snapshots which can be written down",
        "serde_yaml reads back what it writes"]),
    "C16": dict(feature="proj", proof=[("project_c", ["proj"])], trust=["the contract of the one regular expression (an environment variable in a text), assumed for its exact pattern and cross-checked by running it"], assumptions=[
        "what a project file says is what serde_yaml makes of it",
        "environment variables do not change while a command runs"]),
    "C17": dict(feature="hist", proof=[("history", ["hist"]), ("snapshot", ["ctypes", "capply"])], assumptions=[
        "the version files are not changed by somebody else while the command reads them"]),
    "C18": dict(feature="intro", proof=[("intro_c", ["stypes", "sfns", "isch", "iseq", "itab", "icol", "ipk", "iuq", "ifk", "ick", "iix", "ifn", "isp", "intro"])], assumptions=[
        "the rows are what the database answers to the text of the catalog queries; that text is interpreted only as far as its select list",
        "the columns of the answers have the types the code reads them as (a wrong type would panic in the client library); an index row has column names or an expression",
        "a query either answers or is rejected, and does not change the transaction"]),
    "C20": dict(feature="rep", ms=6000, proof=[("history", ["hist", "proj", "dbh", "report"])], trust=["the lines printed by a function are those its println! calls format, in order; colouring (crate colored) shows the text"], assumptions=[
        "the schemas compared are well formed and within the precondition of C01",
        "reading definitions, writing definitions and introspection: the contracts assumed here are the ones C05 and C18 prove (crates defn_c and intro_c)",
        "what the console makes of a line, and colours, are not looked at"]),
    "C21": dict(feature="cli", ms=6000, proof=[("history", ["cli"])], trust=[
        "the contract of crate clap: a command line is accepted only if it is a declared command with options declared for it, each at most once and with its value; the values returned are those given"], assumptions=[
        "what the commands do is their own contracts (C11 to C20)",
        "podo print and podo sync are not written yet and panic (see KNOWN_FINDINGS.txt); the theorem excludes these two"]),
    "C19": dict(feature="hist", ms=9000, proof=[("history", ["hist", "proj", "pg", "dbh", "migr", "report"])], assumptions=[
        "a transaction is its list of statements, and either all of it happens or nothing (PostgreSQL)",
        "what the statements on the version table do is the database's; their text is proved, and the bounded companion interprets it against a stub server",
        "the JSON form of changes is read back as written (serde)"]),
}
