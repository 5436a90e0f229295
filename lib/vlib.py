"""Machinery shared by all checks: mechanical extraction, the deductive verifier, and the
explorer which runs the real code to turn a failed obligation into a concrete input."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PODO_REPO", "/repo")
SRC = REPO + "/src"
WORK = VERIF + "/work"
VX = VERIF + "/extract/target/release/vx"

ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable",
           CARGO_INCREMENTAL="1", RUST_BACKTRACE="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")


class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(WORK + "/." + name + ".lock", "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def run(cmd, timeout, cwd=VERIF, env=ENV):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace") + "\ntimed out"


def build_extractor():
    with Lock("vx"):
        return run(["cargo", "build", "--offline", "--release"], 900, cwd=VERIF + "/extract")


# ---- the explorer -------------------------------------------------------------------
def gen_main(dst):
    """main.rs of the repository, its modules taken in place, its main() renamed"""
    s = open(SRC + "/main.rs").read()

    def path(m):
        n = m.group(2)
        p = SRC + "/" + n + ".rs"
        if not os.path.exists(p):
            p = SRC + "/" + n + "/mod.rs"
        return '#[allow(dead_code, unused)]\n#[path = "%s"]\n%smod %s;' % (p, m.group(1) or "", n)

    s = re.sub(r"^(pub(?:\([a-z]+\))? )?mod (\w+);", path, s, flags=re.M)
    s = re.sub(r"^fn main\(\)", "#[allow(dead_code)]\nfn podo_main()", s, flags=re.M)
    t = open(VERIF + "/harness/src/main_tail.rs").read().replace("/verif/", VERIF + "/")
    s = "#![allow(warnings)]\n" + s + t
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if not (os.path.exists(dst) and open(dst).read() == s):
        open(dst, "w").write(s)


LIT = re.compile(r"""//[^\n]*|r#"(?P<raw>.*?)"#|"(?P<str>(?:[^"\\]|\\.)*)"|'(?P<chr>[^'\\\n]|\\.)'|(?<![\w.])(?P<int>\d[\d_]*)(?![\w.])""", re.S)


def literals():
    """the short text and number literals of the current source: values worth trying"""
    strs, ints = set(), set()
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if not f.endswith(".rs"):
                continue
            for m in LIT.finditer(open(os.path.join(d, f), errors="replace").read()):
                if m.group("int") is not None:
                    i = int(m.group("int").replace("_", ""))
                    ints |= {i} if i < 2 ** 63 else set()
                    continue
                t = m.group("raw")
                if t is None:
                    t = m.group("str") if m.group("str") is not None else m.group("chr")
                    if t is None:
                        continue
                    t = re.sub(r"\\(u\{[0-9a-fA-F]+\}|x[0-7][0-9a-fA-F]|.)", lambda m: {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m.group(1)[0]) or (
                        chr(int(m.group(1)[2:-1], 16)) if m.group(1)[0] == "u" else chr(int(m.group(1)[1:], 16)) if m.group(1)[0] == "x" else m.group(1)), t, flags=re.S)
                if 0 < len(t) <= 24 and "{" not in t and "\0" not in t:
                    strs.add(t)
    return sorted(strs), sorted(ints)


def gen_dict():
    strs, ints = literals()
    base = json.load(open(VERIF + "/lib/dict_base.json"))
    def q(t):
        return '"' + "".join(c if c.isalnum() and ord(c) < 128 or c in " _-." else "\\u{%x}" % ord(c) for c in t) + '"'
    new_s = [t for t in strs if t not in base["strs"]]
    new_i = [i for i in ints if i not in base["ints"]]
    t = "pub const STRS: &[&str] = &[%s];\npub const INTS: &[i64] = &[%s];\npub const NEW_STRS: &[&str] = &[%s];\npub const NEW_INTS: &[i64] = &[%s];\n" % (
        ", ".join(map(q, strs)), ", ".join(map(str, ints)), ", ".join(map(q, new_s)), ", ".join(map(str, new_i)))
    dst = VERIF + "/harness/gen/dict.rs"
    if not (os.path.exists(dst) and open(dst).read() == t):
        open(dst, "w").write(t)


def build_explorer(feature, prop):
    """returns (path of the binary or None, log)"""
    with Lock("vh"):
        gen_main(VERIF + "/harness/gen/main.rs")
        gen_dict()
        rc, o, e = run(["cargo", "build", "--offline", "--features", feature], 600, cwd=VERIF + "/harness")
        if rc != 0:
            return None, e
        os.makedirs(WORK + "/bin", exist_ok=True)
        dst = WORK + "/bin/vh-" + prop
        shutil.copy2(VERIF + "/harness/target/debug/vh", dst)
        return dst, e


def explore(binary, prop, seed, ms, tag, case=None):
    out = WORK + "/%s.%s.json" % (prop, tag)
    if os.path.exists(out):
        os.remove(out)
    cmd = [binary, prop, str(seed), str(ms), out] + ([str(case)] if case is not None else [])
    scratch = WORK + "/scratch-%s-%s" % (prop, tag)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    env = dict(ENV)
    env["VH_SCRATCH"] = scratch
    try:
        rc, o, e = run(cmd, ms / 1000 + 240, cwd=scratch, env=env)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if os.path.exists(out):
        r = json.load(open(out))
    else:
        r = None
    return rc, r, (o + e)[-4000:]


def explore_many(binary, prop, seed, ms, tag, n):
    """the same from several seeds at once; the first result which matters comes first"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda i: explore(binary, prop, seed + 7000003 * i, ms, "%s-%d" % (tag, i)) + (seed + 7000003 * i,), range(n)))
    return sorted(rs, key=lambda r: (r[1] is not None and not r[1]["bad"], r[1] is None))


# ---- the verifier --------------------------------------------------------------------
class Proof:
    def __init__(self):
        self.functions = []      # extracted functions under contract (report entries)
        self.assumed = []        # functions whose contract had to be assumed this time
        self.results = {}        # verifier function -> (success, ms)
        self.failed = []         # names of failed obligations
        self.unknown = []        # names given up on (resource limit)
        self.text = ""           # verifier output
        self.broken = None       # the verifier gave no verdict at all
        self.smt_ms = 0
        self.cmds = []
        self.rules = {}
        self.external = []


FAIL_HEADS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
              "possible arithmetic", "possible division", "decreases not satisfied", "recommendation not met", "unable to prove",
              "loop invariant not satisfied", "assertion not satisfied", "possible out of bounds", "termination", "could not prove",
              "requires not satisfied", "ensures not satisfied", "constructed value may fail", "unreachable", "failed")


def diag_blocks(text):
    """verifier diagnostics: (head, first line in the generated file, text)"""
    out = []
    for b in re.split(r"(?m)^(?=error|warning|note: )", text):
        m = re.match(r"error(\[\w+\])?: (.*)", b)
        if not m:
            continue
        if m.group(2).startswith("aborting due"):
            continue
        ln = re.search(r"--> [^\n]*?:(\d+):\d+", b)
        out.append((m.group(2).strip(), int(ln.group(1)) if ln else None, b))
    return out


def is_verdict(head):
    return any(head.startswith(h) or h in head for h in FAIL_HEADS)


def prove(crate, modules, tag, extra=(), rlimit=None, budget=600):
    """extract the crate from the current sources and verify the given modules"""
    p = Proof()
    d = WORK + "/" + tag
    os.makedirs(d, exist_ok=True)
    assume = []
    t_end = time.time() + budget
    for attempt in range(12):
        rs, rep = d + "/" + crate + ".rs", d + "/" + crate + ".json"
        for f in (rs, rep):
            if os.path.exists(f):
                os.remove(f)
        rc, o, e = run([VX, SRC, VERIF + "/specs/" + crate + ".vt", rs, rep] + assume, 120)
        if rc != 0 or not os.path.exists(rep):
            p.broken = "extraction failed: " + (o + e)[-3000:]
            return p
        r = json.load(open(rep))
        p.functions, p.assumed, p.rules = r["functions"], r["assumed"], r["rules"]
        if r["problems"]:
            p.broken = "extraction: " + "; ".join(r["problems"])
            return p
        cmd = ["verus", crate + ".rs", "--triggers-mode", "silent", "--output-json", "--time-expanded"]
        for m in modules:
            cmd += ["--verify-module", m]
        if rlimit:
            cmd += ["--rlimit", str(rlimit)]
        cmd += list(extra)
        p.cmds.append(" ".join(cmd))
        rc, o, e = run(cmd, max(30, t_end - time.time()), cwd=d)
        p.text = e
        try:
            js = json.loads(o[o.index("{"):])
        except Exception:
            js = None
        blocks = diag_blocks(e)
        hard = [b for b in blocks if not is_verdict(b[0]) and "rlimit" not in b[0] and "Resource limit" not in b[0]]
        if js is None or js["verification-results"].get("encountered-vir-error") or (hard and not js["verification-results"].get("verified")) or not js.get("times-ms"):
            # the verifier does not accept the text: give up on the functions it names, one round at a time
            new = []
            for h, ln, b in blocks:
                for l in [int(x) for x in re.findall(r"--> [^\n]*?:(\d+):\d+", b)]:
                    for f in p.functions:
                        if f["start"] <= l <= f["end"] and f["fn"] not in assume + new and not f.get("assumed"):
                            new.append(f["fn"])
                            break
            if not new:
                p.broken = "the verifier gives no verdict: " + "\n".join(b[2] for b in blocks)[:3000] + ("" if blocks else e[-2000:])
                return p
            assume += new
            continue
        names = {}
        for m in js["times-ms"]["smt"].get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                nm = f["function"]
                ok, ms = names.get(nm, (True, 0))
                names[nm] = (ok and f["success"], ms + f["time"])
        p.results = names
        p.smt_ms = js["times-ms"]["smt"]["total"]
        bad = [n for n, (ok, _) in names.items() if not ok]
        if bad and rlimit is None and any("rlimit" in b[0] or "Resource limit" in b[0] for b in blocks):
            return prove(crate, modules, tag, extra, 60, max(60, t_end - time.time()))
        if js["verification-results"]["errors"] and not bad:
            bad = ["unnamed obligation"]
        for n in bad:
            short = n.split("::", 1)[-1]
            mine = [b for b in blocks if owner(b, p.functions, rs) == short_name(n)]
            if mine and all("rlimit" in b[0] or "Resource limit" in b[0] for b in mine):
                p.unknown.append(n)
            elif reshaped(crate, n, p.functions):
                p.unknown.append(n + " (its loops or closures are not those its annotations were written for)")
            else:
                p.failed.append(n)
        src = open(rs).read()
        p.external = sorted(set(re.findall(r"external_body\]\s*(?:pub\s+)?(?:(?:broadcast|axiom|exec|proof|const)\s+)*fn\s+(\w+)", src)))
        return p
    p.broken = "the verifier gives no verdict after giving up on " + ", ".join(assume)
    return p


def vacuous(crate, modules, tag, budget=300):
    """contracted functions which verify even with a contradiction asked for at their exit: nothing gets there"""
    d = WORK + "/" + tag
    os.makedirs(d, exist_ok=True)
    rs, rep = d + "/" + crate + ".rs", d + "/" + crate + ".json"
    rc, o, e = run([VX, SRC, VERIF + "/specs/" + crate + ".vt", rs, rep], 120, env=dict(ENV, VX_SMOKE="exit"))
    if rc != 0 or not os.path.exists(rep):
        return None
    cmd = ["verus", crate + ".rs", "--triggers-mode", "silent", "--output-json", "--time-expanded"]
    for m in modules:
        cmd += ["--verify-module", m]
    rc, o, e = run(cmd, budget, cwd=d)
    try:
        js = json.loads(o[o.index("{"):])
        ok = {}
        for m in js["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m.get("function-breakdown", []):
                n = short_name(f["function"])
                ok[n] = ok.get(n, True) and f["success"]
    except Exception:
        return None
    mine = set()
    for f in json.load(open(rep))["functions"]:
        if not f.get("external"):
            q = f["fn"].split("@")[-1]
            mine.add(q if "::" in q else f["module"] + "::" + q)
    return len([n for n in ok if n in mine]), sorted(n for n, x in ok.items() if x and n in mine)


def reshaped(crate, n, functions):
    """do the annotations no longer fit, because a loop was replaced by one of another kind, or the place of one is gone?"""
    shapes = json.load(open(VERIF + "/specs/shapes.json")).get(crate, {})
    for f in functions:
        q = f["fn"].split("@")[-1]
        if (q if "::" in q else f["module"] + "::" + q) == short_name(n):
            return bool(f.get("lost")) or f["fn"] in shapes and f.get("kinds") != shapes[f["fn"]]
    return False


def short_name(n):
    return "::".join(n.split("::")[-2:])


def owner(block, functions, rs):
    if block[1] is None:
        return None
    for f in functions:
        if f["start"] <= block[1] <= f["end"]:
            q = f["fn"].split("@")[-1]
            return q if "::" in q else f["module"] + "::" + q
    return None
