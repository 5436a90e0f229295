#!/usr/bin/env python3
"""mkseed.py NAME: reads seeded-src/NAME.py-like spec from stdin (JSON) and builds seeded/NAME, confirming everything.
spec: {property, needs, breaks, edits: [[file, old, new]...], demo: rust test source}"""
import json, os, re, shutil, subprocess, sys, tempfile
V = "/verif"
def sh(c, cwd, t=900):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode("utf8", "replace")
DEMO = '''#!/bin/bash
# run with cwd = the repository; 0: behaves, 1: does not
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
w=$(mktemp -d)
trap 'find "$w" -depth -delete' EXIT
cp -a "$PWD/." "$w/r" || exit 2
cd "$w/r" || exit 2
cp "$here"/zz_*.rs src/ || exit 2
printf '\\n#[cfg(test)]\\nmod zz_demo;\\n' >> src/main.rs
export TMPDIR="$w"
cargo test --offline zz_demo > "$w/log" 2>&1
rc=$?
grep -q '^error' "$w/log" && ! grep -q 'test failed' "$w/log" && { tail -40 "$w/log"; exit 0; }
[ $rc -eq 0 ] && exit 0
tail -30 "$w/log"
exit 1
'''
def main():
    name = sys.argv[1]
    spec = json.load(sys.stdin)
    d = V + "/seeded/" + name
    w = tempfile.mkdtemp(dir="/tmp")
    r = w + "/repo"
    try:
        sh("cp -a /repo %s" % r, "/")
        for f, a, b in spec["edits"]:
            p = r + "/" + f
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, "w").write(s.replace(a, b))
        rc, diff = sh("git diff", r)
        # original lines only
        for f in set(e[0] for e in spec["edits"]):
            old = set(subprocess.run(["git", "show", "6d611ae:" + f], cwd="/repo", stdout=subprocess.PIPE).stdout.decode().split("\n"))
            for l in diff.split("\n"):
                if l.startswith("-") and not l.startswith("---") and l[1:] not in old:
                    print("WARNING removes a line which is not original:", l)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        if "demo_sh" in spec:
            open(d + "/demo.sh", "w").write(spec["demo_sh"])
        else:
            open(d + "/demo.sh", "w").write(DEMO)
            open(d + "/zz_demo.rs", "w").write(spec["demo"])
            for a, b in spec.get("extra", {}).items():
                shutil.copy(b, d + "/" + a)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc, o = sh(". /opt/vp/env.sh; cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 --skip introspection::", r)
        m = re.findall(r"test result: (\w+)\. (\d+) passed; (\d+) failed", o)
        print("tests with the change:", m, "rc", rc)
        ok = rc == 0
        if rc: print(o[-1500:])
        rc1, o1 = sh("bash %s/demo.sh" % d, r)
        sh("git checkout -- .", r)
        rc0, o0 = sh("bash %s/demo.sh" % d, r)
        print("demo unchanged:", rc0, "changed:", rc1)
        if rc0: print(o0[-2500:])
        if rc1 == 0: print("NOT BROKEN", '\n'.join(l for l in o1.split('\n') if l.startswith('error'))[:1500])
        print(name, "CONFIRMED" if ok and rc0 == 0 and rc1 == 1 else "REJECTED")
        if not (ok and rc0 == 0 and rc1 == 1):
            shutil.rmtree(d)
    finally:
        shutil.rmtree(w, ignore_errors=True)
main()
