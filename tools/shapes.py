#!/usr/bin/env python3
"""Records the kinds of the loops the invariants in specs/ were written for (specs/shapes.json). Run after editing contracts."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from props import PROPS
out, sigs, names, vars_ = {}, {}, [], {}
with tempfile.TemporaryDirectory() as d:
    for c in sorted({c for p in PROPS.values() for c, _ in p["proof"]}):
        subprocess.run([VX, SRC, VERIF + "/specs/" + c + ".vt", d + "/x.rs", d + "/x.json"], check=True)
        r = json.load(open(d + "/x.json"))
        assert not r["renamed"] and not r["assumed"], r
        out[c] = {f["fn"]: f["kinds"] for f in r["functions"] if f.get("kinds")}
        sigs.update({f["fn"]: f["sig"] for f in r["functions"] if "sig" in f})
        vars_.update({f["path"] + " " + f["fn"]: f["vars"] for f in r["functions"] if any(f.get("vars", [])) and "sig" in f})
        names = r["names"]
json.dump(out, open(VERIF + "/specs/shapes.json", "w"), indent=1, sort_keys=True)
# and the signatures of the functions under contract, with the names of all functions (specs/sigs.json): a renamed function is found by them;
# the names bound by let (their use in a contract survives further lets)
json.dump({"sigs": sigs, "names": names, "vars": vars_}, open(VERIF + "/specs/sigs.json", "w"), indent=1, sort_keys=True)
