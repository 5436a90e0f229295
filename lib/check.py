#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree (VERIF_TIER, VERIF_SEED)."""
import json, os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from props import PROPS, TRUST

T0 = time.time()
PAR = 4     # explorers running at once


def known_list():
    out = {}
    for l in open(VERIF + "/KNOWN_FINDINGS.txt"):
        m = re.match(r"known: property=(\w+) id=(\S+) (.*)", l.strip())
        if m:
            out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    pid = sys.argv[1]
    cfg = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    replay = WORK + "/replay-%s.json" % pid
    notes, violations = [], []
    quick = tier == "quick"

    # 1. the real code, run on concrete inputs (cross-checks the trusted contracts)
    ex = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
    binary, log = build_explorer(cfg["feature"], pid)
    bad = None
    rounds = []
    known = known_list()

    def search(ms, tag, sd):
        nonlocal bad
        for rc, r, out, sd in explore_many(binary, pid, sd, ms, tag, PAR):
            if r is None:
                notes.append("explorer gave no result (%s): %s" % (rc, out[-500:]))
                if bad is None and rc not in (0, 1, 2, -9):
                    bad = {"what": "the process running the real code died (%s): %s" % (rc, out[-2000:]), "seed": sd}
                elif bad is None and rc == -9:
                    bad = {"what": "the real code did not return within the time allowed (a case takes milliseconds): " + out[-500:], "seed": sd}
                continue
            ex["evaluations"] += r["evaluations"]
            ex["distinct_nontrivial"] += r["distinct_nontrivial"]
            ex["rule"], ex["samples"] = r["rule"], ex["samples"] or r["samples"]
            for k in r["known"]:
                if k["fails"]:
                    if (pid, k["id"]) in known:
                        l = "KNOWN-FINDING: property=%s %s: %s" % (pid, k["id"], k["fails"])
                        if l not in rounds:
                            rounds.append(l)
                            print(l)
                    elif bad is None:
                        bad = {"what": k["fails"], "input": k["id"], "seed": sd}
            if r["bad"] and (bad is None or "case" not in bad):
                bad = dict(r["bad"], seed=sd)

    if binary is None:
        notes.append("the explorer does not build against the current tree: " + log[-1500:])
    else:
        search(cfg.get("ms", 4000) if quick else 60000, "a", seed)

    # 2. the obligations
    build_extractor()
    proofs = []
    for crate, modules in cfg["proof"]:
        p = prove(crate, modules, "p-" + pid)
        proofs.append((crate, modules, p))
        if not quick and not p.broken and not p.failed:
            p2 = prove(crate, modules, "t-" + pid, ["--smt-option", "smt.random_seed=%d" % (seed + 17)])
            notes.append("%s again with another solver seed: %d failed" % (crate, len(p2.failed)))
            v = vacuous(crate, modules, "v-" + pid)
            notes.append("%s with a contradiction asked for at every exit: %s" % (crate, "no answer" if v is None else "%d contracted functions, refused for all but %s" % (v[0], ", ".join(v[1]) or "none")))
    failed = [(c, n) for c, _, p in proofs for n in p.failed]
    undecided = [(c, n) for c, _, p in proofs for n in p.unknown]
    mods = {c: set(m) for c, m, _ in proofs}
    for c, _, p in proofs:
        if p.broken:
            undecided.append((c, "all of " + c + ": " + p.broken[:1500]))
        for a in p.assumed:
            if a["module"] in mods[c] or not mods[c]:
                undecided.append((c, a["fn"] + " (" + "; ".join(a["why"]) + ")"))

    # 3. an obligation failed or could not be decided: look for a concrete input, harder
    if (failed or undecided) and bad is None and binary is not None:
        for i in range(3 if failed else 4):
            search(25000, "b%d" % i, seed * 7919 + 31 * i + 5)
            if bad:
                break

    sites = {f["fn"]: f["path"] for _, _, p in proofs for f in p.functions}
    if bad or failed:
        rep = {"property": pid, "failed_obligations": [c + ": " + n for c, n in failed], "counterexample": bad,
               "replay_command": ("VH_SCRATCH=$(mktemp -d) %s %s %s 0 /dev/stdout %s" % (binary, pid, bad.get("seed"), bad.get("case"))) if bad else None,
               "verifier_output": "\n".join(p.text[-15000:] for _, _, p in proofs if p.failed), "undecided": [c + ": " + n for c, n in undecided]}
        json.dump(rep, open(replay, "w"), indent=1)
        for c, n in failed:
            print("FAILED OBLIGATION %s: %s" % (c, n))
        if bad:
            print("counterexample on the real code: " + str(bad.get("what"))[:1500])
            print("  input: " + str(bad.get("input"))[:3000])
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if bad else " no-failing-input-found"))
        violations.append(1)
    for c, n in undecided:
        print("UNPROVED %s: %s -- decided by the bounded stand-in only (%d cases of the real code, none failing)" % (c, n, ex["evaluations"]))

    nobl = sum(len(p.results) for _, _, p in proofs)
    ndis = sum(1 for _, _, p in proofs for ok, _ in p.results.values() if ok)
    under = [f["path"] + " " + f["fn"] for c, _, p in proofs for f in p.functions if f["module"] in mods[c] and not f.get("external")]
    cov = {"obligations": nobl + len([1 for c, n in undecided if n.startswith("all of")]), "discharged": ndis,
           "checker_cmd": "; ".join("cd work/p-%s && vx %s specs/%s.vt ... && %s" % (pid, SRC, c, p.cmds[-1]) for c, _, p in proofs if p.cmds),
           "trusted_base": TRUST + cfg.get("trust", []) + ["assumed without proof (external_body): " + ", ".join(sorted(set(x for _, _, p in proofs for x in p.external)))],
           "back_end": "Verus 0.2026.09.13 with its bundled Z3", "solver_ms": sum(p.smt_ms for _, _, p in proofs),
           "functions_under_contract": len(under), "functions": under[:400],
           "slowest_obligations": sorted(((ms, n) for _, _, p in proofs for n, (ok, ms) in p.results.items()), reverse=True)[:5],
           "rewriting_rules_applied": {k: v for _, _, p in proofs for k, v in p.rules.items()},
           "unproved_here": [c + ": " + n for c, n in undecided], "failed": [c + ": " + n for c, n in failed],
           "bounded_companion": {"what": "explorer over the real code, never counted as proved", "evaluations": ex["evaluations"],
                                 "distinct_nontrivial": ex["distinct_nontrivial"], "rule": ex["rule"], "samples": [s[:1500] for s in ex["samples"]]}}
    if cfg.get("bounded_only"):
        cov["bounded_only"] = cfg["bounded_only"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": cfg["assumptions"] + notes,
          "wall_s": round(time.time() - T0, 2), "violations": len(violations)}
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        cov["functions"] = cov["functions"][:60]
        s = json.dumps(ev, indent=1)
    open(VERIF + "/evidence/%s.json" % pid, "w").write(s)
    for n in notes:
        print("note: " + n[:600])
    print("%s: %d obligations, %d discharged, %d functions under contract, %d cases run, %.1f s" % (pid, nobl, ndis, len(under), ex["evaluations"], time.time() - T0))
    if violations:
        sys.exit(1)
    if binary is None and undecided:
        print("no verdict: neither the verifier nor the explorer accepts the current tree")
        sys.exit(3)
    sys.exit(0)


main()
