#!/usr/bin/env python3
"""Writes MANIFEST.json from the harness directories (one check per harness/cNN)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks = []
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))}
claimed = set()
for d in sorted(os.listdir(os.path.join(root, "harness"))):
    m = os.path.join(root, "harness", d, "meta.json")
    if not os.path.exists(m):
        continue
    meta = json.load(open(m))
    if meta.get("draft"):
        continue
    id = d.upper()
    claimed.add(id)
    note = ("Every feasible path of the real Go code (go/ssa of the current tree) through the harnesses of harness/%s is executed symbolically and decided by z3 within the bounds: %s. "
            "Outside: %s. Trusted: go/ssa, the executor (sampled paths are replayed natively on every run), z3%s. Violations are reported only after they fail in the real build."
            % (d, meta["bounds"], meta["outside"], "".join("; " + s for s in meta.get("stubs", []))))
    checks.append({"property": id, "quick_cmd": "./check.sh %s quick" % id, "thorough_cmd": "./check.sh %s thorough" % id,
        "technique": "bounded symbolic execution of the Go SSA of the real code, decided by an SMT solver (z3), counterexamples replayed natively",
        "level": "model_checking", "level_note": note})
na = [{"property": i, "reason": NA.get(i, "no check built yet")} for i in sorted(props) if i not in claimed]
json.dump({"version": 1, "setup_cmd": "./setup.sh",
    "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: harnesses enter through a build overlay (package zz_verif) and only use exported identifiers. See DESIGN.md."},
    open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na])
