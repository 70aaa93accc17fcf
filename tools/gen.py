#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/text.py and lib/specs.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "tools")]
import specs  # noqa: E402
import text  # noqa: E402

lines, checks, na = [], [], []
for pid in sorted(text.T):
    t = text.T[pid]
    lines.append(json.dumps({
        "id": pid, "title": t["title"], "statement": t["statement"],
        "quantifier": {"over": t["over"], "text": t["quant"]},
        "why_tests_cant": t["why"],
        "anchors": {"files": t["files"], "state": [], "mechanism": [{"name": a, "where": b} for a, b in t["mech"]], "observe_at": t["observe"], "hook_needed": None}}))
    if "na" in t:
        na.append({"property": pid, "reason": t["na"]})
        continue
    b = specs.PROPS[pid]
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s --tier quick" % pid,
        "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "symbolic execution of the LLVM IR of the current sources (every path within the bounds), assertions and rewriting steps discharged by Z3 / exact linear algebra; counterexamples replayed natively",
        "level": b.get("level", "model_checking"),
        "level_note": "bounded: " + b["bounds"]})
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Checks rebuild bitcode and native replay binaries from /repo/src on every run. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
missing = set(specs.PROPS) - set(text.T)
if missing:
    print("no text for", sorted(missing))
