#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from props import PROPS, NOT_APPLICABLE, DOC
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid in sorted(DOC):
        d = DOC[pid]
        f.write(json.dumps({"id": pid, "title": d["title"], "statement": d["statement"],
            "quantifier": {"over": d["over"], "text": d["quant"]}, "why_tests_cant": d["tests"],
            "anchors": {"files": d["files"], "mechanism": [{"name": n, "where": w} for n, w in d["mech"]],
                        "observe_at": d.get("observe", [])}}) + "\n")
checks = []
for pid in sorted(PROPS):
    P = PROPS[pid]
    c = {"property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"python3 check.py {pid} --tier thorough",
         "technique": P.get("technique", "contract-based deductive verification: Verus contracts on functions extracted from /repo on every run, every obligation discharged by Z3"),
         "level": P["level"], "level_note": P["note"]}
    if P.get("theorems"): c["theorems"] = [t.split(": ")[1] for t in P["theorems"]]
    checks.append(c)
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())],
     "notes": "No hooks in /repo: the extractor reads private functions from the source text. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
