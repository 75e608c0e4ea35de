#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.json and
tools/plan.json (both committed; this is only for the author)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(H + "/tools/props.json"))
plan = json.load(open(H + "/tools/plan.json"))
with open(H + "/properties.jsonl", "w") as f:
    for p in props:
        if p["id"] in plan or p.get("na"):
            q = {k: p[k] for k in ("id", "title", "statement", "quantifier",
                                   "why_tests_cant", "anchors")}
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
checks, na = [], []
for p in props:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    elif p["id"] in plan:
        c = {"property": p["id"],
             "quick_cmd": "python3 tools/check.py %s --tier quick" % p["id"],
             "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
             "evidence_file": "evidence/%s.json" % p["id"],
             "technique": "deterministic simulation with fault injection: " + p["technique"],
             "level": plan[p["id"]].get("level", "exploration"),
             "level_note": p["level_note"]}
        checks.append(c)
m = {"version": 1, "setup_cmd": "python3 tools/check.py --build-only",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is an interface of the library "
              "(user functions, manifolds, callbacks), the C++ runtime "
              "(allocator, stdout, threads) or compiler instrumentation. "
              "/repo only carries fix: commits, listed in KNOWN_FINDINGS.txt."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
