#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks.json from the table in props.py."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import P, ASSUME, NA
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": " ".join(p["text"].split())},
            "why_tests_cant": " ".join(p["tests"].split()),
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
checks, na = [], []
conf = {"assumptions": ASSUME}
for p in P:
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
        continue
    c = dict(p.get("check", {}))
    c["bounds"] = " ".join(p["bounds"].split())
    c["outside"] = " ".join(p["outside"].split())
    conf[p["id"]] = c
    checks.append({
        "property": p["id"], "quick_cmd": "./check %s" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
        "technique": p.get("technique", "symbolic execution of the Go SSA of /repo, assertions decided by SMT (cvc5, z3)"),
        "level": "model_checking",
        "level_note": ("Holds for every value within the bounds: " + c["bounds"] + " Outside: " + c["outside"] +
                       " Counterexamples are replayed on the real code before they are reported; explored paths are replayed natively as a sample.").replace("  ", " "),
    })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: harnesses are a Go module of their own (harness/) that imports /repo through a replace directive."},
          open(root + "/MANIFEST.json", "w"), indent=1)
json.dump(conf, open(root + "/checks.json", "w"), indent=1, sort_keys=True)
