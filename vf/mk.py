#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py and units.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, units
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = [p for p in props.P if p["id"] in units.PROPS]
na = list(getattr(props, "NA", []))
naid = {n["property"] for n in na}
for q in props.P:
    assert len(q["title"]) <= 80, q["title"]
    assert q["statement"].count(". ") <= 2, q["id"]
    for f in q["anchors"]["files"] + [m["where"] for m in q["anchors"]["mechanism"]]:
        assert os.path.exists("/repo/" + f), f
with open(V + "/properties.jsonl", "w") as f:
    for q in [x for x in props.P if x["id"] in units.PROPS or x["id"] in naid]:
        f.write(json.dumps(q) + "\n")
checks = []
for q in have:
    U = units.PROPS[q["id"]]
    b = "; ".join("%s: %s" % (e["fn"], e.get("bounds", "")) for _, e in U["entries"])
    checks.append({"property": q["id"], "quick_cmd": "python3 /verif/vf/vf.py --property %s --tier quick" % q["id"],
                   "thorough_cmd": "python3 /verif/vf/vf.py --property %s --tier thorough" % q["id"],
                   "evidence_file": "/verif/evidence/%s.json" % q["id"],
                   "technique": U.get("technique", "symbolic execution of the LLVM IR compiled from /repo's sources, every branch, assertion and memory access decided by z3 for all values within the bounds"),
                   "level": U["level"], "level_note": (U.get("note", "") + " Bounds of the quick tier: " + b).strip()[:1500]})
missing = [q["id"] for q in props.P if q["id"] not in units.PROPS and q["id"] not in naid]
if missing: print("no check yet:", missing)
m = {"version": 1, "setup_cmd": "python3 /verif/vf/vf.py --setup", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. known_findings.jsonl lists genuine defects that were recorded or fixed."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
