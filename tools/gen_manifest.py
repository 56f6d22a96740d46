#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(H + "/checks.json"))
props = [json.loads(x) for x in open(H + "/properties.jsonl")]
NA = {}
checks = []
for p in props:
    c = cfg.get(p["id"])
    if not c: continue
    m = c.get("models", []) + c.get("models_thorough", []) + [g["module"] for g in c.get("generate", [])]
    note = "TLC accepts every recorded call of the real code as a transition of spec/%s.tla on all explored inputs (exhaustive small inputs plus seeded random and larger ones)" % c["spec"]
    if m: note += "; TLC exhausts the design models %s within their bounds" % ", ".join(m)
    note += ". Inputs outside the explored ones are not covered; trusts TLC, rustc and the recorder."
    if c.get("assumptions"): note += " Assumes: " + "; ".join(c["assumptions"]) + "."
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "technique": "TLA+ specification; TLC trace validation of the recorded calls of the real code" + ("; TLC model checking of the design" if m else ""),
                   "level": c.get("level", "model_checking"), "level_note": note})
na = [{"property": p["id"], "reason": NA.get(p["id"], "specification not built yet")} for p in props if p["id"] not in cfg]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, drivers that record the real code's calls in harness/, check.py runs one property."},
          open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
