#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
GC = ("TLA+ design model of emitter, printer and monitor (Job.tla) checked by TLC; TLC-generated jobs replayed through the real "
      "generator and the recorded program validated line by line by TLC (GcodeTrace.tla)")
NOTE_GC = ("Exhaustive over every small job on the model; every TLC-generated job (all small ones plus random wide ones) is replayed and every "
           "program line judged. Assumes an absolute-mode printer and fixed-point tolerances of half the last printed digit.")
TECH = {p: (GC, NOTE_GC) for p in ("P11", "P12", "P13", "P14", "P15", "P16")}
exec(open(V + "/tools/claims.py").read()) if os.path.exists(V + "/tools/claims.py") else None
NA = globals().get("NA", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH:
        checks.append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i][0], "level": "model_checking", "level_note": TECH[i][1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "the check for this property is not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check: python3 tools/check.py <id>; specifications in specs/, harness in harness/, known findings in known_findings.json."}
hooks = globals().get("HOOKS")
if hooks:
    m["hooks"] = hooks
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
