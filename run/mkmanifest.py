#!/usr/bin/env python3
"""Writes MANIFEST.json from run/props.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(V + "/run/props.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
checks, na = [], []
for i in ids:
    if i in cfg and not cfg[i].get("unclaimed"):
        c = cfg[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 run/check.py %s quick" % i,
            "thorough_cmd": "python3 run/check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "contract-based deductive verification (Verus) of functions extracted from /repo on every run; executable contracts on the real code, bounded, for the rest and for failing inputs"),
            "level": c.get("level", "proof"),
            "level_note": c.get("note", "") ,
        })
    else:
        na.append({"property": i, "reason": cfg.get(i, {}).get("unclaimed", "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 run/check.py --setup", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
