#!/usr/bin/env python3
"""Generates MANIFEST.json from properties.jsonl and harness/props.json (the claimed checks)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
cfgp = root + "/harness/props.json"
cfg = json.load(open(cfgp)) if os.path.exists(cfgp) else {}
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    c = cfg.get(p["id"])
    if c is None or c.get("unclaimed"):
        m["not_applicable"].append({"property": p["id"], "reason": (c or {}).get("unclaimed", "check under construction")})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "bash tools/check.sh %s quick" % p["id"],
        "thorough_cmd": "bash tools/check.sh %s thorough" % p["id"],
        "technique": "symbolic execution of the real Go code (SSA) with z3 deciding paths and assertions; native replay of counterexamples",
        "level": "model_checking",
        "level_note": c["note"],
    })
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")
