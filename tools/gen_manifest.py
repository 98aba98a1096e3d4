#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import checks
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
ch, na = [], []
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        ch.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
          "technique": c.get("technique", "symbolic execution of the library's LLVM bitcode with z3; counterexamples replayed on the sanitized native build"),
          "level": "model_checking", "level_note": "every path and every input value within the bounds: " + c["bounds"] + ((". Outside: " + c["outside"]) if c["outside"] else "")})
    else: na.append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": ch, "not_applicable": na}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); open(H + "/MANIFEST.json", "a").write("\n")
print(len(ch), "claimed", len(na), "not")
