#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from spec.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from spec import SPEC
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks: the checks use neo's public headers only, with an offline, bounds-checked stand-in for mdspan in /verif/shim. See DESIGN.md."}
for p in props:
    if p["id"] in SPEC:
        sp = SPEC[p["id"]]
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": "python3 run.py %s quick" % p["id"],
            "thorough_cmd": "python3 run.py %s thorough" % p["id"],
            "technique": sp.get("technique", "property-based testing: generated inputs against a reference model, with shrinking; libFuzzer in the thorough tier"),
            "level": "exploration",
            "level_note": sp.get("note", "Holds on every generated case of the run; decided by an independent oracle under ASan, UBSan, asserts and bounds-checked views. Not a proof: cases outside the generated ones are not covered. Trusts the compiler, the reference code in harness/oracle.cpp and the mdspan stand-in in shim/."),
        })
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
