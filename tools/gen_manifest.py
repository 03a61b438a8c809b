#!/usr/bin/env python3
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
claimed = [l.strip() for l in open(os.path.join(here, "claimed.txt")) if l.strip()]
notes = json.load(open(os.path.join(here, "notes.json")))
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in claimed:
        n = notes.get(i, {})
        m["checks"].append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": n.get("technique", "stateless model checking of the real code: exhaustive bounded enumeration of histories/inputs against a reference model"),
            "level": "model_checking",
            "level_note": n.get("note", "Every execution within the bounds in the evidence file is run on the real code and compared with a reference model; trusts the reference model, the engine and the stated tolerances; says nothing about inputs outside the alphabets."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": notes.get(i, {}).get("na", "check under construction; not claimed yet")})
if not m["not_applicable"]: del m["not_applicable"]
open(os.path.join(here, "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
