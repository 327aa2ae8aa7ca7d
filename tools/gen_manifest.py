#!/usr/bin/env python3
"""MANIFEST.json: one check per property with a harness; the rest is not_applicable (reason below)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
NA = {}      # property -> reason it is not claimed
checks, na = [], []
for p in props:
    i = p["id"]; src = f"{R}/harness/{i}.cpp"
    if os.path.exists(src) and i not in NA:
        note = ""
        for l in open(src):
            if l.startswith("// technique: "): tech = l[14:].strip()
            if l.startswith("// note: "): note = l[9:].strip()
        tech = next((l[14:].strip() for l in open(src) if l.startswith("// technique: ")), "property-based testing: generated inputs against a reference oracle, with coverage feedback and shrinking")
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration",
                       "level_note": note or "Searches generated cases under AddressSanitizer and UBSan against an independent oracle; finds violations, does not prove absence. Trusts the oracle in the harness, the compiler and the kernel."})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built yet")})
json.dump({"version": 1, "setup_cmd": "bash tools/liburing.sh", "checks": checks, "not_applicable": na,
           "notes": "Checks compile their harness against /repo/include at run time; run.sh <id> replay <file> re-runs a replay."},
          open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
