#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json, na.json and properties.jsonl (run by hand; output is committed)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(R + "/checks.json")); ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
na = json.load(open(R + "/na.json")) if os.path.exists(R + "/na.json") else {}
M = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no instrumentation was added to /repo; the checks read its source and link its public API", "source_commits": []},
     "checks": [], "not_applicable": [], "notes": "Each check extracts the functions under contract from /repo's working tree (vx), has Verus discharge every obligation, and runs a concrete stage on the real crate that looks for a failing input and stands in (labelled bounded) for functions the verifier cannot take."}
for i in ids:
    if i in C:
        c = C[i]
        M["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": "contract-based deductive verification (Verus) of functions extracted from the source on every run, plus failing-input search",
            "level": c.get("level", "proof"), "level_note": c.get("note", "")})
        if c.get("theorems"): M["checks"][-1]["theorems"] = c["theorems"]
    else:
        M["not_applicable"].append({"property": i, "reason": na.get(i, "machinery not built yet")})
json.dump(M, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(M["checks"]), "claimed,", len(M["not_applicable"]), "not")
