#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and NOTES below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
exec(open(os.path.join(V, "tools", "methods.py")).read())
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
            "technique": METHODS[p["id"]][0],
            "level": "exploration",
            "level_note": METHODS[p["id"]][1] + " Sampling, no proof: it trusts the generators to reach the failing kind of input, and the model in harness/src.",
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "All checks are generated-input search by one Rust harness (harness/), built against /repo's working tree in the feature configurations named in check.py; findings are in KNOWN_FINDINGS.txt, methods in DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
