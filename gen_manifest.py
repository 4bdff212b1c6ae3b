#!/usr/bin/env python3
"""writes MANIFEST.json from registry.py and properties.jsonl"""
import json, os
from registry import CHECKS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append(dict(property=p, quick_cmd="python3 run.py %s" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=c["technique"], level="model_checking", level_note=c["note"]))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "not built yet")) for p in props if p not in CHECKS]
json.dump(dict(version=1, setup_cmd="python3 gen_properties.py && python3 gen_manifest.py", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
