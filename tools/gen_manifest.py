#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and profiles.py."""
import json, os, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, here)
from profiles import CHECKS
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
NOTE = ("TLC checks the property on the TLA+ specification and generates behaviours from it (exhaustive to a small depth over "
        "pools of keys, random beyond); each is replayed against the real code and every answer compared. Bounded: not a proof.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=CHECKS[i].get("technique", "TLA+ specification checked by TLC; its behaviours replayed into the code"),
            level="model_checking", level_note=CHECKS[i].get("note", NOTE)))
    else:
        na.append(dict(property=i, reason="the part of the specification for this property is still being written"))
m = dict(version=1, setup_cmd="python3 check.py --setup", hooks=dict(guard="none", enable="no hooks are needed: the checks use the public API", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
