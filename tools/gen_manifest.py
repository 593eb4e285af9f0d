#!/usr/bin/env python3
"""Rewrites /verif/MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c["technique"],
                       "level": c["level"], "level_note": c["level_note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "COTTONTAIL_VERIF", "enable": "the checks compile /repo's sources themselves with -DCOTTONTAIL_VERIF (tools/vbuild.py)",
               "source_commits": []},
     "notes": "All checks build /repo's working tree with their own flags (tools/vbuild.py) and run as an unprivileged user in a scratch directory under /dev/shm. check.py <id> --tier thorough deepens the bounds."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
