#!/usr/bin/env python3
import json, sys, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/bin")
from checks import CHECKS
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"python3 bin/check.py {i} quick", "thorough_cmd": f"python3 bin/check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: its monitor is still being built")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the monitors observe the library's public interface, callbacks, files and sanitizer reports", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check compiles its harnesses from /repo/src as it is at that moment, into a private directory under /verif/build that it removes."}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
