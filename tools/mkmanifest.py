#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/tools")
from registry import RUNS, TECHNIQUE, NOTE, REASON
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in RUNS:
        checks.append({"property": i,
                       "quick_cmd": f"python3 tools/check.py {i} --tier quick",
                       "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": TECHNIQUE[i], "level": "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": REASON.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py --needed && python3 tools/build.py --variant asan --needed",
     "checks": checks, "not_applicable": na,
     "hooks": {"guard": "VERIF_HOOKS", "enable": "no hook has been needed so far: the checks drive the public interfaces of the unchanged sources", "source_commits": []},
     "notes": "All checks are property-based searches with a purpose-built engine (harness/pbt.hh): tools/build.py compiles /repo's working tree, tools/check.py runs one property. tools/check.py ID --replay FILE re-runs a saved case."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
