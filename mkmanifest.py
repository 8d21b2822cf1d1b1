"""Regenerates MANIFEST.json from properties.jsonl and the modules present in mon/props."""
import json
import os

os.chdir(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open("technique.json"))
checks, na = [], []
for line in open("properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists("mon/props/%s.py" % i.lower()):
        checks.append({
            "property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": TECH[i][0], "level": "exploration", "level_note": TECH[i][1],
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({
    "version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import dreimac, ripser, numba'", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: every monitor observes public results, the user-supplied partition function, warnings and exceptions, in three builds of the "
             "kernels (compiled, compiled with bounds checks, interpreted). Defects repaired and the known finding are listed in known_findings.txt.",
}, open("MANIFEST.json", "w"), indent=1)
