#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os, subprocess
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
src = open(os.path.join(R, "harness/src/main.rs")).read()
NOTE = {}
exec(open(os.path.join(R, "tools/notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if '"%s" =>' % i in src:
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "property-based testing: " + NOTE[i][0], "level": "exploration", "level_note": NOTE[i][1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./check build",
     "hooks": {"guard": "cfg sc_verif", "enable": "harness/.cargo/config.toml passes --cfg sc_verif to every crate of the harness build",
               "source_commits": subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], text=True).split()},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
