#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and the /repo history."""
import json, subprocess, os
V = os.path.dirname(os.path.abspath(__file__))
info = json.load(open(V + "/checks.json"))
na = json.load(open(V + "/not_applicable.json"))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith(("verification hooks", "verif:"))]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "--cfg verif", "enable": "RUSTFLAGS=\"--cfg verif\" cargo build (check.py does it, with a target directory of its own)", "source_commits": hooks[::-1]},
     "checks": [], "not_applicable": na}
for p, i in sorted(info.items()):
    m["checks"].append({"property": p, "quick_cmd": "VERIF_TIER=quick ./check.py " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p,
                        "evidence_file": "evidence/%s.json" % p, "technique": i["technique"], "level": i["level"], "level_note": i["level_note"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
