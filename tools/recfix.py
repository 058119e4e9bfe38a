#!/usr/bin/python3
"""recfix.py PID: record fix commits of /repo that known_findings.json does not list yet."""
import json, subprocess, sys
f = "/verif/known_findings.json"
k = json.load(open(f))
for l in reversed(subprocess.run(["git", "-C", "/repo", "log", "--oneline", "--grep=^fix:"], capture_output=True, text=True).stdout.splitlines()):
    h, m = l.split(" ", 1)
    if not any(h in x for x in k["fixed"]):
        k["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], h, m[4:].strip())); print(k["fixed"][-1])
json.dump(k, open(f, "w"), indent=1)
