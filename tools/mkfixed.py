#!/usr/bin/env python3
"""Refreshes the 'fixed' list of known_findings.json from the fix: commits of /repo (run by hand, never by a check)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# words of the subject -> property
MAP = [l.split(" | ") for l in open(V + "/tools/fixmap.txt").read().splitlines() if l.strip()]
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    p = [m[0] for m in MAP if m[1] in s]
    if len(p) != 1: print("unmapped", l, p); continue
    out.append("fixed: property=%s %s %s" % (p[0], h, s[4:].strip()))
k = json.load(open(V + "/known_findings.json")); k["fixed"] = out
json.dump(k, open(V + "/known_findings.json", "w"), indent=1); print(len(out))
