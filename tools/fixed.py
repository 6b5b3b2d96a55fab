#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from /repo's fix: commits."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = json.load(open(os.path.join(HERE, "tools/fixmap.json")))
kf = json.load(open(os.path.join(HERE, "known_findings.json")))
out, miss = [], []
for l in subprocess.check_output(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    p = MAP.get(s[5:])
    if not p:
        miss.append(s[5:])
        continue
    out.append("fixed: property=%s %s %s" % (p[0], h, p[1]))
kf["fixed"] = out
json.dump(kf, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
for m in miss:
    print("unmapped:", m)
