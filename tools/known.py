#!/usr/bin/env python3
"""rewrites the 'fixed:' lines of KNOWN_FINDINGS from the fix commits in /repo (property ids in tools/fix_ids.txt)"""
import subprocess, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [l.strip().split(" ", 1) for l in open(os.path.join(V, "tools/fix_ids.txt")) if l.strip()]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
path = os.path.join(V, "KNOWN_FINDINGS")
keep = [l for l in open(path)] if os.path.exists(path) else []
keep = [l for l in keep if l.startswith("finding:")]
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:") or h == "c829781":
        continue
    pid = max(((len(t), i) for i, t in ids if t in s), default=(0, None))[1]
    if pid is None:
        print("no property for", l); continue
    out.append("fixed: property=%s %s %s\n" % (pid, h, s[5:]))
open(path, "w").writelines(keep + out)
