#!/usr/bin/env python3
"""Writes known_findings.txt from the fix commits of /repo and tools/findings_map.txt."""
import subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {}
for l in open(os.path.join(ROOT, "tools", "findings_map.txt")):
    l = l.strip()
    if l and not l.startswith("#"):
        h, p = l.split()
        m[h] = p
out = ["# Defects found by the checks. `fixed:` entries suppress nothing.", ""]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()[1:]
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    out.append(f"fixed: property={m[h]} {h} {s[5:]}")
extra = os.path.join(ROOT, "tools", "findings_open.txt")
if os.path.exists(extra):
    out += [l.rstrip("\n") for l in open(extra) if l.strip()]
open(os.path.join(ROOT, "known_findings.txt"), "w").write("\n".join(out) + "\n")
print(len(out))
