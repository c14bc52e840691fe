#!/usr/bin/env python3
"""Lists planted bugs that do not apply to HEAD, or that touch no line of the base commit (removed or, for pure insertions, neighbouring ones)."""
import os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "4c9d02e"
for d in sorted(os.listdir(ROOT + "/seeded")):
    p = "%s/seeded/%s/patch.diff" % (ROOT, d)
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", p], capture_output=True, text=True)
    if r.returncode:
        print(d, "does not apply", r.stderr.strip()[:100]); continue
    f = None; bad = good = 0
    for l in open(p, newline=""):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--abbrev=7", f], capture_output=True, text=True).stdout.split("\n")
            old = subprocess.run(["git", "-C", "/repo", "rev-list", "-n1", BASE], capture_output=True, text=True).stdout
        m = re.match(r"@@ -(\d+)", l)
        if m:
            n = int(m.group(1)); continue
        if f and l[:1] in " -" and not l.startswith("---"):
            if l[0] == "-":
                if blame[n - 1].startswith("^") or blame[n - 1][:7] == BASE[:7]: good += 1
                else: bad += 1
            n += 1
    if bad:
        print(d, "removes %d own lines, %d original" % (bad, good))
    elif not good:
        print(d, "pure insertion")
