#!/usr/bin/env python3
"""Development aid: which planted patches touch lines of the original repository."""
import os, re, subprocess
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
root = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD; git -C /repo log --format=%H --grep='^fix:'", shell=True, capture_output=True, text=True).stdout.split()
mine = set(subprocess.run("git -C /repo log --format=%H --grep='^fix:'", shell=True, capture_output=True, text=True).stdout.split())
B = {}
def blame(f):
    if f not in B:
        o = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", f], capture_output=True, text=True).stdout.splitlines()
        B[f] = [l.split()[0].lstrip("^") in {m[:len(l.split()[0].lstrip('^'))] for m in mine} for l in o]
    return B[f]
for i in sorted(os.listdir(S)):
    p = open(f"{S}/{i}/patch.diff", newline="").read().split("\n")
    removed, near, f, n = [], [], None, 0
    for l in p:
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1)) - 1; continue
        elif l.startswith("+++") or l.startswith("diff") or l.startswith("index"): continue
        elif f and l.startswith("-"): removed.append(blame(f)[n]); n += 1
        elif f and l.startswith("+"):
            near.append((blame(f)[n - 1], blame(f)[n] if n < len(blame(f)) else None))
        elif f: n += 1
    if removed and all(removed): print(i, "REMOVES ONLY OWN")
    elif not removed and any(a or b for a, b in near) and all(a or b for a, b in near): print(i, "INSERTS NEAR OWN", near[:2])
