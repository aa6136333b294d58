"""Rewrites the list of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import collections, glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = collections.defaultdict(list)
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(f))
    p = json.load(open(f))["property"]
    c[p].append(b[4:] if b.startswith(p.lower() + "-") else b)
p = root + "/DESIGN.md"
s = open(p).read()
mark = "<!-- planted -->\n"
s = s[:s.index(mark) + len(mark)]
for k in sorted(c):
    s += f"\n* **{k}** ({len(c[k])}): " + ", ".join(c[k])
open(p, "w").write(s + "\n")
