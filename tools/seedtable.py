"""Writes the table of planted bugs into DESIGN.md.

usage: seedtable.py LOG   (LOG: lines "<id> <prop> rc=<n> ..." of a run of the
checks against each patch, as written by tools/catch.sh)
"""
import json, os, re, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rc = {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) (C\d\d) rc=(\d+)", l)
    if m:
        rc[m.group(1)] = int(m.group(3))
rows = ["| bug | check | caught | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    f = os.path.join(root, "seeded", d, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f))
        c = {1: "yes", 0: "no"}.get(rc.get(d), "not run")
        rows.append("| %s | %s | %s | %s |" % (d, m["property"], c, m["needs"].replace("|", "\\|").replace("\n", " ")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
mark = "<!-- table -->"
s = s[: s.index(mark)] + mark + "\n\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
print(len(rows) - 2, "bugs")
