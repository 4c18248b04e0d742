#!/usr/bin/env python3
"""design.py: fills the measured parts of DESIGN.md from evidence/ and from trials of the planted bugs.

The part between '<!-- numbers -->' marks comes from evidence/*.json of the last runs, the part between
'<!-- matrix -->' marks from the output of 'matrix.py' (own checks) given as argument."""
import glob
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
text = open(p).read()


def put(mark, body):
    global text
    m = "<!-- %s -->" % mark
    a, b, c = text.split(m)
    text = a + m + "\n" + body + "\n" + m + c


reg = {}
for f in glob.glob(V + "/harness/*.cpp"):
    for m in re.finditer(r'pbt::Reg \w+\( \{ "(C\d\d)",\s*\w+,\s*(\d+),\s*(\d+),', open(f).read()):
        reg[m[1]] = (int(m[2]), int(m[3]))
rows = ["| id | cases | evaluations | distinct non-trivial | seconds | cases, thorough |", "|---|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/evidence/C*.json")):
    d = json.load(open(f))
    if d["tier"] != "quick":
        sys.exit(f + " is not of the quick tier")
    c = d["coverage"]
    if d["seed"] != 1 or c["cases"] + c["discarded"] != reg[d["property"]][0]:
        sys.exit(f + " is not of a whole run with seed 1")
    rows.append("| %s | %d | %d | %d | %.0f | %d |" % (d["property"], c["cases"], c["evaluations"], c["distinct_nontrivial"], d["wall_s"], reg[d["property"]][1]))
put("numbers", "\n".join(rows))

if len(sys.argv) > 1:
    rows = ["| bug | property | caught by its check | what it breaks |", "|---|---|---|---|"]
    for l in open(sys.argv[1]):
        w = l.split()
        if len(w) < 2 or not os.path.isdir(V + "/seeded/" + w[0]):
            continue
        meta = json.load(open(V + "/seeded/%s/meta.json" % w[0]))
        rows.append("| %s | %s | %s | %s |" % (w[0], w[1], "yes" if w[2:] and all(x == "caught" for x in w[2:]) else "**no**", meta["what_it_breaks"].replace("|", "/").replace("\n", " ")))
    put("matrix", "\n".join(rows))
open(p, "w").write(text)
