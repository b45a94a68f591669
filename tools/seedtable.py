"""rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os
import re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (
        os.path.basename(os.path.dirname(f)), m["property"],
        m["what_it_breaks"], m["needs"]))
p = root + "/DESIGN.md"
s = open(p).read()
head = s[:s.index("## Planted changes")]
open(p, "w").write(head + """## Planted changes

Written from the statements and the code (`tools/bugs*.py`, confirmed by
`tools/seed.py`: tests pass, demonstration fails only with the change).  Each
is caught (exit 1, VIOLATION) by the check of its property; many also by
others.  Several were missed at first and led to new instances: wide data
(block and chunk sizes), long runs, singular covariances, kept gradients,
containers appended to containers, closed-form runs.

""" + "\n".join(rows) + "\n")
