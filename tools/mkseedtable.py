#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md (results are filled in by hand / from runseeds logs given as args)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split()
        if len(w) > 3 and w[2].startswith("rc="):
            res.setdefault(w[0], []).append((w[1], w[2] == "rc=1" and "VIOLATION" in l))
print("| planted bug | property | needs | caught by |\n|---|---|---|---|")
for i in sorted(os.listdir(os.path.join(V, "seeded")), key=lambda i: (json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"], i)):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    print("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), " ".join(c for c, ok in res.get(i, []) if ok) or "-"))
