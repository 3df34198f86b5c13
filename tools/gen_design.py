#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md."""
import json, os, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(os.path.join(VERIF, "tools", "caught.tsv")).read().splitlines():
    sid, prop, how = l.split("\t")
    caught.setdefault(sid, []).append((prop, how))
t = ["| planted bug | needs | caught by | missed by |", "|---|---|---|---|"]
for sid in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
    m = json.load(open(os.path.join(VERIF, "seeded", sid, "meta.json")))
    r = caught.get(sid, [])
    t.append("| %s | %s | %s | %s |" % (sid, m["needs"].replace("|", "/"), " ".join(p for p, h in r if h == "caught"), " ".join(p for p, h in r if h != "caught")))
p = os.path.join(VERIF, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- table -->.*<!-- end -->", lambda _: "<!-- table -->\n" + "\n".join(t) + "\n<!-- end -->", s, flags=re.S)
open(p, "w").write(s)
