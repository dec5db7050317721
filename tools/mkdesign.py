#!/usr/bin/env python3
"""Fills the property table and the list of planted bugs into DESIGN.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(os.path.join(V, "tools", "design.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
rows = ["| %s %s | %s |" % (p["id"], p["title"], " | ".join(d.get(p["id"], ["(planned)", "", ""]))) for p in props]
sd = []
caught = d.get("_caught", {})
for m in sorted(glob.glob(os.path.join(V, "seeded*", "*", "meta.json"))):
    j = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    sd.append("| %s | %s | %s | %s |" % (n, j["property"], j["what_it_breaks"], caught.get(n, "?")))
t = open(os.path.join(V, "tools", "DESIGN.in.md")).read().replace("TABLE", "\n".join(rows))
t = t.replace("SEEDED", "Each lives in `seeded/<id>/` or, to keep the regular run short, `seeded_more/<id>/`; \"caught by\" was measured by applying the patch and running the check.\n\n| id | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(sd) if sd else "none yet")
open(os.path.join(V, "DESIGN.md"), "w").write(t)
