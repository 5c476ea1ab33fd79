#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()

def put(name, text):
    global t
    b, e = f"<!-- {name}:begin -->", f"<!-- {name}:end -->"
    i, j = t.index(b) + len(b), t.index(e)
    t = t[:i] + "\n" + text + "\n" + t[j:]

k = json.load(open(os.path.join(V, "known_findings.json")))
rows = ["| property | commit | what failed |", "|---|---|---|"]
for x in k:
    if x["status"] == "fixed":
        w = x["what"].split(x["commit"], 1)[1].strip()
        rows.append(f"| {x['property']} | {x['commit']} | {w} |")
put("fixes", "\n".join(rows))

res = {}
r = os.path.join(V, "tools", "seed-results.json")
if os.path.exists(r):
    res = json.load(open(r))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    c = ", ".join(res.get(i, [])) or "(see property)"
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {c} |")
put("seeds", "\n".join(rows))
c = os.path.join(V, "tools", "campaigns.md")
if os.path.exists(c):
    put("campaigns", open(c).read().strip())
open(p, "w").write(t)
