#!/usr/bin/env python3
"""Writes the tables of DESIGN.md from seeded/ and tools/*.json. mkdesign.py TEMPLATE"""
import glob, json, os, sys
V = "/verif"
MISSED = set(open(V + "/tools/missed_first.txt").read().split())
t = open(V + "/tools/design.md").read()
rows = ["| planted bug | property | needs | first run |", "|---|---|---|---|"]
seeds = sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f))
for f in seeds:
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], " ".join(m["needs"].split()).replace("|", "\\|"), "missed; check strengthened" if i in MISSED else "caught"))
t = t.replace("@SEEDS@", "\n".join(rows)).replace("@NSEED@", str(len(seeds)))
r = ["| commit | repaired | undone, the check of |", "|---|---|---|"]
res = json.load(open(V + "/tools/reverts.json"))
for f in json.load(open(V + "/tools/fixes.json")):
    x = res.get(f["commit"], "?")
    x = ", ".join("%s %s" % (k, "reports" if v == "reported" else "is quiet (see below)") for k, v in x.items()) if isinstance(x, dict) else x
    r.append("| %s | %s | %s |" % (f["commit"], f["what"].replace("|", "\\|"), x))
t = t.replace("@REVERTS@", "\n".join(r))
open(V + "/DESIGN.md", "w").write(t)
