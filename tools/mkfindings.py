#!/usr/bin/env python3
"""Writes known-findings.jsonl from tools/fixes.json: the defects that were repaired in /repo. A fixed entry
suppresses nothing."""
import json
with open("/verif/known-findings.jsonl", "w") as o:
    for f in json.load(open("/verif/tools/fixes.json")):
        for p in f["properties"]:
            o.write(json.dumps({"status": "fixed", "property": p, "commit": f["commit"],
                                "line": "fixed: property=%s %s %s" % (p, f["commit"], f["what"])}) + "\n")
