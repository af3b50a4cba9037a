#!/usr/bin/env python3
"""addfinding.py id property status what [commit] -- used while developing, never by a check."""
import json, sys
p = "/verif/known_findings.json"
L = json.load(open(p))
i, prop, status, what = sys.argv[1:5]
e = {"id": i, "property": prop, "status": status, "what": what}
if status == "fixed":
    e["record"] = "fixed: property=%s %s %s" % (prop, sys.argv[5], what)
L = [x for x in L if x["id"] != i] + [e]
L.sort(key=lambda x: (x["property"], x["id"]))
open(p, "w").write("[\n" + ",\n".join(" " + json.dumps(x) for x in L) + "\n]\n")
