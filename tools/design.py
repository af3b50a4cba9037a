#!/usr/bin/env python3
"""Writes DESIGN.md from its parts, checks.json, known_findings.json and the planted bugs."""
import json, os, glob
d = os.path.dirname(os.path.abspath(__file__)); v = os.path.dirname(d)
plan = json.load(open(d + "/plan.json")); checks = {c["id"]: c for c in json.load(open(v + "/checks.json"))}
props = [json.loads(l) for l in open(v + "/properties.jsonl")]
caught = json.load(open(d + "/caught.json"))
out = open(d + "/design_head.md").read()
for p in sorted(props, key=lambda p: p["id"]):
    if p["id"] not in checks: continue
    c = checks[p["id"]]
    out += "### %s: %s\n\n%s\n\n* Why: %s\n* Harnesses: %s (`harness/%s`).\n* Bounds: %s.\n* Outside: %s.\n\n" % (p["id"], p["title"], plan[p["id"]], p["why_tests_cant"], ", ".join("`%s`" % h["fn"] for h in c["harnesses"]), c["area"], c["bounds"], c["outside"])
out += "## Defects found\n\nEach was shown by a counterexample on the pinned commit, replayed against the real code.\n\n| property | status | what |\n|---|---|---|\n"
for f in json.load(open(v + "/known_findings.json")):
    out += "| %s | %s | %s |\n" % (f["property"], f["status"], f["what"])
out += "\n## Planted bugs\n\nEvery change below passes the existing tests and has a demonstration; the last column says which check reports it in quick.\n\n| change | property | needs | caught by |\n|---|---|---|---|\n"
for m in sorted(glob.glob(v + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); x = json.load(open(m))
    out += "| %s | %s | %s | %s |\n" % (i, x["property"], x["needs"], caught.get(i, "?"))
out += open(d + "/design_tail.md").read()
open(v + "/DESIGN.md", "w").write(out)
