#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json, properties.jsonl and tools/na.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
checks = {c["id"]: c for c in json.load(open(V + "/checks.json"))}
na = json.load(open(V + "/tools/na.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = {"version": 1, "setup_cmd": "bash ./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        out["checks"].append({
            "property": i, "quick_cmd": "bash ./check.sh %s quick" % i, "thorough_cmd": "bash ./check.sh %s thorough" % i,
            "technique": "symbolic execution of the Go SSA of the current source, assertions decided by Z3 (QF_ABV), counterexamples replayed natively",
            "level": "model_checking",
            "level_note": ("Bounded: " + c["bounds"] + ". Outside: " + c["outside"] + ". Trusts the engine's models of the libraries listed in the evidence file and in DESIGN.md; sampled paths are re-run natively and must agree."),
        })
    else:
        out["not_applicable"].append({"property": i, "reason": na.get(i, "no check built yet")})
out["notes"] = "The machinery is described in DESIGN.md; genuine defects found are listed in known_findings.json."
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
