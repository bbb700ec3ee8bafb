#!/usr/bin/env python3
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import claims
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": claims.technique(p["id"]), "level": claims.level(p["id"]), "level_note": claims.note(p["id"])})
m["notes"] = "No hooks: the checks read the MIR of the unchanged crate and drive its public interface. Findings: known_findings.txt."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
