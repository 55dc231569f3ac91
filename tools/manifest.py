#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
import registry
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the checks read and transform /repo's source", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough", "technique": registry.P[p].get("technique", "bounded symbolic execution of the real Rust source with Kani/CBMC (SAT)"), "level": registry.P[p].get("level", "other"), "level_note": registry.P[p].get("note", "Holds for every value within the stated bounds (see evidence); trusts Kani/CBMC, the SQL compiler and the stand-ins for sqlx and tokio."), "evidence_file": f"evidence/{p}.json"} for p in ids if p in registry.P],
     "not_applicable": [{"property": p, "reason": registry.NA[p]} for p in ids if p not in registry.P],
     "notes": "Counterexamples are replayed against the repository's unmodified source and a real SQLite before they are reported; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
