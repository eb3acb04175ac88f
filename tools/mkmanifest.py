#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "L": "exact rational reference solver / linear algebra recomputes every answer on generated programs; assumes the "
         "reference model is right and magnitudes stay within the rule's ranges (float tolerances named in DESIGN.md)",
    "I": "exact rational branch and bound / relaxation recomputes every answer on generated small integer programs",
    "F": "expressions and models are read back by evaluating an independent symbolic model kept by the generator",
    "G": "a replayed edit history and brute-force graph algorithms recompute every answer on generated graphs",
    "D": "a replayed edit history, an independent max-flow and cut enumeration recompute every answer on generated digraphs",
    "U": "a reference partition / the written tolerance rule recomputes every answer on generated inputs",
    "T": "a grammar-based generator knows the meaning of every text and which mutations leave the grammar",
    "N": "closed-form optima and derivative inequalities recompute every answer on generated convex functions",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, matplotlib' && chmod +x check.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']}",
                 "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
                 "technique": "runtime monitoring of the real code under generated workloads, with an exact reference-model oracle",
                 "level": "exploration", "level_note": NOTE[p["id"][0]]} for p in props],
     "not_applicable": [],
     "notes": "No hooks in /repo: the monitors observe the public API and sys.monitoring events. Exit 2 (INCONCLUSIVE) means "
              "a worker died or a coverage floor was not reached; it is neither a pass nor a violation."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
