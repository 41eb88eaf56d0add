#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/mkmanifest.py > MANIFEST.json)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = {}
for i in range(1, 14): T["C%02d" % i] = "model-based histories in virtual time"
for i in range(14, 21): T["C%02d" % i] = "model-based histories in virtual time"
for i in range(21, 25): T["C%02d" % i] = "model-based histories in virtual time"
T["C05"] = "model-based histories and jumping-clock failure series"
T["C07"] = "model-based histories; random graphs against a reference"
T["C25"] = "generated concurrent calls against a timing model"
T["C26"] = "generated workers and helper calls against a timing model"
T["C27"] = "generated inputs against a reference function"
T["C28"] = "generated concurrent histories under the race detector"
T["C29"] = "model-based histories in virtual time"
T["C30"] = "generated configurations against a reference predicate and a small model"
T["C32"] = "generated trees of containers judged by an event history in virtual time"
T["C33"] = "generated labels and nestings against the goroutine profile"
T["C31"] = "model-based histories in virtual time"
N = {"C28": "Data races are seen only on the interleavings that ran."}
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": "property-based testing: " + T[i],
        "level": "exploration",
        "level_note": N.get(i, "Holds on every generated case and schedule that ran; no claim beyond them. Same-instant events are accepted in either order."),
    })
print(json.dumps({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": []}, indent=1))
