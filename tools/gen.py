#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and the registry."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path[:0] = [HERE, V]
from props import PROPS
from worlds_registry import WORLDS
PROPS = [p for p in PROPS if p["id"] in WORLDS or p.get("na")]
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        e = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p.get("observe", []), "hook_needed": p.get("hook")}}
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(e) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in WORLDS and not p.get("na"):
        checks.append({"property": i, "quick_cmd": "python3 check.py run " + i, "thorough_cmd": "python3 check.py run " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": p["tech"], "level": "exploration",
                       "level_note": p["note"]})
    else:
        na.append({"property": i, "reason": p.get("na", "machinery not built yet; not claimed")})
m = {"version": 1, "setup_cmd": "python3 check.py build",
     "hooks": {"guard": "none", "enable": "No hook was added to /repo: libc symbols are interposed, preemption points come from compiler instrumentation, and the unavailable dynamic-graph headers are replaced by /verif/dgstub.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks are deterministic simulations: python3 check.py run <ID>; python3 check.py replay <file>. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
