#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and checks.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(R + "/checks.json"))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
NA = json.load(open(R + "/tools/not_applicable.json")) if os.path.exists(R + "/tools/not_applicable.json") else {}
E1 = "stateless model checking of the compiled implementation: controlled scheduler, iterative preemption bounding, happens-before state caching, race detection"
E2 = "exhaustive bounded enumeration of operation sequences and inputs executed on the implementation, compared step by step with a reference model"
out = []
for p in props:
    i = p["id"]
    if i not in checks: continue
    c = checks[i]; modes = {x["mode"] for x in c["parts"]}
    t = "; ".join(([E1] if modes & {"mc", "mcp"} else []) + ([E2] if modes - {"mc", "mcp"} else []))
    out.append({"property": i, "level": "model_checking", "technique": t, "level_note": c.get("note", "exhaustive within the bounds recorded per scenario in evidence/%s.json, on the real code of /repo" % i),
                "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i})
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in checks]
json.dump({"version": 1, "setup_cmd": "true", "checks": out, "not_applicable": na}, open(R + "/MANIFEST.json", "w"), indent=1)
