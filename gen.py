#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os
import props, checks
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[])
for p in props.P:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 run.py {i} quick", thorough_cmd=f"python3 run.py {i} thorough", technique=c["technique"],
                                level="model_checking", level_note=("Bounded, exhaustive within: " + c["bounds"] + ". Outside: " + (c["outside"] or "larger bounds") + ".")[:1500]))
    else:
        m["not_applicable"].append(dict(property=i, reason=checks.NOT_APPLICABLE.get(i, "no check yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
