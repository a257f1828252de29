#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V); sys.dont_write_bytecode = True
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {p: "the check is not built yet" for p in props if p not in checks.CHECKS}
m = dict(version=1, setup_cmd="sh setup.sh", checks=[], not_applicable=[dict(property=p, reason=r) for p, r in NA.items()],
         notes="No hooks in /repo are needed: the monitors observe through the public interface and the sanitizers. See DESIGN.md.")
for p in props:
    c = checks.CHECKS.get(p)
    if not c: continue
    m["checks"].append(dict(property=p, quick_cmd="python3 run.py " + p, thorough_cmd="python3 run.py %s --thorough" % p,
                            technique=c["technique"], level=c["level"], level_note=c["note"]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
