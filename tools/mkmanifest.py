#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
C = {}


def add(prop, level, technique, note):
    C[prop] = dict(property=prop,
                   quick_cmd="%s check.py %s --tier quick" % (PY, prop),
                   thorough_cmd="%s check.py %s --tier thorough" % (PY, prop),
                   technique=technique, level=level, level_note=note)


EX = "bounded exhaustive exploration of the real code: "
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true",
     "checks": [C[p] for p in props if p in C],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")}
                        for p in props if p not in C]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
