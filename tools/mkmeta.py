#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions in tools/props.py (one source of truth)."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        for a in d["anchors"]["files"]:
            assert os.path.exists(os.path.join("/repo", a)), a
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in props.PROPS:
    if p.get("not_applicable"):
        na.append(dict(property=p["id"], reason=p["not_applicable"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                       thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                       technique=p["technique"], level=p["level"], level_note=p["level_note"]))
m = dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks, not_applicable=na, notes=props.NOTES)
if props.HOOKS:
    m["hooks"] = props.HOOKS
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for line in open(os.path.join(V, "properties.jsonl")):
    jsonschema.validate(json.loads(line), sch)
print(len(checks), "checks,", len(na), "not applicable")
