#!/opt/veriftools/pyvenv/bin/python
"""writes properties.jsonl and MANIFEST.json from qv/props.py"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
from qv.props import PROPS
with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": p["mech"]}
        if p["state"]: a["state"] = p["state"]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "./tool/build.sh", "checks": [], "not_applicable": []}
for p in sorted(PROPS, key=lambda p: p["id"]):
    if p["mod"]:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check.py %s --tier quick" % p["id"], "thorough_cmd": "./check.py %s --tier thorough" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(V + "/properties.jsonl"): jsonschema.validate(json.loads(l), s)
except FileNotFoundError: pass
print(len(PROPS), "properties,", len(m["checks"]), "claimed")
