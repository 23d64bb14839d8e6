#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for t in props.TEXT:
        f.write(json.dumps({k: v for k, v in t.items() if k != "na"}) + "\n")
checks = []
for t in props.TEXT:
    if t["id"] in props.PROPS:
        checks.append(dict(property=t["id"], quick_cmd="python3 lib/check.py %s quick" % t["id"], thorough_cmd="python3 lib/check.py %s thorough" % t["id"],
                           technique="symbolic execution of the real code's LLVM bitcode, every branch and assertion decided by Z3",
                           level="model_checking",
                           level_note="bounded: " + "; ".join(sorted({r.get("bounds", "") for r in props.PROPS[t["id"]]["runs"]}))[:1500]))
m = dict(version=1, setup_cmd="python3 lib/build.py",
         checks=checks,
         not_applicable=[dict(property=t["id"], reason=t["na"]) for t in props.TEXT if t["id"] not in props.PROPS],
         notes="see DESIGN.md")
if getattr(props, "HOOKS", None):
    m["hooks"] = props.HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(V + "/properties.jsonl"): jsonschema.validate(json.loads(l), S)
for t in props.TEXT:
    for f in t["anchors"]["files"]: assert os.path.exists("/repo/" + f), f
assert all(t["id"] in props.PROPS or t["na"] for t in props.TEXT)
print(len(checks), "checks", len(m["not_applicable"]), "not applicable")
