#!/usr/bin/env python3
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P, NA
src = open(os.path.join(root, "checker", "checks.go")).read()
have = set(re.findall(r'ID:\s*"(C\d+)"', src))
na = {n["property"] for n in NA}
P.sort(key=lambda p: p["id"])
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids)), "duplicate ids"
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert (p["id"] in have) != (p["id"] in na), p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
          "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
checks = [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
  "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "other", "level_note": p["note"]}
  for p in P if p["id"] in have]
man = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": NA,
  "notes": "One analyser (checker/, Go, x/tools/go/ssa) decides every property from the current source of /repo without running it; see DESIGN.md. Repairs of genuine defects are listed in known_findings.txt."}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
# titles and rules for the analyser
with open(os.path.join(root, "checker", "titles.go"), "w") as f:
    f.write("package main\n\n// Code generated by tools/gen.py; DO NOT EDIT.\n\nvar titles = map[string][2]string{\n")
    for p in P:
        if p["id"] in have:
            f.write(f"\t{json.dumps(p['id'])}: {{{json.dumps(p['title'])}, {json.dumps(p['technique'] + ': ' + p['note'])}}},\n")
    f.write("}\n")
try:
    import jsonschema
    for l in open(os.path.join(root, "properties.jsonl")):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid:", len(P), "properties,", len(checks), "checks")
except ImportError:
    print("not validated")
