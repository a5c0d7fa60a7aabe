#!/usr/bin/env python3-vt
import json, jsonschema, os, sys
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
S=lambda n: json.load(open("/root/.vp/"+n))
for l in open(V+"/properties.jsonl"): jsonschema.validate(json.loads(l), S("PROPERTIES.schema.json"))
ids={json.loads(l)["id"] for l in open(V+"/properties.jsonl")}
m=json.load(open(V+"/MANIFEST.json")); jsonschema.validate(m,S("MANIFEST.schema.json"))
got={c["property"] for c in m["checks"]}|{c["property"] for c in m.get("not_applicable",[])}
assert got==ids,(got^ids)
for f in os.listdir(V+"/evidence"):
    if f.endswith(".json") and not f.startswith("replay-"): jsonschema.validate(json.load(open(V+"/evidence/"+f)),S("EVIDENCE.schema.json"))
print("ok",len(ids))
