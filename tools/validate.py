#!/usr/bin/env python3
"""Validates MANIFEST.json, properties.jsonl and evidence/ against the schemas in /root/.vp."""
import glob, json, os, sys
import jsonschema
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sch(n): return json.load(open(f"/root/.vp/{n}.schema.json"))
jsonschema.validate(json.load(open(R + "/MANIFEST.json")), sch("MANIFEST"))
ps = sch("PROPERTIES")
for l in open(R + "/properties.jsonl"):
    jsonschema.validate(json.loads(l), ps)
for f in glob.glob(R + "/evidence/*.json"):
    jsonschema.validate(json.load(open(f)), sch("EVIDENCE"))
print("valid", len(glob.glob(R + "/evidence/*.json")), "evidence files")
