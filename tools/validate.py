"""Validates the interface files against the schemas (python3-vt tools/validate.py)."""
import json, jsonschema, os, glob
R = "/root/.vp/"
s = {n: json.load(open(R + n + ".schema.json")) for n in ("PROPERTIES", "MANIFEST", "EVIDENCE")}
jsonschema.validate(json.load(open("MANIFEST.json")), s["MANIFEST"])
for l in open("properties.jsonl"):
    jsonschema.validate(json.loads(l), s["PROPERTIES"])
for f in glob.glob("evidence/P??.json"):
    jsonschema.validate(json.load(open(f)), s["EVIDENCE"])
print("valid")
