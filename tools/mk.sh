#!/bin/bash
# regenerate everything derived
cd "$(dirname "$0")/.." && python3 tools/mkprops.py && python3 tools/mkmanifest.py && python3 tools/mkfindings.py && python3 tools/mkdesign.py
python3-vt - <<'P'
import json, jsonschema
jsonschema.validate(json.load(open("MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open("properties.jsonl"): jsonschema.validate(json.loads(l), s)
print("schemas ok")
P
