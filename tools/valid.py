"""Validates properties.jsonl and MANIFEST.json (python3-vt tools/valid.py)."""
import json, jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
n = 0
for l in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
    n += 1
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print("valid:", n, "properties")
