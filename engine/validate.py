#!/usr/bin/env python3-vt
import json, jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
m = json.load(open('/verif/MANIFEST.json'))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
import glob
e = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(f)), e)
print("valid")
