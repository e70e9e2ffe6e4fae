#!/usr/bin/env python3-vt
"""validate properties.jsonl, MANIFEST.json and evidence against the schemas"""
import glob, json, jsonschema
ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    d = json.loads(l)
    try:
        jsonschema.validate(d, ps)
    except jsonschema.ValidationError as e:
        print(d['id'], e.message[:300])
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
es = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/C*.json'):
    try:
        jsonschema.validate(json.load(open(f)), es)
    except jsonschema.ValidationError as e:
        print(f, e.message[:300])
print('validated')
