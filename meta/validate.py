#!/usr/bin/env python3-vt
"""validates properties.jsonl, MANIFEST.json and the evidence against the schemas"""
import json, jsonschema, glob
ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
n = 0
for l in open('/verif/properties.jsonl'):
    o = json.loads(l)
    jsonschema.validate(o, ps if ps.get('type') != 'array' else ps['items'])
    n += 1
m = json.load(open('/verif/MANIFEST.json'))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
for f in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(f)), json.load(open('/root/.vp/EVIDENCE.schema.json')))
print('valid', n, len(m['checks']), len(m['not_applicable']))
