#!/bin/bash
cd /verif && python3 gen_manifest.py && python3-vt - <<'P'
import json, jsonschema, glob
m=json.load(open('MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    try: jsonschema.validate(json.loads(l),s)
    except jsonschema.ValidationError:
        jsonschema.validate([json.loads(x) for x in open('properties.jsonl')],s); break
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('evidence/*.json'): jsonschema.validate(json.load(open(f)),e)
print('valid',len(m['checks']))
P
