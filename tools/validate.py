"""python3-vt tools/validate.py: checks properties, manifest and evidence against the schemas."""
import json,jsonschema,os,glob
R='/root/.vp/'
s=json.load(open(R+'PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),s)
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open(R+'MANIFEST.schema.json')))
es=json.load(open(R+'EVIDENCE.schema.json'))
for f in glob.glob('evidence/C*.json'): jsonschema.validate(json.load(open(f)),es)
print('valid')
