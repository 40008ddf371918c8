import json, jsonschema, glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(l), s if s.get('type')=='object' else s.get('items', s))
try:
    jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
except FileNotFoundError: print('no manifest')
for f in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(f)), json.load(open('/root/.vp/EVIDENCE.schema.json')))
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
print('ok', len(ids))
