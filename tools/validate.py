import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    if l.strip():
        jsonschema.validate(json.loads(l),s)
print('ok')
