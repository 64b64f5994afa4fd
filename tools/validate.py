import json, jsonschema, os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
n=0
for l in open(H+'/properties.jsonl'):
    jsonschema.validate(json.loads(l), s); n+=1
jsonschema.validate(json.load(open(H+'/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
for f in sorted(os.listdir(H+'/evidence')):
    if f.endswith('.json'):
        jsonschema.validate(json.load(open(H+'/evidence/'+f)), json.load(open('/root/.vp/EVIDENCE.schema.json')))
print("ok", n)
