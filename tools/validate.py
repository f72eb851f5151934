import json, sys
import jsonschema
R='/root/.vp/'
ps=[json.loads(l) for l in open('/verif/properties.jsonl')]
sc=json.load(open(R+'PROPERTIES.schema.json'))
for p in ps: jsonschema.validate(p,sc)
for p in ps:
    n=p['statement'].count('. ')+1
    if n>4: print(p['id'],n,'sentences')
m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open(R+'MANIFEST.schema.json')))
assert {c['property'] for c in m['checks']}|{c['property'] for c in m.get('not_applicable',[])}=={p['id'] for p in ps}
import glob
es=json.load(open(R+'EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),es)
print('ok')
