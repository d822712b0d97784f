import json,jsonschema,os,sys
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,s); assert len(p['title'])<=80
    ids.append(p['id'])
    for f in p['anchors']['files']: assert os.path.exists('/repo/'+f),f
    if p['statement'].rstrip('.').count('. ')>2: print("too many sentences",p['id'])
if os.path.exists('/verif/MANIFEST.json'):
    m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    c=[x['property'] for x in m['checks']]+[x['property'] for x in m.get('not_applicable',[])]
    assert sorted(c)==sorted(ids),(c,ids)
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in os.listdir('/verif/evidence'):
    jsonschema.validate(json.load(open('/verif/evidence/'+f)),e)
print('ok',ids)
