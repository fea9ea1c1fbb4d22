#!/usr/bin/env python3-vt
import json,jsonschema,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S='/root/.vp/'
sc=json.load(open(S+'PROPERTIES.schema.json'))
ids=[]
for l in open(V+'/properties.jsonl'):
    o=json.loads(l)
    try: jsonschema.validate(o,sc)
    except Exception as e: print(o['id'],str(e)[:300]); continue
    ids.append(o['id'])
print(ids)
if os.path.exists(V+'/MANIFEST.json'):
    m=json.load(open(V+'/MANIFEST.json')); jsonschema.validate(m,json.load(open(S+'MANIFEST.schema.json')))
    c=[x['property'] for x in m['checks']]; n=[x['property'] for x in m['not_applicable']]
    assert set(c)|set(n)==set(ids),(set(ids)-set(c)-set(n),set(c)-set(ids))
es=json.load(open(S+'EVIDENCE.schema.json'))
for f in glob.glob(V+'/evidence/*.json'):
    try: jsonschema.validate(json.load(open(f)),es)
    except Exception as e: print(f,str(e)[:300])
