"""Validate properties.jsonl, MANIFEST.json and evidence with python3-vt."""
import json, jsonschema, glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    x=json.loads(l); jsonschema.validate(x,s); ids.append(x["id"])
m=json.load(open('/verif/MANIFEST.json'))
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
have=[c["property"] for c in m["checks"]]+[c["property"] for c in m.get("not_applicable",[])]
print(len(ids),"properties;", "missing:",sorted(set(ids)-set(have)),"extra:",sorted(set(have)-set(ids)))
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(f)),es)
