"""Validate properties, manifest and evidence against the schemas (run with python3-vt)."""
import json, glob, os, jsonschema
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ld=lambda p: json.load(open(p))
ps=ld('/root/.vp/PROPERTIES.schema.json'); n=0
for l in open(R+'/properties.jsonl'):
    jsonschema.validate(json.loads(l), ps); n+=1
jsonschema.validate(ld(R+'/MANIFEST.json'), ld('/root/.vp/MANIFEST.schema.json'))
es=ld('/root/.vp/EVIDENCE.schema.json'); m=0
for f in glob.glob(R+'/evidence/*.json'):
    jsonschema.validate(ld(f), es); m+=1
print(n,'properties',m,'evidence files ok')
