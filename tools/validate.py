#!/usr/bin/env python3-vt
import json,jsonschema,glob,os
S="/root/.vp/"
ps=[json.loads(l) for l in open("/verif/properties.jsonl")]
sch=json.load(open(S+"PROPERTIES.schema.json"))
for p in ps:
    jsonschema.validate(p,sch)
    n=p["statement"].replace("e.g.","").count(". ")+1
    if n>3: print("too many sentences",p["id"],n)
if os.path.exists("/verif/MANIFEST.json"):
    m=json.load(open("/verif/MANIFEST.json")); jsonschema.validate(m,json.load(open(S+"MANIFEST.schema.json")))
    ids={p["id"] for p in ps}; cl={c["property"] for c in m["checks"]}; na={c["property"] for c in m.get("not_applicable",[])}
    print("unclaimed",ids-cl-na,"extra",(cl|na)-ids,"both",cl&na)
for f in glob.glob("/verif/evidence/*.json"):
    jsonschema.validate(json.load(open(f)),json.load(open(S+"EVIDENCE.schema.json")))
print("ok",len(ps))
