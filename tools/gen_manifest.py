#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the property ids given in CLAIMED."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(os.path.join(here,"..","properties.jsonl"))]
notes=json.load(open(os.path.join(here,"techniques.json")))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in notes:
        t,n=notes[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":t,"level":"exploration","level_note":n})
    else:
        na.append({"property":i,"reason":"no check built yet (work in progress)"})
m={"version":1,"setup_cmd":"./check.sh setup","checks":checks,"not_applicable":na}
json.dump(m,open(os.path.join(here,"..","MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks",len(na),"not applicable")
