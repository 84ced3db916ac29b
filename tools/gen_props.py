#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the compact table below (one place to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":a,"where":b} for a,b in mech],
                 "observe_at":observe,"hook_needed":hook}})
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"props_table.py")).read())
ids=[x["id"] for x in P]; assert len(ids)==len(set(ids))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
