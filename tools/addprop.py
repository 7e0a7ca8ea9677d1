#!/usr/bin/env python3
"""dev helper: addprop.py ID units(comma) bins(comma) 'assumption;assumption' 'explanation' 'note'"""
import json,sys
p="/verif/checks.json"; d=json.load(open(p))
i,u,b,a,e,n=sys.argv[1:7]
t={json.loads(l)["id"]:json.loads(l)["title"] for l in open("/verif/properties.jsonl")}
d["properties"][i]={"title":t[i],"level":"proof","units":[x for x in u.split(",") if x],"replay":b.split(","),"assumptions":[x for x in a.split(";") if x],"explanation":e,"note":n}
d["properties"]=dict(sorted(d["properties"].items()))
json.dump(d,open(p,"w"),indent=1)
