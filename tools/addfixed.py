#!/usr/bin/env python3
"""dev helper: addfixed.py PROP COMMIT 'what failed'"""
import json,sys
p="/verif/known_findings.json"; d=json.load(open(p))
l=d if isinstance(d,list) else d["findings"]
P,C,W=sys.argv[1:4]
l.append({"property":P,"status":"fixed","commit":C,"what":f"fixed: property={P} {C} {W}"})
json.dump(d,open(p,"w"),indent=1,ensure_ascii=False)
