#!/usr/bin/env python3
"""fixed.py ID PROP WHAT: record /repo HEAD as the repair of a defect."""
import json,subprocess,sys
i,p,w=sys.argv[1:4]
c=subprocess.check_output(["git","-C","/repo","rev-parse","--short=7","HEAD"],text=True).strip()
k=json.load(open('/verif/known_findings.json'))
k.append({"id":i,"status":"fixed","property":p,"commit":c,"what":f"fixed: property={p} {c} {w}"})
json.dump(k,open('/verif/known_findings.json','w'),indent=1)
