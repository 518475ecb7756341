#!/usr/bin/env python3
"""addh.py PROP FN [key=json ...]: register a harness in checks.json."""
import json,sys
d=json.load(open('/verif/checks.json'))
h={"fn":sys.argv[2]}
for a in sys.argv[3:]:
    k,v=a.split('=',1); h[k]=json.loads(v)
d.setdefault(sys.argv[1],{"harnesses":[]})
if not any(x["fn"]==h["fn"] for x in d[sys.argv[1]]["harnesses"]):
    d[sys.argv[1]]["harnesses"].append(h)
json.dump(d,open('/verif/checks.json','w'),indent=1); open('/verif/checks.json','a').write('\n')
