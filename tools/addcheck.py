import json,sys
c=json.load(open('/verif/checks.json'))
p,pkg=sys.argv[1:3]
models=[a[2:] for a in sys.argv[3:] if a.startswith('m:')]
c.setdefault(p,{})
c[p]["harnesses"]=[{"fn":pkg+"."+x} for x in sys.argv[3:] if not x.startswith('m:')]
if models: c[p]["models"]=models
json.dump(c,open('/verif/checks.json','w'),indent=1)
