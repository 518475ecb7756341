#!/usr/bin/env python3
"""runtests.py [DIR]: build DIR (default /repo), run its tests, and report stable tests that do not pass."""
import json,subprocess,sys,tempfile,os
d=sys.argv[1] if len(sys.argv)>1 else '/repo'
w=tempfile.mkdtemp()
for n in ('build.sh','test.sh'):
    s=open('/opt/vp/'+n).read().replace('cd /repo','cd '+d)
    open(f'{w}/{n}','w').write(s)
r=subprocess.run(f"bash {w}/build.sh",shell=True,capture_output=True,text=True)
if r.returncode: print("BUILD FAILED",r.stdout[-2000:],r.stderr[-2000:]); sys.exit(1)
subprocess.run(f"bash {w}/test.sh {w}/t.json",shell=True,capture_output=True)
t=json.load(open(w+'/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
bad=[x for x in b['stable'] if x not in t['passed']]
print("stable",len(b['stable']),"not passing",len(bad),bad[:10]); sys.exit(1 if bad else 0)
