#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, prop, edits=[(file,old,new)], needs, breaks, demo (Go main source), or demo_sh."""
import sys,os,json,subprocess,tempfile,shutil
ns={}; exec(open(sys.argv[1]).read(),ns)
d='/verif/seeded/'+ns['id']; os.makedirs(d,exist_ok=True)
w=tempfile.mkdtemp(prefix='mkseed-')
try:
    subprocess.check_call(f'git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x',shell=True)
    for f,o,n in ns['edits']:
        p=f'{w}/{f}'; s=open(p).read()
        assert s.count(o)==1,(f,s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    diff=subprocess.check_output('git diff',shell=True,cwd=w,text=True)
finally: shutil.rmtree(w)
open(d+'/patch.diff','w').write(diff)
json.dump({"property":ns['prop'],"needs":ns['needs'],"what_it_breaks":ns['breaks']},open(d+'/meta.json','w'),indent=1)
if 'demo_sh' in ns:
    open(d+'/demo.sh','w').write(ns['demo_sh'])
    for n,c in ns.get('files',{}).items(): open(d+'/'+n,'w').write(c)
else:
    open(d+'/main.go','w').write(ns['demo'])
    subprocess.call(['gofmt','-w',d+'/main.go'])
    open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0 when the property holds on the demonstrated case
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$d" > "$t/o.json"
go build -overlay "$t/o.json" -o "$t/demo" ./zz_demo || exit 2
cd "$t" && TMPDIR="$t" timeout 120 ./demo
''')
