#!/usr/bin/env python3
"""tools/seed.py ID...: validates seeded bugs in a scratch copy and runs the property's check against each (in /repo, undone afterwards)."""
import sys,subprocess,json,os,shutil,tempfile,time
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def one(i,check=True):
    d=f'/verif/seeded/{i}'; meta=json.load(open(d+'/meta.json'))
    w=tempfile.mkdtemp(prefix='seed-'); c=w+'/repo'
    try:
        sh(f'cp -a /repo {c}')
        dd=w+'/demo'; shutil.copytree(d,dd,ignore=shutil.ignore_patterns('*.diff','meta.json'))
        env=dict(os.environ)
        r=sh('git checkout -q -- . ; git status --short',cwd=c)
        r0=sh(f'timeout 300 bash {dd}/demo.sh',cwd=c)
        r=sh(f'git apply {d}/patch.diff',cwd=c)
        if r.returncode: return i,'PATCH FAILS '+r.stderr
        b=sh('. /opt/vp/env.sh; go build ./... && go vet ./... 2>&1 | tail -3',cwd=c,executable='/bin/bash')
        if b.returncode: return i,'BUILD FAILS '+b.stderr[-500:]
        r1=sh(f'timeout 300 bash {dd}/demo.sh',cwd=c)
        t=sh(f'python3 /verif/tools/runtests.py {c}')
        res=f'demo clean={r0.returncode} patched={r1.returncode} tests: {t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:]}'
        if r0.returncode: res+='\n  CLEAN DEMO: '+(r0.stdout+r0.stderr)[-800:]
    finally:
        shutil.rmtree(w)
    if check:
        if sh('git -C /repo status --short').stdout.strip(): return i,'repo dirty'
        sh(f'git -C /repo apply {d}/patch.diff')
        try:
            t0=time.time()
            r=sh(f'bash /verif/check.sh {meta["property"]}',cwd='/verif')
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res+=f'\n  check {meta["property"]}: rc={r.returncode} {v} {time.time()-t0:.0f}s'
            if r.returncode==1: res+='\n   '+r.stdout.strip().splitlines()[0][:200]
            elif r.returncode!=0: res+='\n'+r.stderr[-600:]
        finally:
            sh('git -C /repo checkout -- .')
    return i,res
ids=[a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    print(*one(i,'-n' not in sys.argv),flush=True)
