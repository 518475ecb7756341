#!/usr/bin/env python3
"""tools/mut.py [-j N] SPEC.py [NAME|PROP...]: SPEC defines M=[(name,prop,file,old,new)|(name,prop,(file,old,new),...)].
Applies each to a scratch copy of /repo, runs the stable tests and the check there (an experiment; the registered checks use /repo)."""
import sys,subprocess,time,os,shutil,tempfile,threading,queue
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,executable='/bin/bash',**k)
a=sys.argv[1:]; j=2
if a[0]=='-j': j=int(a[1]); a=a[2:]
ns={}; exec(open(a[0]).read(),ns)
only=a[1:]
root=tempfile.mkdtemp(prefix='mut-')
V=root+'/verif'
sh(f'mkdir {V} && cp -a /verif/bin /verif/harness /verif/checks.json /verif/known_findings.json /verif/engine {V}/ && mkdir {V}/evidence')
q=queue.Queue()
for m in ns['M']:
    if only and m[0] not in only and not any(p in only for p in m[1].split('+')): continue
    q.put(m)
lock=threading.Lock()
def out(s):
    with lock: print(s,flush=True)
def work(k):
    w=f'{root}/{k}'; os.mkdir(w); R=w+'/repo'; VV=w+'/verif'
    sh(f'git -C /repo worktree list; cp -a /repo {R}; git -C {R} checkout -q -- .; cp -a {V} {VV}')
    while True:
        try: name,prop,*edits=q.get_nowait()
        except queue.Empty: return
        if isinstance(edits[0],str): edits=[tuple(edits)]
        try:
            bad=None
            for f,o,n in edits:
                p=f'{R}/{f}'; s=open(p).read()
                if s.count(o)!=1: bad=f'{f}: {s.count(o)} matches of {o!r}'; break
                open(p,'w').write(s.replace(o,n))
            if bad: out(f'{name} SPEC {bad}'); continue
            b=sh(f'. /opt/vp/env.sh; cd {R} && go build ./...')
            if b.returncode: out(f'{name} BUILD {b.stderr[-400:]}'); continue
            t=sh(f'python3 /verif/tools/runtests.py {R}'); tl=(t.stdout.strip().splitlines() or [t.stderr[-200:]])[-1]
            for pr in prop.split('+'):
                t0=time.time()
                r=sh(f'timeout 900 {VV}/bin/symgo -verif {VV} -repo {R} -tier quick check {pr}',cwd=VV)
                v=[l for l in r.stdout.splitlines() if 'VIOLATION' in l]
                first=r.stdout.strip().splitlines()[0][:160] if r.stdout.strip() else ''
                out(f'{name:28} {pr} rc={r.returncode} {"CAUGHT" if r.returncode==1 and v else "MISSED" if r.returncode==0 else "ERROR"} {time.time()-t0:.0f}s | {tl} | {first if r.returncode==1 else (r.stdout+r.stderr)[-300:] if r.returncode else ""}')
        finally:
            sh(f'git -C {R} checkout -- .')
ts=[threading.Thread(target=work,args=(k,)) for k in range(j)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(root)
