#!/usr/bin/env python3
"""auto.py [-j N] [-n PERFILE] [-s SEED] [FILE...]: random syntactic mutants of the repository's files, each run against the stable tests
and then the checks of the properties anchored in the file until one catches it; prints the survivors."""
import sys,re,os,json,random,subprocess,tempfile,shutil,threading,queue,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a=sys.argv[1:]; j,n,seed=2,8,1; files=[]
while a:
    x=a.pop(0)
    if x=='-j': j=int(a.pop(0))
    elif x=='-n': n=int(a.pop(0))
    elif x=='-s': seed=int(a.pop(0))
    else: files.append(x)
P={}
for l in open(V+'/properties.jsonl'):
    d=json.loads(l)
    for f in d['anchors']['files']: P.setdefault(f,[]).append(d['id'])
cost={'C01':500,'L01':190,'L04':142,'W09':87,'W04':86,'V06':84,'I08':84,'V03':81,'V01':81,'W02':68,'R03':67,'W14':66,'V05':65,'P01':40,'L03':50,'L05':45,'F01':30,'F02':22}
def muts(line):
    s=line.rstrip('\n'); c=s.strip(); r=[]
    if not c or c.startswith('//') or c.startswith('import') or c.startswith('package'): return r
    code=s.split(' //')[0]
    for o,w in [('&&','||'),('||','&&'),(' < ',' <= '),(' > ',' >= '),(' <= ',' < '),(' >= ',' > '),(' == ',' != '),(' != ',' == '),(' + 1',''),(' - 1',''),('true','false'),('false','true'),('continue','break'),('0o755','0o750'),('0o644','0o600'),('[1:]','[0:]'),('!strings','strings'),('HasPrefix','HasSuffix'),('HasSuffix','Contains'),('HasPrefix','Contains'),('TrimPrefix','TrimLeft'),('TrimSuffix','TrimRight'),(', 2)',', 3)'),('strings.Index(','strings.LastIndex('),('return err','return nil'),('nil, err','nil, nil'),('.Before(','.After('),('path.Clean(',' ('),('ToLower(','TrimSpace('),('TrimSpace(','ToLower(')]:
        i=code.find(o)
        while i>=0:
            r.append((code[:i]+w+code[i+len(o):],f'{o}->{w}')); i=code.find(o,i+1)
    m=re.match(r'^(\t+)if (.*) \{$',code)
    if m and ';' not in m[2]:
        r+= [(f'{m[1]}if false && ({m[2]}) {{','if false'),(f'{m[1]}if true || ({m[2]}) {{','if true')]
    if re.match(r'^\t+[\w.\[\]*]+ (=|\+=|-=) [^{]*[^{,(]$',code) or re.match(r'^\t+[\w.]+\(.*\)$',code) and not c.startswith(('return','defer','go ','func')):
        r.append(('','delete'))
    if c.startswith('defer ') and c.endswith(')'): r.append(('','delete'))
    m=re.match(r'^(\t+case )([^,]+), (.*):$',code)
    if m: r.append((m[1]+m[3]+':','drop case'))
    return r
rng=random.Random(seed); L=[]
for f in (files or sorted(P)):
    p='/repo/'+f
    if not os.path.exists(p) or f not in P: continue
    ls=open(p).readlines(); c=[(f,i,t,d) for i,l in enumerate(ls) for t,d in muts(l)]
    L+=rng.sample(c,min(n,len(c)))
rng.shuffle(L); q=queue.Queue(); [q.put(x) for x in L]
print(len(L),'mutants',flush=True)
root=tempfile.mkdtemp(prefix='auto-'); lock=threading.Lock()
def sh(c,cwd=None): return subprocess.run(c,shell=True,capture_output=True,text=True,cwd=cwd)
def out(s):
    with lock: print(s,flush=True)
def work(k):
    w=f'{root}/{k}'; os.mkdir(w); R=w+'/repo'; VV=w+'/verif'
    sh(f'cp -a /repo {R}; git -C {R} checkout -q -- .; cp -a {V} {VV}')
    while True:
        try: f,i,t,d=q.get_nowait()
        except queue.Empty: return
        p=f'{R}/{f}'; ls=open(p).readlines(); old=ls[i]
        ls[i]=t+'\n'; open(p,'w').writelines(ls); tag=f'{f}:{i+1} [{d}] {old.strip()[:90]}'
        try:
            b=sh(f'. /opt/vp/env.sh; cd {R} && go build ./... && go vet ./{os.path.dirname(f)}')
            if b.returncode: continue
            t_=sh(f'timeout 120 python3 /verif/tools/runtests.py {R}'); tl=(t_.stdout.strip().splitlines() or ['?'])[-1]
            if 'not passing 0' not in tl: out(f'tests   {tag}'); continue
            got=None; t0=time.time()
            for pr in sorted(P[f],key=lambda x:cost.get(x,10)):
                if pr=='C01' and 'vfs_fs' not in f and 'reproducible' not in f: continue
                r=sh(f'timeout 900 {VV}/bin/symgo -verif {VV} -repo {R} -tier quick check {pr}',cwd=VV)
                if r.returncode==1: got=pr; break
                if r.returncode: got=f'ERR{r.returncode}:{pr} {r.stderr[-150:]}'
            out(f'{"caught "+got if got else "SURVIVED"}  {tag} {time.time()-t0:.0f}s')
        finally:
            ls[i]=old; open(p,'w').writelines(ls)
ts=[threading.Thread(target=work,args=(k,)) for k in range(j)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(root)
