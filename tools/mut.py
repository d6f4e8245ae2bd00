#!/usr/bin/env python3
"""Development aid: applies small edits to scratch copies of /repo and runs the analyser on each.
usage: mut.py [-t] [-k SUBSTR] FILE...   (-t: also run the existing tests on each)
FILE is a python file defining M = [(name, expect, [(file, old, new), ...]), ...]
expect: '+C01' must be reported by C01, '-C01,C02' must stay quiet."""
import sys,os,shutil,subprocess,runpy,json,concurrent.futures as cf
args=sys.argv[1:]; tests='-t' in args; args=[a for a in args if a!='-t']
key=None
if '-k' in args:
    i=args.index('-k'); key=args[i+1]; del args[i:i+2]
props=None
if '-p' in args:
    i=args.index('-p'); props=args[i+1].split(','); del args[i:i+2]
M=[]
for f in args: M+=runpy.run_path(f)['M']
env=dict(os.environ); 
AN=os.environ.get('AN','/tmp/an')
def run(m):
    name,exp,subs=m
    d='/tmp/w/'+name
    shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d,ignore=shutil.ignore_patterns('.git'))
    for f,a,b in subs:
        p=d+'/'+f
        s=open(p).read() if os.path.exists(p) else ''
        if a=='$': s+=b
        else:
            if s.count(a)!=1: return name,'BADSUB %r x%d'%(a[:40],s.count(a)),''
            s=s.replace(a,b)
        open(p,'w').write(s)
    r=subprocess.run('. /opt/vp/env.sh; go build ./... 2>&1',shell=True,cwd=d,env=env,capture_output=True,text=True)
    if r.returncode: return name,'NOBUILD',r.stdout[-600:]
    t=''
    if tests:
        r=subprocess.run('. /opt/vp/env.sh; go test . ./locales 2>&1 | grep -E "^(--- FAIL|FAIL|panic)"',shell=True,cwd=d,env=env,capture_output=True,text=True)
        t=' tests:'+('ok' if not r.stdout else r.stdout.replace('\n',' ')[:120])
    out=[];ok=True
    for p in exp[1:].split(','):
        if props and p not in props: continue
        vd='/tmp/w/%s.v.%s'%(name,p); os.makedirs(vd,exist_ok=True)
        for g in ('known_findings.txt','properties.jsonl'):
            if os.path.exists('/verif/'+g): shutil.copy('/verif/'+g,vd)
        r=subprocess.run(['timeout','900',AN,'-prop',p,'-repo',d,'-verif',vd],capture_output=True,text=True,errors='replace',env=env)
        good = r.returncode==(1 if exp[0]=='+' else 0)
        lines=[l for l in (r.stdout+r.stderr).splitlines() if l.strip() and not (l.startswith('  ') and l.split()[-1].isdigit()) and not l.startswith('VIOLATION')]
        if not good: ok=False
        if r.returncode==0: out.append('%s quiet'%p)
        else: out.append('%s rc=%d: %s'%(p,r.returncode,' | '.join(x.strip() for x in lines[1:])[:420]))
        shutil.rmtree(vd,ignore_errors=True)
    shutil.rmtree(d,ignore_errors=True)
    return name,('ok  ' if ok else 'MISS ' if exp[0]=='+' else 'ALARM ')+t,'; '.join(out)
with cf.ThreadPoolExecutor(int(os.environ.get('J','4'))) as ex:
    for r in ex.map(run,[m for m in M if not key or key in m[0]]): print(*r,flush=True)
