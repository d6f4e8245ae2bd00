#!/usr/bin/env python3
"""Development aid: builds and confirms the planted bugs of tools/seeds/*.py.
usage: seed.py [-k SUBSTR] [-n]      (-n: only run the checks, do not rewrite)
Each seed: id: dict(prop, subs=[(file, old, new)], needs, breaks, demo=Go test source of TestDemo)."""
import sys,os,glob,shutil,subprocess,runpy,json,concurrent.futures as cf
base='2daffe6'
key=sys.argv[sys.argv.index('-k')+1] if '-k' in sys.argv else None
AN=os.environ.get('AN','/tmp/an')
S={}
for f in sorted(glob.glob('/verif/tools/seeds/*.py')): S.update(runpy.run_path(f)['S'])
DEMO='''#!/bin/bash
# exits 0 on the unchanged tree and non-zero with the change
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
ov=$(mktemp)
trap 'unlink "$ov"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$d" > "$ov"
timeout 250 go test -vet=off -count=1 -overlay "$ov" -run '^TestDemo$' . 
'''
def sh(c,d): return subprocess.run(c,shell=True,cwd=d,capture_output=True,text=True,errors="replace")
def run(i):
    s=S[i]; d='/tmp/sd/'+i
    shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d)
    orig=False
    for f,a,b in s['subs']:
        p=d+'/'+f; t=open(p).read()
        if t.count(a)!=1: return i,'BADSUB %r x%d'%(a[:50],t.count(a))
        open(p,'w').write(t.replace(a,b))
    diff=sh('git diff',d).stdout
    for f in set(f for f,_,_ in s['subs']):
        bl=sh('git blame -s %s HEAD -- %s'%('',f),d).stdout.splitlines()
        n=0
        for l in sh('git diff -U0 -- '+f,d).stdout.splitlines():
            if l.startswith('@@'):
                o=l.split()[1][1:].split(','); st=int(o[0]); c=int(o[1]) if len(o)>1 else 1
                for k in range(st,st+c):
                    if bl[k-1].startswith('^') : orig=True
    if not orig: return i,'NO ORIGINAL LINE CHANGED'
    r=sh('. /opt/vp/env.sh; gofmt -l '+' '.join(sorted(set(x[0] for x in s['subs'])-{'access.go'}))+'; go build ./... 2>&1',d)
    if r.stdout.strip(): return i,'VET '+r.stdout[:600]
    r=sh('. /opt/vp/env.sh; go test . ./locales 2>&1',d)
    if r.returncode: return i,'TESTS '+r.stdout[-1200:]
    o='/verif/seeded/'+i
    shutil.rmtree(o,ignore_errors=True); os.makedirs(o)
    open(o+'/patch.diff','w').write(diff)
    open(o+'/demo.sh','w').write(DEMO); os.chmod(o+'/demo.sh',0o755)
    open(o+'/demo_test.go.txt','w').write(s['demo'])
    json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(o+'/meta.json','w'),indent=1)
    a=sh('bash %s/demo.sh'%o,'/repo'); b=sh('bash %s/demo.sh'%o,d)
    if a.returncode: return i,'DEMO FAILS UNCHANGED '+a.stdout[-1000:]+a.stderr[-300:]
    if b.returncode==0: return i,'DEMO PASSES PATCHED'
    if 'build failed' in b.stdout: return i,'DEMO DOES NOT BUILD '+b.stdout
    vd='/tmp/sd/%s.v'%i; os.makedirs(vd,exist_ok=True); shutil.copy('/verif/known_findings.txt',vd)
    r=sh('timeout 900 %s -prop %s -repo %s -verif %s'%(AN,s['prop'],d,vd),d)
    v=[l for l in r.stdout.splitlines() if l.strip()]
    bad=[j for j,l in enumerate(v) if l.startswith(s['prop']+': ') and 'obligations' not in l]
    msg=' | '.join(v[j]+v[j+1]+' '+v[j+2].strip() for j in bad[:2] if j+2<len(v))
    shutil.rmtree(d,ignore_errors=True); shutil.rmtree(vd,ignore_errors=True)
    return i,('CAUGHT rc=%d '%r.returncode if r.returncode==1 else 'MISSED rc=%d '%r.returncode)+msg[:400]+(r.stderr[-300:] if r.returncode>1 else '')
with cf.ThreadPoolExecutor(int(os.environ.get('J','6'))) as ex:
    for r in ex.map(run,[i for i in S if not key or key in i]): print(*r,flush=True)
