#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed checks (CLAIM) and the not-applicable list."""
import json,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
exec(open(here+'/tools/claims.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIM:
        t,n=CLAIM[i]
        checks.append(dict(property=i,quick_cmd='./check.sh %s quick'%i,thorough_cmd='./check.sh %s thorough'%i,technique=t,level='other',level_note=n))
    else:
        na.append(dict(property=i,reason=NA.get(i,'check not built yet')))
m=dict(version=1,setup_cmd='bash tools/setup.sh',checks=checks,not_applicable=na,notes='Static analysis only: every check type-checks /repo, builds its SSA form and decides its obligations on that; nothing of /repo is run.')
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write('\n')
