#!/usr/bin/env python3
# renews the table of planted bugs in DESIGN.md
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open('%s/seeded/%s/meta.json'%(V,d)))
    rows.append('| %s | %s | %s | %s | %s |'%(d,m['property'],m['what_it_breaks'],m['needs'],m.get('caught','by '+m['property'])))
t='<!-- seeds -->\nEach was confirmed to build, to pass the tests and to fail its demonstration.\n\n| planted bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n'+'\n'.join(rows)+'\n<!-- /seeds -->'
p=V+'/DESIGN.md'; s=open(p).read()
s=re.sub(r'<!-- seeds -->.*<!-- /seeds -->|SEEDTABLE',lambda _:t,s,flags=re.S)
open(p,'w').write(s)
