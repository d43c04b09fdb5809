#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md
import json,glob,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows={}
for f in sorted(glob.glob(here+'/seeded/*/meta.json')):
    d=json.load(open(f)); rows.setdefault(d['property'],[]).append((os.path.basename(os.path.dirname(f)),d['what_it_breaks'].strip().split('\n')[0].replace('|','/')))
t='| caught by | planted bug | what it breaks |\n|---|---|---|\n'
for k in sorted(rows):
    for i,w in rows[k]: t+='| %s | %s | %s |\n'%(k,i,w)
p=here+'/DESIGN.md'; s=open(p).read()
s=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda m:'<!-- seeds -->\n'+t+'<!-- /seeds -->',s,flags=re.S)
open(p,'w').write(s)
