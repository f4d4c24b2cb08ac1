"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json,glob,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
t=open('DESIGN.md').read(); k='|---|---|---|\n'; h=t[:t.rindex(k)+len(k)]
for m in sorted(glob.glob('seeded/*/meta.json')):
    d=json.load(open(m)); h+='| %s | %s | %s |\n'%(m.split('/')[1],d['property'],d['needs'].replace('|','\\|').replace('\n',' '))
open('DESIGN.md','w').write(h)
