"""Fills the planted-bugs table of DESIGN.md from seeded/*/meta.json and tools/seed_notes.json (id -> remark)."""
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes=json.load(open(V+'/tools/seed_notes.json'))
rows=[]
for p in glob.glob(V+'/seeded/*/meta.json'):
    m=json.load(open(p)); i=os.path.basename(os.path.dirname(p))
    rows.append((m['property'],i,m['needs'],notes.get(i,'')))
rows.sort()
t='## Planted bugs and what catches them\n\nEvery bug below is caught by the check of its own property (quick tier, seed 1). "At first missed" names what the\ncheck got to catch it.\n\n| property | bug | needs | remark |\n|---|---|---|---|\n'+''.join('| %s | %s | %s | %s |\n'%(a,b,c.replace('|','/'),d) for a,b,c,d in rows)+'\n'
p=V+'/DESIGN.md'; s=open(p).read()
s=re.sub(r'## Planted bugs and what catches them.*?(?=## Limits)','@@SEEDS@@\n',s,flags=re.S).replace('@@SEEDS@@\n',t)
open(p,'w').write(s)
print(len(rows))
