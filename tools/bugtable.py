import json,os,re
D='/verif/seeded'
rows=[]
for d in sorted(os.listdir(D)):
    m=json.load(open(f'{D}/{d}/meta.json')); rows.append(f"| {d} | {m['property']} | {m['what_it_breaks'].replace('|','/')} |")
body="""## Planted bugs

Each was written from the property and the code, builds, passes the existing tests, has a demonstration that
fails only with it, and is caught by the quick check of its property (`tools/seeds.py [ID ..]` re-runs them on
scratch copies; no check reads `seeded/`).  S32 was missed at first: C11 then drew only end points in the free
space; it now also starts and ends motions inside walls.

| planted bug | caught by | what it breaks |
|---|---|---|
"""+"\n".join(rows)+"\n\n"
p='/verif/DESIGN.md'; s=open(p).read()
if '## Planted bugs' in s:
    i=s.index('## Planted bugs'); j=s.find('\n## ',i+5); s=s[:i]+body+(s[j+1:] if j>0 else '')
else: s=s.rstrip('\n')+'\n\n'+body
open(p,'w').write(s.rstrip('\n')+'\n')
