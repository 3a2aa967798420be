"""seedtable.py: rewrite the table of planted bugs in DESIGN.md (development aid)."""
import json,glob,os,re
H='/verif'
rows=['| bug | property | needs | caught by |','|---|---|---|---|']
for p in sorted(glob.glob(H+'/seeded/*/meta.json')):
    m=json.load(open(p)); b=os.path.basename(os.path.dirname(p))
    rows.append(f"| {b} | {m['property']} | {m['needs']} | {m['property']} |")
s=open(H+'/DESIGN.md').read()
t='<!-- seeded -->\n'+'\n'.join(rows)+'\n<!-- /seeded -->\n'
s=s.replace('SEEDTABLE',t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeded -->.*<!-- /seeded -->\n',lambda m:t,s,flags=re.S)
open(H+'/DESIGN.md','w').write(s)
