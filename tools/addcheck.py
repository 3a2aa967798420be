"""addcheck.py: merge the properties' check descriptions into checks.json (development aid)."""
import json,sys,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=H+'/checks.json'; c=json.load(open(p))
c.update(json.load(sys.stdin))
json.dump({k:c[k] for k in sorted(c)},open(p,'w'),indent=1)
os.system(f'python3 {H}/tools/mkmanifest.py')
