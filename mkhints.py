"""writes hints.json from a report: per unit, the invariants that sufficed. Only an order of attempts:
govc proves every one of them again and falls back to all candidates."""
import json,sys
r=json.load(open(sys.argv[1])); f='/verif/hints.json'
try: h=json.load(open(f))
except Exception: h={}
for u in r['units']:
    if u['status']=='proved' and u.get('hints'):
        h[u['name']]=sorted(set(u['hints']))
json.dump(h,open(f,'w'),indent=0,sort_keys=True)
