"""writes MANIFEST.json from properties.jsonl and properties.meta.json"""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
meta=json.load(open('/verif/properties.meta.json'))
checks,na=[],[]
for p in props:
    m=meta.get(p['id'])
    if not m or m.get('na'):
        na.append({"property":p['id'],"reason":(m or {}).get('na','not built yet')})
        continue
    note={'proof':'Every obligation of the contracts and lemmas tagged %s is generated from the current source and discharged by SMT solvers for all inputs; ',
          'exploration':'Bounded only (stated as such, not proved): ', 'other':'Part proved, part bounded: '}[m['level']]
    note=(note%p['id'] if '%s' in note else note)
    note+=m.get('note','')+' Bounded stand-in: '+m.get('bounded','none')+'. See DESIGN.md for the assumptions.'
    checks.append({"property":p['id'],"quick_cmd":"python3 check.py %s quick"%p['id'],"thorough_cmd":"python3 check.py %s thorough"%p['id'],
      "technique":m.get('technique','contract-based deductive verification of the real Go code (govc: SSA to SMT), with a bounded replay harness'),
      "level":m['level'],"level_note":note,**({"theorems":m['theorems']} if m.get('theorems') else {})})
json.dump({"version":1,"setup_cmd":"python3 -c \"import sys; sys.path.insert(0,'/verif'); import check,tempfile,shutil; d=tempfile.mkdtemp(); check.build_tool(d); shutil.rmtree(d)\"",
 "checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
