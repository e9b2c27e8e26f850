"""writes ledger.json: the fingerprints of the code whose proofs were accepted here.
Only used to tell a slow machine from changed code; every run proves again."""
import json,subprocess,sys,tempfile,os
sys.path.insert(0,'/verif'); import check
d=tempfile.mkdtemp(); g=check.build_tool(d); led={}; bad=[]
subprocess.run([g,'-out',d+'/r.json','-deep','30'])
for u in json.load(open(d+'/r.json'))['units']:
    if u['status']=='proved': led[u['name']]=u['fingerprint']
    else: bad.append((u['name'],u['status']))
subprocess.run([sys.executable,'/verif/mkhints.py',d+'/r.json'])
json.dump(led,open('/verif/ledger.json','w'),indent=1,sort_keys=True)
print(len(led),'proved',bad)
subprocess.run(['rm','-rf',d])
