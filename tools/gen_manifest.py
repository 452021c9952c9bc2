import json,sys
sys.path.insert(0,'/verif/vp')
from obligations import OBLIGATIONS, LEVEL
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={'C18':'Kani gives panics no unwinding semantics, so behaviour after a caught panic is outside what contracts over this verifier can express.',
    'C19':'Running time is not expressible in the contract language of the installed verifiers (no cost semantics).'}
NOTE=json.load(open('/tmp/w/notes.json')) if False else {}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in OBLIGATIONS:
        b=[o for o in OBLIGATIONS[i] if o['bounded']]
        note='Every obligation is a Kani harness over the real code, checked against the contracts of its callees. Assumes: sound Kani/CBMC/SAT, no allocation failure, no unwinding; termination not proved.'
        if b: note+=' %d of %d obligations are bounded stand-ins (bound stated in the evidence) and not counted as proved.'%(len(b),len(OBLIGATIONS[i]))
        checks.append(dict(property=i,quick_cmd='python3 vp/check.py '+i,thorough_cmd='python3 vp/check.py %s thorough'%i,
          technique='contract-based deductive verification (Kani contract harnesses over the real code)',level=LEVEL.get(i,'proof'),level_note=note,
          ))
        if LEVEL.get(i,'proof')=='proof': checks[-1]['theorems']=[o['name'] for o in OBLIGATIONS[i] if not o['bounded']]
    else: na.append(dict(property=i,reason=NA.get(i,'machinery for this property is not built yet')))
m=dict(version=1,setup_cmd='bash vp/setup.sh',hooks=dict(guard='cfg(vp_dense), cfg(vp_sparse), cfg(vp_node), cfg(vp_hooks), always together with cfg(kani)',enable="RUSTFLAGS='--cfg vp_<group>' HIBIT_VP_DIR=/verif/incrate cargo kani",source_commits=[]),checks=checks,not_applicable=na,notes='See DESIGN.md.')
import os
hc=os.popen("git -C /repo log --format=%h --grep='^hook:' ").read().split()
m['hooks']['source_commits']=hc
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
