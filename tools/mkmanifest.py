#!/usr/bin/env python3
# writes MANIFEST.json from the table below
import json,os
V='/verif'
props=[json.loads(l) for l in open(f'{V}/properties.jsonl')]
T="contract-based deductive verification: contracts (specs/*.spec) on the real Go functions, obligations generated from go/ssa of /repo on every run by govc (symbolic execution per function, callees by contract, loops by invariant) and discharged by z3/cvc5; counterexamples replayed on the real code"
claims=json.load(open(f'{V}/tools/claims.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    c=claims.get(i)
    if c and c.get('claim'):
        e={"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":c.get('technique',T),"level":c['level'],"level_note":c['note']}
        if c.get('theorems'): e['theorems']=c['theorems']
        checks.append(e)
    else:
        na.append({"property":i,"reason":(c or {}).get('reason','no check built yet')})
m={"version":1,"setup_cmd":"bash govc/build.sh","checks":checks,"not_applicable":na,"notes":"known_findings.txt lists genuine defects; DESIGN.md describes the verifier, its assumptions and per-property coverage"}
json.dump(m,open(f'{V}/MANIFEST.json','w'),indent=1); open(f'{V}/MANIFEST.json','a').write('\n')
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),'claimed',len(na),'not')
