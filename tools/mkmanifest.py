"""writes MANIFEST.json from props.py"""
import json,sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
from props import PROPS,NA
allp=[json.loads(l)['id'] for l in open('properties.jsonl')]
checks=[]
for p in allp:
    if p in PROPS:
        P=PROPS[p]
        checks.append(dict(property=p,quick_cmd='VERIF_TIER=quick python3-vt check.py '+p,thorough_cmd='VERIF_TIER=thorough python3-vt check.py '+p,evidence_file='evidence/%s.json'%p,
          technique=P['technique'],level=P['level'],level_note=P['note']))
na=[dict(property=p,reason=NA.get(p,'not yet under contract')) for p in allp if p not in PROPS]
json.dump(dict(version=1,setup_cmd='true',checks=checks,not_applicable=na,
  notes='Deductive part: vc/ generates verification conditions from the LLVM IR of the real headers (every run, from /repo) and discharges them with z3/cvc5. Bounded part: harness/ runs histories on the real containers against a reference model; labelled bounded in the evidence.'),open('MANIFEST.json','w'),indent=1)
