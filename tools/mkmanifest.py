#!/usr/bin/env python3
"""Writes MANIFEST.json: the properties that have contracts are claimed, the rest are not applicable."""
import json,os,re,sys
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
NA=json.load(open(here+'/tools/not_applicable.json'))
NOTE=json.load(open(here+'/tools/level_notes.json'))
TRUST=('Trusted: the verifier gov (Go SSA to SMT, in /verif/gov), go/ssa, z3 and cvc5, the models of library functions listed in the evidence; '
 'int and int64 arithmetic is mathematical, 8, 16 and 32 bit arithmetic exact; one goroutine per transaction.')
checks=[];na=[]
for p in props:
    i=p['id']
    if i in NA: na.append(dict(property=i,reason=NA[i])); continue
    checks.append(dict(property=i,quick_cmd='sh check.sh '+i,thorough_cmd='VERIF_TIER=thorough sh check.sh '+i,
      evidence_file='evidence/%s.json'%i,
      technique='contract-based deductive verification of the Go source (contracts over go/ssa, verification conditions discharged by z3 and cvc5); a failed obligation is replayed on the real code',
      level='proof',level_note=(NOTE.get(i,'')+' '+TRUST).strip()))
m=dict(version=1,setup_cmd='sh setup.sh',checks=checks,not_applicable=na,
 notes='No hooks are needed: contracts are overlaid on /repo at check time (see DESIGN.md). Known findings and repaired defects are in known-findings.txt.')
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
open(here+'/MANIFEST.json','a').write('\n')
