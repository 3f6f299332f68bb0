#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os, re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
go=''.join(open(os.path.join(here,'mc',f)).read() for f in os.listdir(here+'/mc') if f.endswith('.go'))
have=set(re.findall(r'register\("(C\d\d)"',go))
tech={
 'seq':'bounded exhaustive exploration of the real code (all networks/inputs/choice sequences within bounds) against an independent reference model',
 'hist':'exhaustive exploration of all operation sequences up to a depth on the real code against a reference model',
 'sched':'stateless model checking of the real code: all interleavings up to a preemption bound under a controlled scheduler, with race detection on every schedule',
}
kind={'C10':'hist','C11':'hist','C12':'sched','C13':'sched','C22':'sched','C23':'sched','C14':'hist','C28':'sched','C30':'hist'}
sched=set(open(here+'/mc/instrumented.txt').read().split()) if os.path.exists(here+'/mc/instrumented.txt') else set()
note='Every case within the bounds listed in the evidence file is executed on the code built from /repo and compared with the oracle; nothing is sampled. Trusts the oracle in /verif/mc, the Go toolchain, and that behaviour outside the bounds is alike.'
notes={'sched':'All schedules of the listed drivers up to the preemption bound are executed on the real code with its sync operations routed through a cooperative scheduler; the race detector judges each schedule. Trusts the scheduler shim; memory orderings weaker than the race detector\'s happens-before are covered only through race freedom.'}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have:
        k=kind.get(i,'seq')
        checks.append(dict(property=i,quick_cmd=f'VERIF_TIER=quick ./run.sh {i}',thorough_cmd=f'VERIF_TIER=thorough ./run.sh {i}',
          evidence_file=f'evidence/{i}.json',technique=tech[k],level='model_checking',level_note=notes.get(k,note)))
    else:
        na.append(dict(property=i,reason='no check built yet'))
m=dict(version=1,setup_cmd='./setup.sh',hooks=dict(guard='none',enable='no hooks are committed in /repo; checks that need control of scheduling or randomness rewrite the current sources through a build overlay (go build -overlay) generated at check time',source_commits=[]),
  checks=checks,not_applicable=na,notes='See DESIGN.md. Fixed defects are listed in KNOWN_FINDINGS.txt.')
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write('\n')
print(len(checks),'claimed',len(na),'not')
