#!/usr/bin/env python3
# writes MANIFEST.json from the list of properties and the notes below
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
CTL="stateless model checking of the real code: exhaustive enumeration of schedules under a controlled scheduler"
NAT="exhaustive enumeration of operation sequences and inputs against a reference model"
FLT="exhaustive enumeration of faults and crash states"
A="Assumes sequential consistency of synchronisation operations (plain accesses are covered by the happens-before race detector of the scheduler) and the bounds in DESIGN.md and the evidence; trusts the shims of the standard library."
T={}
def t(ids,tech,note):
    for i in ids.split(): T[i]=(tech,note)
t("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10",CTL+" with linearizability checking, and "+NAT,
  "All interleavings of small concurrent programs up to a preemption bound, and all operation sequences up to a depth, of the current code. "+A)
t("C11 C12 C13 C14",CTL+", time and channel choices included",
  "All interleavings of small concurrent programs up to a preemption or delay bound, with time passing as a choice. "+A)
try:
    exec(open('/verif/tools/manifest_more.py').read())
except FileNotFoundError: pass
NA={}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in T:
        checks.append(dict(property=i,quick_cmd=f"./check -tier quick {i}",thorough_cmd=f"./check -tier thorough {i}",evidence_file=f"evidence/{i}.json",technique=T[i][0],level="model_checking",level_note=T[i][1]))
    else:
        na.append(dict(property=i,reason=NA.get(i,"the check is not built yet")))
m=dict(version=1,setup_cmd="./setup",checks=checks,not_applicable=na,
 notes="No hooks in /repo: the checks copy the current packages into a scratch module and rewrite their imports, goroutines and channel operations there.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
