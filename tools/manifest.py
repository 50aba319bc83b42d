#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the ids the simulator knows."""
import json, os, re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)['id'] for l in open(here+'/properties.jsonl')]
src=open(here+'/harness/sim/src/props.rs').read()
claimed=[i for i in ids if re.search(r'\("%s"'%i,src) or 'id: "%s"'%i in src]
NA=json.load(open(here+'/tools/not_applicable.json'))
NOTE=json.load(open(here+'/tools/level_notes.json'))
m={"version":1,"setup_cmd":"./check --build",
 "checks":[{"property":i,"quick_cmd":f"./check {i} --tier quick","thorough_cmd":f"./check {i} --tier thorough",
   "technique":"deterministic simulation with fault injection: seeded search over schedules and fault sequences",
   "level":"exploration",
   "level_note":NOTE.get(i,"")+" "+NOTE["all"]} for i in claimed],
 "not_applicable":[{"property":i,"reason":NA.get(i,"No check yet: the simulated world that decides it is still being built.")} for i in ids if i not in claimed],
 "notes":"No hooks in /repo: the code is driven through its public interfaces, built from /repo by the crates in harness/crates; nondeterminism is behind the dependency seams in harness/stubs. Replay a violation with ./check --replay FILE."}
for c in m["checks"]: c["level_note"]=c["level_note"].strip()
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write('\n')
print(len(claimed),'claimed')
