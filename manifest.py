#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the lists below."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={
 'N01':'A pure function of one line with no schedule, time, I/O or party to vary: a simulator has nothing to decide; the simulated scenarios use it as part of the system (C03-C06).',
 'N02':'A pure function of a path string; nothing nondeterministic takes part, so seeded simulation would be plain input generation.',
}
import subprocess
have=subprocess.run(['/verif/sim/target/debug/sim','list'],capture_output=True,text=True).stdout.split('\n')
have={l.split()[0]:l.split()[1:] for l in have if l}
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    if i not in have: continue
    checks.append({
     'property':i,
     'quick_cmd':f'bash check.sh {i}',
     'thorough_cmd':f'VERIF_TIER=thorough bash check.sh {i}',
     'evidence_file':f'evidence/{i}.json',
     'technique':'deterministic simulation with fault injection: the real code of '+ ('the command line' if i in ('C08','C16','C17') else 'the libraries') +' under a seeded scheduler, clock, file system, network and randomness ('+', '.join(have[i])+'), checked against an executable reference model',
     'level':'exploration',
     'level_note':'Seeded search over inputs, schedules and fault sequences, not exhaustive. Trusts the simulator (libc-level interposition), the reference model in sim/scen and the operating system below it. Crash model: the process is killed and data handed to the kernel survives, or power is lost and data that was not synced is missing.',
    })
m={'version':1,'setup_cmd':'bash build.sh','checks':checks,
   'not_applicable':[{'property':k,'reason':v} for k,v in NA.items()]+[{'property':p['id'],'reason':'check not built yet'} for p in props if p['id'] not in NA and p['id'] not in have],
   'notes':'No hooks in /repo: every seam is at the libc boundary (interposed symbols) plus compiler edge instrumentation chosen by the build wrapper sim/rustc-wrapper.sh. Commits in /repo are fixes only, listed in known_findings.txt.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
