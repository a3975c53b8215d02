#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={
 "C19":"A pure function of its arguments: no schedule, clock, I/O, crash or second party can influence it, so simulated histories and faults add nothing to plain input testing. What the claimed properties need of it is checked on the way: every signature made in a run is verified by an independent implementation (C01, C10, C18), and verdicts are compared with it (C03).",
 "C22":"The simulator counts steps, not cycles: caches, branch prediction and instruction timing are outside what it controls, so it cannot observe the leak.",
}
NOTE={}
for p in props: NOTE[p['id']]="Seeded search over schedules, inputs and fault sequences in a deterministic simulator: real library code, real getrandom and rpassword crates and real std above libc; the kernel (files, terminal, standard streams, clock, entropy), threads' scheduling and data sources are simulated. Not exhaustive; trusts the simulated kernel's model of Linux and the independent reference (ed25519-dalek, own BLAKE2b and formats)."
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    checks.append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",
      evidence_file=f"evidence/{i}.json",
      technique="deterministic simulation with fault injection: seeded schedules and fault sequences, reference-model oracle, shrinking replay",
      level="exploration",level_note=NOTE[i]))
m=dict(version=1,setup_cmd="bash check.sh setup",
  hooks=dict(guard="none",enable="No hooks in /repo. The checks compile /repo's crate unchanged; every source of nondeterminism is intercepted below it, at the C library symbols that std, getrandom and rpassword call, and the instrumentation comes from compiler flags set by sim/wrap.sh.",source_commits=[]),
  checks=checks,
  not_applicable=[dict(property=p['id'],reason=NA[p['id']]) for p in props if p['id'] in NA],
  notes="bash check.sh replay <file> re-executes a violation exactly; bash check.sh trace Cxx N shows run N of the seed. known-findings.txt lists the defects found and fixed.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
