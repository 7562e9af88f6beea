#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of implemented scenarios."""
import json, os, subprocess
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
impl=subprocess.run([os.path.join(root,"target/release/simcheck"),"list"],capture_output=True,text=True).stdout.split()
NOTE={
}
default="Seeded simulation of the real library code over simulated sources, tasks, clock, disk and hash seeds, compared step by step with a small reference model. Evidence by sampling (every run repeatable from its seed), not proof; trusts the simulator, the reference model, and the third-party crates it runs unmodified."
pure="A pure function of its input: no schedule, clock, I/O, randomness, fault or interleaving for a simulator to control; it calls for input generation against a reference, which is a different technique."
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in impl:
        checks.append(dict(property=i,quick_cmd=f"bash check.sh {i}",thorough_cmd=f"bash check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json",technique="deterministic simulation with fault injection (seeded search, choice-sequence replay)",
            level="exploration",level_note=NOTE.get(i,default)))
    else:
        na.append(dict(property=i,reason=pure if i>="C50" else "not built yet"))
json.dump(dict(version=1,setup_cmd="bash build.sh",checks=checks,not_applicable=na,
  notes="No hooks are needed in /repo: the simulator enters through the library's own trait seams (readers, wakers, transports), the vendored executor stub, the allocator, and interposed libc symbols."),
  open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(checks),len(na))
