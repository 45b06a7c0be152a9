#!/usr/bin/env python3
"""Write MANIFEST.json: a check per file checks/src/bin/cNN.rs, the rest not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
SCHED = "stateless model checking of the real code: all schedules up to a preemption bound under a controlled scheduler"
FAULT = "exhaustive fault enumeration over the I/O operations of the real code (in-memory file system)"
ENUM = "bounded exhaustive enumeration of the real code's input space against a reference model"
T = {
 "C01": (SCHED, "model_checking"), "C02": (SCHED, "model_checking"), "C03": (SCHED + ", with a failure injected at every operation of a worker", "model_checking"),
 "C32": (SCHED + "; all words of queries and of renders, with injected failures", "model_checking"),
 "C04": (FAULT, "fault_enumeration"), "C10": (SCHED + ", random numbers carrying their identity", "model_checking"),
}
NOTE = {
 "model_checking": "Every execution within the stated bounds (threads, tiles, preemptions) is run on the code itself, recompiled from the working tree with locks, threads and files replaced by controlled stand-ins; trusts the stand-ins and sequential consistency between synchronisation operations.",
 "fault_enumeration": "Every I/O operation of the write path is made to fail, come short or be interrupted, for every prior file content; trusts that the in-memory file system behaves like a real one.",
 "exploration": "Every case of the finite spaces listed in the evidence is evaluated on the code itself and compared with an independent reference; inputs outside these spaces (other floats, larger scenes) are not covered.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks/src/bin/%s.rs" % i.lower())):
        tech, level = T.get(i, (ENUM, "exploration"))
        checks.append({"property": i, "quick_cmd": "bash run.sh %s quick" % i, "thorough_cmd": "bash run.sh %s thorough" % i,
                       "technique": tech, "level": level, "level_note": NOTE[level]})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "bash run.sh --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks compile a generated copy of /repo's sources (tools/gen.py) in which std::sync, std::thread, std::fs and rand are replaced by controlled stand-ins. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
