#!/usr/bin/env python3
"""Write MANIFEST.json from the lists below (the checks are registered in checks/runs.txt)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
CLAIM = open(V + "/checks/claimed.txt").read().split()
NOTE = ("Real conmand and conman code (every source file of Makefile.am, unmodified) runs inside the simulator's single process; "
        "kernel, clock, threads, sockets, ttys, pipes, disk, signals, DNS and libipmiconsole are simulated. Seeded random search over "
        "schedules, inputs and faults: absence of a violation is evidence over the explored seeds, not a proof. Trusts the simulated "
        "kernel's semantics and the oracle in /verif/sim.")
EXTRA = {}
m = {"version": 1,
     "setup_cmd": "python3 tools/build.py",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the sources are compiled with the system calls redirected (see DESIGN.md)."}
for p in props:
    i = p["id"]
    if i in CLAIM:
        m["checks"].append({"property": i, "quick_cmd": "checks/run.sh %s quick" % i,
            "thorough_cmd": "checks/run.sh %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection (seeded schedule and fault search, history checked against a reference model)",
            "level": "exploration", "level_note": EXTRA.get(i, "") + NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not registered yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
