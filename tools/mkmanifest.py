#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 mc/build.py /dev/shm/mcb-setup scn/common.cpp scn/smoke.cpp && /dev/shm/mcb-setup/mcrun --lib /dev/shm/mcb-setup/libscn.so --scn smoke --bound 0 --out /dev/shm/mcb-setup/o.json && rm -rf /dev/shm/mcb-setup",
  "hooks": {"guard": "MCSIM", "enable": "none needed: no source of /repo was instrumented; mc/build.py compiles /repo's sources unchanged (-DMCSIM=1 is defined but unused) and renames the system calls of the object files to the virtual kernel's", "source_commits": []},
  "checks": [], "not_applicable": [],
  "notes": "Every check builds the current /repo sources together with mcsim (controlled scheduler + virtual kernel), explores all executions of its scenarios within the stated bound, replays each violation before reporting it and rewrites evidence/<id>.json. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough", "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": c["level"],
          "level_note": c.get("note", "Exhaustive within the bounds recorded in the evidence file, on the real code; trusts mcsim's virtual kernel (sequentially consistent memory, preemption at intercepted operations, unbounded in-order sockets) and the reference model in the scenario.")})
    else: m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
