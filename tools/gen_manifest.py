#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, lib/props.py and the list below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
NA = {
 "C31": "Type-name string manipulation is a pure function of its input strings; no nondeterminism or fault for a simulator to decide.",
 "C32": "value_cast is a pure check on a type descriptor; no schedule, I/O, clock or fault is involved.",
}
ids = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in ids:
    i = p["id"]
    if i in props.PROPS:
        c = props.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": "exploration", "level_note": c["note"] + " A clean batch is evidence, not proof."})
    else:
        na.append({"property": i, "reason": NA.get(i, "The check for this property is still being built.")})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks were added to /repo: all seams are the allocator, libc/pthread symbol interposition, the library's own stream and visitor interfaces, and compiler instrumentation (see DESIGN.md). Commits in /repo are 'fix:' repairs listed in known_findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
