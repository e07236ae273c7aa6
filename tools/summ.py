#!/usr/bin/env python3
"""Summarise the result files of the last campaigns."""
import json,sys
full="-v" in sys.argv
for p in [a for a in sys.argv[1:] if a!="-v"]:
    try: d=json.load(open(f"/verif/out/{p}.result.json"))
    except Exception as e: print(p,e); continue
    print(p,{k:d[k] for k in d if k not in("violations","samples","counters")})
    if full: print("   ",d["counters"])
    for v in d["violations"]: print("   V",v["class"],v.get("count"),v["detail"][:300],v["replay"])
