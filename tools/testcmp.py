#!/usr/bin/env python3
"""Compare a test result file with the baseline."""
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def names(x,k):
    v=x.get(k)
    return set(v) if v else set()
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()})
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in t.items()})
bl=b.get('stable') or b.get('passed') or b.get('tests')
missing=[x for x in bl if x not in set(t.get('passed') or t.get('pass') or [])]
print("missing:",missing)
sys.exit(bool(missing))
