#!/usr/bin/env python3
"""Write DESIGN.md: tools/design_body.md, the defects repaired (known_findings.json) and the planted bugs with what caught them (tools/caught.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(V + "/tools/design_body.md").read()
k = json.load(open(V + "/known_findings.json"))
out += "\n## 6. Defects found and repaired\n\nEach is a `fix:` commit in /repo; the check of the property passes on the repaired tree and reports the violation on the tree before.\n\n| Property | Commit | What failed |\n|---|---|---|\n"
for l in k["fixed"]:
    _, p, c, what = l.split(" ", 3)
    out += "| %s | %s | %s |\n" % (p.split("=")[1], c, what.replace("|", "\\|"))
try:
    caught = json.load(open(V + "/tools/caught.json"))
except OSError:
    caught = {}
out += "\n## 7. Planted bugs, and what caught them\n\nWritten from the properties' texts; `tools/seedmk.py` confirms each (builds, stable tests pass, demonstration fails), `tools/seedrun.py` runs the checks (quick tier, seed 1).\n\n| Bug | What it needs | Result |\n|---|---|---|\n"
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    out += "| %s | %s | %s |\n" % (i, m["needs"].replace("|", "\\|").replace("\n", " "), caught.get(i, "not run").replace("|", "\\|").replace("\n", " "))
out += """
Mutation testing (`tools/mutate.py` for the C++ sources, `tools/rmutate.py` for the Ruby library: single
operator/constant/statement changes, run against all checks concerned) was used to find weak spots; survivors were
looked at one by one, and are either equivalent (optimisations in the memory layout, error texts) or led to stronger scenarios.
"""
open(V + "/DESIGN.md", "w").write(out)
