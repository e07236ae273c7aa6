#!/usr/bin/env python3
"""seedrun.py [-a] [ID...]: run the check of each planted bug's property (-a: all checks) against the bug,
in a scratch copy of /repo and of /verif."""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"; WT = W + "/wt2"; VC = W + "/verif"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


args = sys.argv[1:]
every = "-a" in args
args = [a for a in args if a != "-a"]
head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
os.makedirs(W, exist_ok=True)
if not os.path.isdir(WT):
    sh("git clone -q /repo " + WT)
sh("cd %s && git fetch -q /repo HEAD && git checkout -q -f %s" % (WT, head))
sh("mkdir -p %s && cd %s && tar --exclude=./build --exclude=./out --exclude=./.git --exclude=./seeded --exclude=./evidence -cf - . | tar -xf - -C %s" % (VC, V, VC))
base = "38b427e"
sys.path.insert(0, VC + "/lib")
import props
res = {}
for i in args or sorted(os.listdir(V + "/seeded")):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    sh("cd %s && git checkout -q -f ." % WT)
    # the lines changed must be the original repository's
    own = 0
    f = None
    for l in open(d + "/patch.diff", errors="surrogateescape"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m:
            n = int(m.group(1)); continue
        if l.startswith("-") and not l.startswith("---"):
            b = sh("git -C %s blame -s -L %d,%d HEAD -- %s" % (WT, n, n, f)).stdout
            if not b.lstrip("^").startswith(base[:7]) and not b.startswith("^"):
                own += 1
        if l[:1] in " -" and not l.startswith("---"):
            n = n + 1 if f else 0
    r = sh("git -C %s apply %s/patch.diff" % (WT, d))
    if r.returncode:
        print(i, "PATCH", r.stdout); continue
    todo = [prop] + ([p for p in sorted(props.PROPS) if p != prop] if every else [])
    hits = []
    for p in todo:
        if p not in props.PROPS:
            hits.append(p + ":unclaimed"); continue
        t = time.time()
        r = sh("python3 run.py " + p, cwd=VC, env=dict(os.environ, VERIF_REPO=WT, VERIF_SEED="1", VERIF_TIER="quick"))
        vio = re.findall(r"^  (.*)\nVIOLATION property=" + p, r.stdout, re.M)
        if r.returncode == 1 and vio:
            hits.append("%s CAUGHT in %.0f s: %s" % (p, time.time() - t, vio[0][:150]))
        elif r.returncode != 0:
            hits.append("%s rc=%d %s" % (p, r.returncode, r.stdout[-300:]))
        elif p == prop:
            hits.append("%s MISSED %.0fs" % (p, time.time() - t))
    print(i, "" if not own else "OWN-LINES=%d" % own, "; ".join(hits), flush=True)
    try:
        c = json.load(open(V + "/tools/caught.json"))
    except OSError:
        c = {}
    c[i] = "; ".join(hits)
    json.dump(c, open(V + "/tools/caught.json", "w"), indent=1, sort_keys=True)
sh("cd %s && git checkout -q -f ." % WT)
