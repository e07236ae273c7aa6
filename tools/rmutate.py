#!/usr/bin/env python3
"""Mutation testing of the checks of the Ruby bindings (development aid, not a check): see mutate.py."""
import json, os, random, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
wk, nw, seed, count, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
files = sys.argv[6:]
root = "/tmp/rmut/w%d" % wk
repo, bld = root + "/repo", root + "/build"
ORDER = {"gccxml": "C35 C38", "cxx": "C35 C38", "registry_export": "C39", "registry": "C39 C37 C36", "type": "C36 C37 C39", "container_type": "C36 C37", "path": "C39 C36"}
RUNS = {"C35": 700, "C36": 900, "C37": 900, "C38": 300, "C39": 700}
src = open(os.path.join(V, "tools/mutate.py")).read()
G = {"re": re}
exec("def muts" + src.split("def muts")[1].split("def allmuts")[0], G)
wk_cmuts = G["muts"]


def rmuts(line):
    code = line
    s = code.strip()
    if not s or s.startswith("#") or re.match(r"(end|else|ensure|begin|class|module|require|include|extend|attr_|private|def |rescue|alias)\b", s):
        return []
    if re.match(r"(Typelib\.(debug|warn|info)|raise |warn )", s):
        return []
    r = []
    c = re.sub(r"\s#\s.*$", "", code)

    def rep(pat, new):
        for m in re.finditer(pat, c):
            if c[:m.start()].count('"') % 2 or c[:m.start()].count("'") % 2:
                continue
            r.append(c[:m.start()] + (m.expand(new) if "\\" in new else new) + c[m.end():])
    rep(r" == ", " != "); rep(r" != ", " == "); rep(r" < ", " <= "); rep(r" > ", " >= "); rep(r" >= ", " > "); rep(r" <= ", " < ")
    rep(r"&&", "||"); rep(r"\|\|(?!=)", "&&"); rep(r" \+ ", " - "); rep(r" - ", " + "); rep(r"\btrue\b", "false"); rep(r"\bfalse\b", "true")
    rep(r"(?<![\w.\"'])0(?![\w.])", "1"); rep(r"(?<![\w.])1(?![\w.])", "0"); rep(r"!(?=[\w(@])", "")
    rep(r"\.first\b", ".last"); rep(r"\.any\?", ".all?"); rep(r"\.all\?", ".any?"); rep(r"\.empty\?", ".nil?"); rep(r"\bnext\b(?! unless| if)", "nil"); rep(r"\bbreak\b", "nil")
    rep(r"^(\s*)if (.*)$", r"\1if !(\2)"); rep(r"^(\s*)unless (.*)$", r"\1if (\2)"); rep(r"^(\s*)elsif (.*)$", r"\1elsif false && (\2)")
    rep(r"^(\s*)if (.*)$", r"\1if true || (\2)"); rep(r"^(\s*)if (.*)$", r"\1if false && (\2)"); rep(r"^(\s*\S.*) if (.*)$", r"\1 if !(\2)"); rep(r"^(\s*\S.*) unless (.*)$", r"\1 if (\2)")
    rep(r"^(\s*)return if .*$", r"\1nil"); rep(r"^(\s*)return unless .*$", r"\1nil")
    if re.match(r"^(@?[\w.]+(\[.*\])?( = | << |\.\w+[!?]?(\(|$| ))|[\w.]+\()", s) and not s.endswith(("do", "|", "(", ",", "{", "[", "+", "\\", "<<", "=")) and not s.startswith(("if ", "return", "when", "unless", "while", "yield", "super")):
        r.append(re.match(r"\s*", c).group(0) + "nil\n")
    return [x for x in r if x.strip() != s]


def sh(cmd, t=900):
    try:
        return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    except subprocess.TimeoutExpired:
        class R: returncode = 124; stdout = "timeout"
        return R


L = []
for f in files:
    for i, l in enumerate(open("/repo/" + f), 1):
        for m in (rmuts(l) if f.endswith(".rb") else wk_cmuts(l)):
            L.append((f, i, l.rstrip("\n"), m.rstrip("\n")))
random.Random(seed).shuffle(L)
if wk == 0:
    print(len(L), "mutants")
# few per line
seen, L2 = {}, []
for x in L:
    k = (x[0], x[1]); seen[k] = seen.get(k, 0) + 1
    if seen[k] <= 2:
        L2.append(x)
L = L2[:count][wk::nw]
os.makedirs(repo, exist_ok=True)
sh("cp -a /repo/typelib /repo/lang /repo/bindings %s/" % repo)
env = "VERIF_REPO=%s VERIF_BUILD=%s" % (repo, bld)
r = sh("%s nice python3 %s/lib/build.py asan" % (env, V))
assert r.returncode == 0, r.stdout
for f, i, old, new in L:
    p = os.path.join(repo, f)
    orig = open("/repo/" + f).read()
    src = orig.split("\n")
    assert src[i - 1] == old, (f, i)
    src[i - 1] = new
    open(p, "w").write("\n".join(src))
    res = None
    if f.endswith(".rb") and sh("ruby -c " + p).returncode:
        res = "nobuild"
    else:
        r = sh("%s nice python3 %s/lib/build.py asan" % (env, V))
        if r.returncode:
            res = "nobuild"
    if not res:
        b = os.path.basename(f).rsplit(".", 1)[0]
        first = ORDER.get(b, "C36 C37 C39").split()
        for pid in first + [x for x in RUNS if x not in first and not (b in ("gccxml", "cxx"))]:
            r = sh("cd %s && nice timeout 300 %s/asan/rbsim campaign %s --seed 5 --runs %d --jobs 1 --time 200 --mintime 0 --out %s" % (root, bld, pid, RUNS[pid], root), 400)
            if r.returncode:
                res = "%s:%d" % (pid, r.returncode)
                break
    with open(out, "a") as o:
        o.write(json.dumps(dict(file=f, line=i, old=old, new=new, res=res)) + "\n")
    open(p, "w").write(orig)
