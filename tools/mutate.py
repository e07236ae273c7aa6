#!/usr/bin/env python3
"""Mutation testing of the checks (development aid, not a check).

mutate.py WORKER NWORKERS SEED COUNT OUT.jsonl [FILE...]
Each mutant is a one-line change of a line that the simulations execute (coverage from /tmp/covb/g), built
in a scratch copy and run against every scenario with a small number of runs; the first alarm ends it.
"""
import json, os, random, re, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
wk, nw, seed, count, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
files = sys.argv[6:]
COV = "/tmp/covb/g"
root = "/tmp/mut/w%d" % wk
repo, bld = root + "/repo", root + "/build"
ORDER = {"value_ops": "C01 C02 C03 C04 C05 C06 C30 C07 C20", "memory_layout": "C06 C01 C05 C20", "containers": "C07 C06 C04 C05", "registry": "C08 C10 C09 C20 C12",
         "typemodel": "C09 C20 C08 C06", "typename": "C10 C08", "typebuilder": "C10", "export": "C33 C12 C11 C19", "import": "C12 C13", "pluginmanager": "C17 C11",
         "csvoutput": "C34", "endianness": "C30", "exporter": "C11 C19 C33", "value": "C21", "typevisitor": "C21"}
ALL = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C19 C20 C21 C30 C33 C34 C17".split()


def covered(f):
    """line numbers executed"""
    b = os.path.basename(f) + ".gcov"
    # export.cc exists twice
    p = os.path.join(COV, b)
    r = set()
    if not os.path.exists(p):
        return None
    for l in open(p, errors="replace"):
        a = l.split(":", 2)
        if len(a) < 3:
            continue
        c = a[0].strip()
        if c not in ("-", "#####", "=====") and c[0].isdigit():
            r.add(int(a[1]))
    return r


def muts(line):
    """all one-step mutations of a line"""
    code = line.split("//")[0]
    if '"' in code and "throw" in code:
        return []
    s = code.strip()
    if not s or s.startswith(("#", "*", "/*", "using", "namespace", "template", "class", "struct")):
        return []
    r = []

    def rep(pat, new):
        for m in re.finditer(pat, code):
            # not inside string literals
            if code[:m.start()].count('"') % 2:
                continue
            n = m.expand(new) if "\\" in new else new
            r.append(code[:m.start()] + n + code[m.end():])
    rep(r"(?<=[\w)\]]) < (?=\w|\()", " <= "); rep(r" <= ", " < "); rep(r"(?<=[\w)\]]) > (?=\w|\()", " >= "); rep(r" >= ", " > ")
    rep(r" == ", " != "); rep(r" != ", " == "); rep(r" \+ ", " - "); rep(r" - ", " + "); rep(r" \* (?=\w)", " + ")
    rep(r" \+= ", " -= "); rep(r" \+= ", " = "); rep(r"&&", "||"); rep(r"\|\|", "&&")
    rep(r"\btrue\b", "false"); rep(r"\bfalse\b", "true")
    rep(r"(?<![\w.])0(?![\w.])", "1"); rep(r"(?<![\w.])1(?![\w.])", "0"); rep(r"(?<![\w.])1(?![\w.])", "2")
    rep(r"!(?=[\w(])", "")
    rep(r"\bif \((.*)\)\s*$", r"if (!(\1))")
    rep(r"\bif \((.*)\)\s*$", r"if ((\1) && false)")
    rep(r"\bif \((.*)\)\s*$", r"if ((\1) || true)")
    rep(r"\bbreak;", ";"); rep(r"\bcontinue;", ";")
    rep(r"\+\+it\b", "it")
    if re.match(r"^[\w:.>\-\[\]()* ]+(\(.*\)| = .*| \+= .*| -= .*);$", s) and not re.match(r"^(return|throw|case|default|delete|[\w:<>, ]+[&*]? [\w]+ = |[\w:<>]+[&*]* \w+\()", s):
        r.append(re.match(r"\s*", code).group(0) + ";\n")
    if s.startswith("throw ") and s.endswith(";"):
        r.append(re.match(r"\s*", code).group(0) + ";\n")
    return [x for x in r if x.strip() != s]


def allmuts():
    L = []
    for f in files:
        p = os.path.join(V and os.environ.get("VERIF_REPO", "/repo"), f)
        cov = covered(f) if os.path.basename(f) != "export.cc" else None
        for i, l in enumerate(open(p), 1):
            if cov is not None and i not in cov:
                continue
            for m in muts(l):
                L.append((f, i, l.rstrip("\n"), m.rstrip("\n")))
    return L


def sh(cmd, t=600):
    try:
        return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    except subprocess.TimeoutExpired as e:
        class R: returncode = 124; stdout = "timeout"
        return R


def main():
    L = allmuts()
    random.Random(seed).shuffle(L)
    L = L[:count][wk::nw]
    if not os.path.isdir(root):
        os.makedirs(repo)
        sh("cp -a /repo/typelib /repo/lang /repo/bindings %s/" % repo)
    env = "VERIF_REPO=%s VERIF_BUILD=%s" % (repo, bld)
    sh("cp -a /repo/typelib /repo/lang /repo/bindings %s/" % repo)
    r = sh("%s nice python3 %s/lib/build.py asan" % (env, V))
    assert r.returncode == 0, r.stdout
    for f, i, old, new in L:
        p = os.path.join(repo, f)
        src = open("/repo/" + f).read().split("\n")
        assert src[i - 1] == old, (f, i)
        src[i - 1] = new
        open(p, "w").write("\n".join(src))
        r = sh("%s nice python3 %s/lib/build.py asan" % (env, V))
        res = None
        if r.returncode:
            res = "nobuild"
        else:
            b = os.path.basename(f).rsplit(".", 1)[0]
            first = ORDER.get(b, "").split()
            for pid in first + [x for x in ALL if x not in first]:
                n = 600 if pid == "C17" else 2500
                r = sh("cd %s && nice timeout 120 %s/asan/tsim campaign %s --seed 5 --runs %d --jobs 1 --time 60 --mintime 0 --out %s" % (root, bld, pid, n, root), 200)
                if r.returncode:
                    res = "%s:%d" % (pid, r.returncode)
                    break
        with open(out, "a") as o:
            o.write(json.dumps(dict(file=f, line=i, old=old, new=new, res=res)) + "\n")
        open(p, "w").write(open("/repo/" + f).read())


main()
