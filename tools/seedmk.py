#!/usr/bin/env python3
"""seedmk.py SPEC.py [ID...]: write seeded/<id>/ from a spec and try each in a scratch copy of /repo.

A spec is a Python file calling bug(id, property, file, old, new, needs, breaks, demo).
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedwork/wt"
B = WT + "/_build"
HDR = open(os.path.join(V, "tools", "demo.hh")).read()
DEMO = open(os.path.join(V, "tools", "demo.sh")).read()
RBDEMO = open(os.path.join(V, "tools", "demo_rb.sh")).read()
RBBOOT = open(os.path.join(V, "tools", "demo_boot.rb")).read()
BUGS = {}


def bug(id, prop, edits, needs, breaks, demo, flags=""):
    BUGS[id] = (prop, edits, needs, breaks, demo, flags)


def rbug(id, prop, edits, needs, breaks, demo, castxml=None):
    """A bug whose demonstration is a Ruby program (with a stand-in castxml if it imports headers)."""
    BUGS[id] = (prop, edits, needs, breaks, demo, ("ruby", castxml))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def setup():
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    if not os.path.isdir(WT):
        sh("git clone -q /repo " + WT)
    sh("cd %s && git fetch -q /repo HEAD && git checkout -q -f %s" % (WT, head))
    if not os.path.exists(B + "/build.ninja"):
        print(sh("cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DBUILD_CLANG_TLB_IMPORTER=OFF" % (WT, B)).stdout[-300:])


def build():
    r = sh("ninja -C %s all" % B)
    return r.returncode == 0, r.stdout


def tests():
    env = dict(os.environ, TYPELIB_PLUGIN_PATH=":".join(B + "/lang/" + x for x in ("csupport", "tlb", "idl")))
    base = json.load(open("/opt/vp/BASELINE.json"))
    exe = B + "/test/typelib_testsuite"
    bad = []
    names = base.get("stable") or base.get("passed")
    from concurrent.futures import ThreadPoolExecutor
    def one(n):
        p = subprocess.run([exe, "--run_test=" + n, "--report_level=no"], cwd=B + "/test", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        return n, p.returncode
    with ThreadPoolExecutor(8) as ex:
        for n, rc in ex.map(one, names):
            if rc:
                bad.append(n)
    return len(names), bad


def demo(d):
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd=WT)
    return r.returncode, r.stdout[-700:]


def main():
    spec = sys.argv[1]
    ns = {"bug": bug, "rbug": rbug}
    exec(compile(open(spec).read(), spec, "exec"), ns)
    for i in ns.get("del_ids", []):
        BUGS.pop(i)
    setup()
    ids = sys.argv[2:] or list(BUGS)
    sh("cd %s && git checkout -q -f ." % WT)
    ok, out = build()
    assert ok, out[-2000:]
    res = {}
    for i in ids:
        prop, edits, needs, breaks, code, flags = BUGS[i]
        sh("cd %s && git checkout -q -f ." % WT)
        d = os.path.join(V, "seeded", i)
        os.makedirs(d, exist_ok=True)
        if isinstance(flags, tuple):
            open(d + "/boot.rb", "w").write(RBBOOT)
            open(d + "/demo.rb", "w").write(code.strip("\n") + "\n")
            open(d + "/demo.sh", "w").write(RBDEMO)
            if flags[1]:
                open(d + "/castxml", "w").write(flags[1].lstrip("\n"))
        else:
            open(d + "/demo.hh", "w").write(HDR)
            open(d + "/demo.cc", "w").write('#include "demo.hh"\n' + code.strip("\n") + "\n")
            open(d + "/demo.sh", "w").write(DEMO.replace("@FLAGS@", flags))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        for f, old, new in edits:
            p = os.path.join(WT, f)
            s = open(p, errors="surrogateescape").read()
            if s.count(old) != 1:
                print(i, "EDIT matches %d times in %s" % (s.count(old), f))
                break
            open(p, "w", errors="surrogateescape").write(s.replace(old, new))
        else:
            # lines that my own commits added must not be touched
            diff = subprocess.check_output(["git", "-C", WT, "diff"], text=True, errors="surrogateescape")
            open(d + "/patch.diff", "w", errors="surrogateescape").write(diff)
    sh("cd %s && git checkout -q -f ." % WT)
    build()
    for i in ids:
        d = os.path.join(V, "seeded", i)
        rc, o = demo(d)
        if rc:
            print(i, "DEMO FAILS ON THE UNCHANGED TREE", rc, o)
            continue
        r = sh("git -C %s apply %s/patch.diff" % (WT, d))
        if r.returncode:
            print(i, "PATCH", r.stdout)
            continue
        ok, o = build()
        if not ok:
            print(i, "BUILD", o[-1500:])
        else:
            n, bad = tests()
            rc, o = demo(d)
            print(i, BUGS[i][0], "tests %d/%d" % (n - len(bad), n), bad[:4], "demo rc", rc, "" if rc else o, flush=True)
        sh("cd %s && git checkout -q -f ." % WT)
    build()


if __name__ == "__main__":
    main()
