#!/usr/bin/env python3
"""Builds the simulators from /repo's current working tree.

The sources of /repo are mirrored by content into build/src (never compiled in place, nothing is
written to /repo) and compiled with ninja, so an unchanged file is not recompiled.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(BUILD, "src")
EXT = (".cc", ".hh", ".h", ".c", ".tcc", ".hpp", ".cpp", ".rb")


def mirror():
    """copy typelib/, lang/ and bindings/ (sources only); returns True if anything changed"""
    changed = False
    want = {}
    for top in ("typelib", "lang", "bindings/ruby/ext", "bindings/ruby/lib"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in files:
                if f.endswith(EXT):
                    p = os.path.join(d, f)
                    want[os.path.relpath(p, REPO)] = p
    have = set()
    if os.path.isdir(SRC):
        for d, _, files in os.walk(SRC):
            for f in files:
                have.add(os.path.relpath(os.path.join(d, f), SRC))
    for rel in have - set(want):
        os.unlink(os.path.join(SRC, rel))
        changed = True
    for rel, p in want.items():
        q = os.path.join(SRC, rel)
        data = open(p, "rb").read()
        try:
            if open(q, "rb").read() == data:
                continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(data)
        changed = True
    return changed


def srcs(*pats):
    r = []
    for p in pats:
        r += glob.glob(os.path.join(SRC, p), recursive=True)
    return sorted(os.path.relpath(x, SRC) for x in r)


RUBY_WRAP = ("rb_data_object_wrap rb_ary_new rb_ary_new_capa rb_ary_push rb_hash_new rb_hash_aset rb_str_new rb_str_new_cstr "
             "rb_funcallv rb_iv_set rb_yield rb_yield_values2 ruby_xmalloc ruby_xfree").split()
RUBY_LIB = "ruby-3.2"


def ruby_include():
    return sorted(glob.glob("/usr/include/ruby-3.2.0") + glob.glob("/usr/include/*/ruby-3.2.0"))


def gen(flavour, hooks=True):
    out = os.path.join(BUILD, flavour)
    os.makedirs(out, exist_ok=True)
    L = []
    w = L.append
    inc = "-I%s -I%s/typelib -I/usr/include/libxml2" % (SRC, SRC)
    if flavour == "asan":
        cxx = "g++"
        lib = "-std=gnu++11 -DNDEBUG -O1 -g1 -fno-omit-frame-pointer -fsanitize=address"
        har = "-std=gnu++17 -O1 -g1 -fno-omit-frame-pointer -fsanitize=address -Wall -Wno-unused-function"
        lnk = "-fsanitize=address"
        hdir, exe = "sim", "tsim"
    elif flavour == "cov":              # for tools/cov.sh only
        cxx = "g++"
        lib = "-std=gnu++11 -DNDEBUG -O0 -g1 --coverage"
        har = "-std=gnu++17 -O1 -g1 -DVERIF_COV -Wall -Wno-unused-function"
        lnk = "--coverage"
        hdir, exe = "sim", "tsim"
    else:
        cxx = "g++"
        # the sanitizer's instrumentation, with the simulator's own run-time (thsim/sched.cc); the
        # functions of std::string are instantiated (and so instrumented) in the library
        lib = "-std=gnu++11 -DNDEBUG -O1 -g1 -fno-omit-frame-pointer -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=-1"
        har = "-std=gnu++17 -O1 -g1 -fno-omit-frame-pointer -fno-threadsafe-statics -Wall -Wno-unused-function"
        lnk = ""
        hdir, exe = "thsim", "thsim"
    w("ninja_required_version = 1.5")
    w("rule cxx\n  command = %s -fPIC -w $flags %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n" % (cxx, inc))
    w("rule har\n  command = %s -fPIC $flags %s -I%s/sim -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n" % (cxx, inc, VERIF))
    w("rule so\n  command = %s -shared %s %s -Wl,-soname,$soname $in -o $out $libs\n" % (cxx, lnk, "" if hdir == "sim" else "-Wl,-Bsymbolic"))
    w("rule exe\n  command = %s %s -rdynamic $in -o $out $libs -Wl,-rpath,%s\n" % (cxx, lnk, out))
    plugdirs = ":".join(os.path.join(out, "plugins", d) for d in ("csupport", "tlb", "idl"))

    def objs(files, extra=None):
        r = []
        for f in files:
            o = os.path.join(out, "o", f.replace("/", "_") + ".o")
            fl = lib
            if f == "typelib/pluginmanager.cc":
                fl += ' -DTYPELIB_HARDCODED_PLUGIN_PATH=\\"/sim/hard\\"'
            if f == "typelib/endianness.cc":
                fl += " -fno-strict-aliasing"
            w("build %s: cxx %s\n  flags = %s\n" % (o, os.path.join(SRC, f), fl))
            r.append(o)
        return r
    boost = "-lboost_filesystem -lboost_system -lboost_thread -lpthread -ldl"
    tl = os.path.join(out, "libtypeLib.so")
    o = objs(srcs("typelib/*.cc", "typelib/utilmm/**/*.cc"))
    w("build %s: so %s\n  soname = libtypeLib.so\n  libs = %s\n" % (tl, " ".join(o), boost))
    plug = []
    for d, name, libs in (("csupport", "libtypeLang_cSupport.so", ""), ("tlb", "libtypeLang_tlb.so", "-lxml2"),
                          ("idl", "libtypeLang_idl.so", "-lboost_system")):
        so = os.path.join(out, "plugins", d, name)
        os.makedirs(os.path.dirname(so), exist_ok=True)
        o = objs(srcs("lang/%s/*.cc" % d))
        w("build %s: so %s | %s\n  soname = %s\n  libs = -L%s -lTypeLibPlaceholder %s -Wl,-rpath,%s\n".replace("-lTypeLibPlaceholder", "-ltypeLib")
          % (so, " ".join(o), tl, name, out, libs, out))
        plug.append(so)
    hs = sorted(glob.glob(os.path.join(VERIF, hdir, "*.cc")))
    if hdir != "sim":
        hs += [os.path.join(VERIF, "sim", f) for f in ("core.cc", "main.cc", "world.cc", "regw.cc", "io.cc")]
    ho = []
    for f in hs:
        o = os.path.join(out, "h", os.path.basename(f) + ".o")
        hf = har
        if os.path.basename(f).startswith("i_"):        # harness code that is instrumented as well
            hf = lib.replace("gnu++11", "gnu++17") + " -Wall"
        elif os.path.basename(f).startswith("n_"):
            hf = har + " -fno-builtin -fno-tree-loop-distribute-patterns"
        w("build %s: har %s\n  flags = %s -DVERIF_PLUGIN_DIRS=\\\"%s\\\"\n" % (o, f, hf, plugdirs))
        ho.append(o)
    # helper shared objects for the plugin scenarios
    extra = []
    for f in sorted(glob.glob(os.path.join(VERIF, hdir, "plug", "*.cc"))):
        b = os.path.splitext(os.path.basename(f))[0]
        o = os.path.join(out, "h", "plug_" + b + ".o")
        so = os.path.join(out, "plugins", "extra", b + ".so")
        os.makedirs(os.path.dirname(so), exist_ok=True)
        w("build %s: har %s\n  flags = %s\n" % (o, f, har if hdir == "sim" else lib))
        w("build %s: so %s | %s\n  soname = %s.so\n  libs = -L%s -ltypeLib -Wl,-rpath,%s\n" % (so, o, tl, b, out, out))
        extra.append(so)
    ex = os.path.join(out, exe)
    # the csupport library is linked into the harness as well (direct access to the container classes)
    w("build %s: exe %s | %s %s\n  libs = -L%s -ltypeLib %s -lxml2 %s -Wl,-rpath,%s\n" % (
        ex, " ".join(ho), tl, plug[0], out, plug[0], boost, os.path.dirname(plug[0])))
    targets = [ex] + plug + extra
    if flavour == "asan":
        # the same core with the Ruby interpreter and the bindings
        rinc = " ".join("-I" + d for d in ruby_include())
        wrap = " ".join("-Wl,--wrap=" + f for f in RUBY_WRAP)
        ro = []
        for f in srcs("bindings/ruby/ext/*.cc"):
            o = os.path.join(out, "o", f.replace("/", "_") + ".o")
            w("build %s: cxx %s\n  flags = %s %s\n" % (o, os.path.join(SRC, f), lib, rinc))
            ro.append(o)
        for f in sorted(glob.glob(os.path.join(VERIF, "rbsim", "*.cc"))):
            o = os.path.join(out, "h", "rb_" + os.path.basename(f) + ".o")
            w("build %s: har %s\n  flags = %s %s -DVERIF_RUBY_LIB=\\\"%s\\\" -DVERIF_RBSIM_DIR=\\\"%s\\\"\n" % (
                o, f, har, rinc, os.path.join(SRC, "bindings/ruby/lib"), os.path.join(VERIF, "rbsim")))
            ro.append(o)
        ro += [os.path.join(out, "h", f + ".cc.o") for f in ("core", "main", "io", "dl")]
        rx = os.path.join(out, "rbsim")
        w("build %s: exe %s | %s %s\n  libs = %s -L%s -ltypeLib %s -lxml2 %s -Wl,-rpath,%s -l%s\n" % (
            rx, " ".join(ro), tl, plug[0], wrap, out, plug[0], boost, os.path.dirname(plug[0]), RUBY_LIB))
        targets.append(rx)
    w("build all: phony %s" % " ".join(targets))
    w("default all")
    txt = "\n".join(L) + "\n"
    nf = os.path.join(out, "build.ninja")
    try:
        if open(nf).read() == txt:
            return out, ex
    except OSError:
        pass
    open(nf, "w").write(txt)
    return out, ex


def build(flavours):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mirror()
        res = {}
        for fl in flavours:
            out, ex = gen(fl)
            p = subprocess.run(["ninja", "-C", out, "-k", "20"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                sys.stdout.write(p.stdout[-6000:])
                raise SystemExit(2)
            res[fl] = ex
        return res


if __name__ == "__main__":
    print(build(sys.argv[1:] or ["asan"]))
