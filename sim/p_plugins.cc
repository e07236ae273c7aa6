// C17: plugin discovery over simulated directories.
#include "core.hh"
#include "io.hh"
#include <typelib/pluginmanager.hh>
#include <typelib/registry.hh>
#include <typelib/typemodel.hh>
#include <typelib/importer.hh>
#include <typelib/exporter.hh>
#include <typelib/utilmm/configset.hh>
#include <sstream>
#include <set>
#include <memory>
#include <algorithm>
#include <cstdlib>
#include <errno.h>
using namespace Typelib;
using namespace sim;

namespace {
// what each library provides: importers, exporters, types, containers
struct Lib { char const* file; std::vector<std::string> what; };
std::vector<Lib> const LIBS = {
    {"csupport/libtypeLang_cSupport.so", {"container"}},
    {"tlb/libtypeLang_tlb.so", {"imp:tlb", "exp:tlb"}},
    {"idl/libtypeLang_idl.so", {"exp:idl"}},
    {"extra/p_alpha.so", {"imp:alpha", "exp:alpha"}},
    {"extra/p_alpha2.so", {"imp:alpha", "exp:alpha"}},
    {"extra/p_beta.so", {"imp:beta"}},
    {"extra/p_types.so", {"type:/plug/T1"}},
    {"extra/p_types2.so", {"type:/plug/T2", "type:/plug/T4"}},
    {"extra/p_noentry.so", {}},
};
char const* const FEATURES[] = {"imp:tlb", "exp:tlb", "exp:idl", "imp:alpha", "exp:alpha", "imp:beta", "type:/plug/T1", "type:/plug/T2", "type:/plug/T4", "container"};
std::string plug_root()
{
    std::string s = VERIF_PLUGIN_DIRS;         // <root>/csupport:...
    s = s.substr(0, s.find(':'));
    return s.substr(0, s.rfind('/') + 1);
}
struct Ent { int lib; bool fails_now; };
struct D { std::string path; SimDir dir; std::vector<Ent> ents; bool present = true, listed = false; };
bool g_before;      // container types stay registered in the process

struct World17 {
    std::vector<D> dirs;
    std::string env; bool use_env = true;
    // features that have to be there, and those that may
    void expect(std::set<std::string>& must, std::set<std::string>& may, bool& alpha_sure)
    {
        alpha_sure = true;
        for (auto& d : dirs) if (d.listed) {
            if (!d.present || !d.dir.is_dir || d.dir.open_err) continue;
            // a failing listing: what it holds may or may not be found
            bool sure = d.dir.no_stat ? false : d.dir.err_at < 0 || d.dir.err_at > (long)d.dir.entries.size() + 2;
            for (size_t i = 0; i < d.dir.entries.size(); ++i) {
                SimEntry const& e = d.dir.entries[i];
                if (e.target.empty() || e.dlfail || e.type == 4) continue;
                size_t p = e.name.rfind('.');
                if (p == std::string::npos || (e.name.substr(p) != ".so" && e.name.substr(p) != ".dylib")) continue;
                for (auto& l : LIBS) if (e.target == plug_root() + l.file) for (auto& w : l.what) {
                    may.insert(w); if (sure) must.insert(w);
                    if (w == "imp:alpha" && !sure) alpha_sure = false;
                }
            }
        }
    }
};
void shuffle(Ctx& cx, std::vector<SimEntry>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[cx.draw(i)]); }

std::string g_alpha;
void examine(World17& w, PluginManager::self& pm, bool interrupted, bool first, char const* when)
{
    std::set<std::string> must, may; bool alpha_sure;
    w.expect(must, may, alpha_sure);
    // an allocation failure during discovery may have been taken as a plugin that cannot be loaded
    if (interrupted) must.clear();
    Registry* r = 0;
    Out o = call([&] { r = new Registry; });
    struct Del { Registry*& r; ~Del() { Scope sc; delete r; } } del = {r};
    if (!o.ok) violate("no-registry", "%s: a registry could not be created: %s %s", when, o.type.c_str(), o.what.c_str());
    std::string alpha;
    for (auto f : FEATURES) {
        std::string s = f, kind = s.substr(0, s.find(':')), name = s.substr(s.find(':') + 1);
        bool there = false;
        Out o; 
        if (kind == "imp") {
            Importer* i = 0;
            o = call([&] { i = pm->importer(name); });
            there = i;
            if (i) {
                std::istringstream in(name == "tlb" ? "<?xml version=\"1.0\"?>\n<typelib><numeric name=\"/imported8\" category=\"sint\" size=\"8\" /></typelib>" : "x");
                utilmm::config_set cfg; Registry* n = 0;
                Out l = call([&] { n = new Registry; i->load(in, cfg, *n); });
                expect_ok(l, "loading with an importer that was found");
                int found = 0;
                for (int k = 1; k <= 8; ++k) if (n->get("/imported" + std::string(1, '0' + k))) found = k;
                if (found != (name == "tlb" ? 8 : name == "beta" ? 4 : found == 2 ? 2 : 1)) violate("wrong-plugin", "%s: the importer '%s' does not do its work", when, name.c_str());
                if (name == "alpha") alpha += strf("i%d", found);
                Scope sc; delete n; delete i;
            }
        } else if (kind == "exp") {
            Exporter* e = 0;
            o = call([&] { e = pm->exporter(name); });
            there = e;
            if (e) {
                std::ostringstream out; utilmm::config_set cfg; Registry* n = 0;
                Out l = call([&] { n = new Registry; n->add(new Numeric("/a/b", 4, Numeric::SInt)); e->save(out, cfg, *n); });
                expect_ok(l, "saving with an exporter that was found");
                if (name == "alpha") alpha += "e" + out.str();
                else if (name == "tlb" && out.str().size() < 10) violate("wrong-plugin", "%s: the exporter '%s' does not do its work", when, name.c_str());
                Scope sc; delete n; delete e;
            }
        } else if (kind == "type") {
            there = r && r->has(name, false);
            o.ok = there;
        } else {
            Out c = call([&] { if (!r->has("/int8_t")) r->add(new Numeric("/int8_t", 1, Numeric::SInt)); Container::createContainer(*r, "/std/vector", *r->get("/int8_t")); Container::createContainer(*r, "/std/string", *r->get("/int8_t")); });
            there = c.ok; o = c;
        }
        if (there) count("probe.found");
        if (!there && must.count(s)) violate("plugin-missing", "%s: '%s' is provided by a library in the search path but not available (%s %s)", when, f, o.type.c_str(), o.what.c_str());
        if (there && !may.count(s)) { if (kind == "container" && g_before) continue;   // stays registered
            violate("unexpected-plugin", "%s: '%s' is available although no library in the search path provides it", when, f); }
        if (!there && kind != "type" && kind != "container" && o.type.find("PluginNotFound") == std::string::npos) violate("wrong-error", "%s: asking for the missing '%s' gave %s %s", when, f, o.type.c_str(), o.what.c_str());
    }
    g_before |= may.count("container");
    if (!interrupted && alpha_sure) {
        if (first) g_alpha = alpha;
        else if (!g_alpha.empty() && alpha != g_alpha) violate("order-dependent", "%s: the plugin used under the name 'alpha' depends on the listing order of a directory (%s, before %s)", when, alpha.c_str(), g_alpha.c_str());
    }
    if (io_open_dirs()) violate("directory-left-open", "%s: %d directories are still open", when, io_open_dirs());
}

void scenario(Ctx& cx)
{
    World17 w;
    static bool ran; g_before = ran; ran = true;
    g_alpha.clear();
    bool faults = cx.chance(1, 2), odd = cx.chance(2, 3);
    int nd = 1 + cx.draw(4);
    w.use_env = !cx.chance(1, 8);
    if (!w.use_env) nd = 1;
    w.dirs.resize(nd);
    for (int i = 0; i < nd; ++i) {
        SpanGuard g(cx);
        D& d = w.dirs[i];
        static char const* names[] = {"/sim/plug", "/sim/plugins/typelib", "/sim/z", "/sim/a dir"};
        d.path = w.use_env ? names[i] : "/sim/hard";
        int n = cx.draw(7);
        for (int k = 0; k < n; ++k) {
            SimEntry e; int l = cx.draw(LIBS.size());
            std::string base = LIBS[l].file; base = base.substr(base.rfind('/') + 1);
            e.target = plug_root() + LIBS[l].file;
            static char const* pre[] = {"", "A", "z_", "0", "x.y."};
            e.name = pre[cx.draw(5)] + base;
            if (odd && cx.chance(1, 4)) {
                switch (cx.draw(5)) {
                case 0: e.name = strf("README%d", k); e.target.clear(); break;
                case 1: e.name = strf("broken%d.so", k); e.target.clear(); break;
                case 2: e.name = strf("sub%d.so", k); e.target.clear(); e.type = 4; break;
                case 3: e.name += ".1"; break;
                case 4: e.name = ".so"; e.target.clear(); break;
                }
                count("fault.odd-entry"); nontrivial();
            }
            if (cx.chance(1, 8)) e.type = 10;
            if (cx.chance(1, 12) && e.name.size() > 3 && e.name.substr(e.name.size() - 3) == ".so") e.name = e.name.substr(0, e.name.size() - 3) + ".dylib";
            bool dup = false; for (auto& x : d.dir.entries) dup |= x.name == e.name;
            if (!dup) d.dir.entries.push_back(e);
        }
        d.dir.no_types = cx.chance(1, 4);
        if (odd && cx.chance(1, 3)) switch (cx.draw(3)) {
            case 0: d.present = false; count("fault.missing-directory"); nontrivial(); break;
            case 1: d.dir.is_dir = false; count("fault.not-a-directory"); nontrivial(); break;
            case 2: if (!w.use_env) d.dir.no_stat = true; else { d.present = false; d.path = "/sim/nowhere/at/all"; } break;
        }
    }
    if (w.use_env) {
        int parts = cx.draw(6);
        for (int k = 0; k < parts; ++k) {
            if (k) w.env += ":";
            if (odd && cx.chance(1, 6)) { count("fault.empty-path-entry"); nontrivial(); continue; }
            D& d = w.dirs[cx.draw(nd)];
            if (d.listed) { count("fault.directory-listed-twice"); nontrivial(); }
            d.listed = true;
            w.env += d.path;
            if (cx.chance(1, 5)) w.env += "/";
        }
        if (odd && cx.chance(1, 4)) { w.env += ":"; count("fault.empty-path-entry"); nontrivial(); }
        setenv("TYPELIB_PLUGIN_PATH", w.env.c_str(), 1);
    } else { w.dirs[0].listed = true; unsetenv("TYPELIB_PLUGIN_PATH"); }
    logf("search path: %s", w.use_env ? ("'" + w.env + "'").c_str() : "(not set)");
    int rounds = 1 + cx.draw(4); bool first = true;
    for (int k = 0; k < rounds; ++k) {
        SpanGuard g(cx);
        io_reset();
        for (auto& d : w.dirs) {
            shuffle(cx, d.dir.entries);
            d.dir.open_err = 0; d.dir.err_at = -1;
            for (auto& e : d.dir.entries) e.dlfail = false;
            if (faults && cx.chance(1, 4)) { static int er[] = {EACCES, EMFILE, ENOENT, EIO, ENOMEM}; d.dir.open_err = er[cx.draw(5)]; }
            if (faults && cx.chance(1, 4)) { static int er[] = {EIO, EBADF, ENOENT}; d.dir.err_at = cx.draw(d.dir.entries.size() + 3); d.dir.read_err = er[cx.draw(3)]; }
            if (faults) for (auto& e : d.dir.entries) if (cx.chance(1, 5)) e.dlfail = true;
            if (d.present) io_dir(d.path, &d.dir);
            std::string s; for (auto& e : d.dir.entries) s += " " + e.name + (e.dlfail ? "(cannot be loaded)" : e.type == 4 ? "(directory)" : "");
            logf("  %s%s:%s%s%s", d.path.c_str(), d.present ? d.dir.is_dir ? "" : " (a file)" : " (missing)", s.c_str(), d.dir.open_err ? strf(" cannot be opened (%d)", d.dir.open_err).c_str() : "", d.dir.err_at >= 0 ? strf(" read %ld fails", d.dir.err_at).c_str() : "");
        }
        bool same_faults = true;
        for (auto& d : w.dirs) { same_faults &= !d.dir.open_err && d.dir.err_at < 0; for (auto& e : d.dir.entries) same_faults &= !e.dlfail; }
        long ak = faults && cx.chance(1, 3) ? 1 + cx.small(cx.draw(2) ? 300 : 30) : 0;
        PluginManager::self* pm = 0;
        Out o = call([&] { pm = new PluginManager::self; }, ak);
        logf("acquiring the plugin manager: %s%s", o.ok ? "done" : o.type.c_str(), o.injected ? " (allocation failure)" : "");
        if (!o.ok && !o.injected) violate("discovery-failed", "acquiring the plugin manager failed: %s %s", o.type.c_str(), o.what.c_str());
        if (!o.ok) {
            if (io_open_dirs()) violate("directory-left-open", "%d directories are still open after a failed discovery", io_open_dirs());
            o = call([&] { pm = new PluginManager::self; });
            if (!o.ok) violate("discovery-failed", "acquiring the plugin manager after an allocation failure failed: %s %s", o.type.c_str(), o.what.c_str());
            o.injected = false;
        }
        struct Rel { PluginManager::self* p; ~Rel() { Scope sc; delete p; } } rel = {pm};
        // which library wins a name is compared between listings without other differences
        std::string keep = g_alpha;
        if (!same_faults) g_alpha.clear();
        examine(w, *pm, o.injected, first && same_faults, strf("discovery %d", k + 1).c_str());
        if (!same_faults) g_alpha = keep; else if (!o.injected) first = false;
        // clients that come while it exists share it
        if (cx.chance(1, 3)) {
            w.dirs[0].dir.open_err = EACCES;
            Out c = call([&] { PluginManager::self other; if (&*other != &**pm) violate("two-managers", "a second plugin manager was created"); });
            expect_ok(c, "acquiring the plugin manager again");
        }
    }
    for (auto& d : w.dirs) for (auto& e : d.dir.entries) state(hash_bytes(e.name.data(), e.name.size(), hash_bytes(d.path.data(), d.path.size())));
    state(hash_bytes(w.env.data(), w.env.size()));
}
sim::Reg r("C17", scenario, true, true, true);
}
