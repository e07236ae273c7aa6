// C15: independent registries used from different threads.  C16: values of shared types.
#include "sched.hh"
#include "regw.hh"
#include "world.hh"
#include <typelib/exporter.hh>
#include <typelib/importer.hh>
#include <typelib/csvoutput.hh>
#include <typelib/typedisplay.hh>
#include <typelib/endianness.hh>
#include <typelib/value_cast.hh>
#include <typelib/utilmm/configset.hh>
#include <sstream>
#include <cstring>
using namespace Typelib;
using namespace sim;

namespace {
typedef std::vector<uint8_t> Bytes;
typedef std::vector<std::string> Transcript;
struct Prog { std::vector<uint64_t> feed; int id = 0; bool faulty = false; };
struct Env { Transcript* tr; bool faulty; int id;
    void say(std::string const& s) { NoScope ns; tr->push_back(s); logf("  program %d: %s", id, s.substr(0, 200).c_str()); } };
std::string outcome(Out const& o) { return o.ok ? "done" : o.type + " " + o.what; }

std::string h(std::string const& s) { return strf("%zu:%016zx", s.size(), (size_t)hash_bytes(s.data(), s.size())); }
std::string h(Bytes const& s) { return strf("%zu:%016zx", s.size(), (size_t)hash_bytes(s.data(), s.size())); }

// ------------------------------------------------------------------------------------------ registries
std::string save_tlb(Registry const& r, char const* kind, Ctx& c, Out* o, long ak)
{
    std::string* d = 0;
    bool any = c.draw(3) != 2;
    *o = call([&] { utilmm::config_set cfg; if (!strcmp(kind, "idl") && any) cfg.insert("opaque_as_any", std::string("1")); d = new std::string(PluginManager::save(kind, cfg, r)); }, ak);
    std::string s = d ? *d : "";
    { Scope sc; delete d; }
    return s;
}
void registry_program(Ctx& c, Env& e)
{
    Universe u; u.odd = c.draw(2); u.nulls = c.chance(1, 3); u.recs = c.chance(1, 6);
    u.gen(c, 1 + c.draw(5));
    Reg1 r[2];
    std::string doc; bool have_doc = false;
    int steps = 1 + c.draw(e.faulty ? 6 : 7);
    for (int i = 0; i < steps; ++i) {
        Reg1& a = r[c.draw(2)]; Reg1& b = &a == &r[0] ? r[1] : r[0];
        long ak = e.faulty && c.chance(1, 2) ? 1 + c.small(300) : 0;
        Out o; std::string what;
        switch (c.draw(10)) {
        case 0: case 1: case 2: what = "fill"; populate(u, *a, c, 1 + c.draw(6), c.chance(1, 3) ? 3 : 0, true, c.draw(2)); o.ok = true; break;
        case 3: what = "merge"; o = call([&] { a->merge(*b); }, ak); break;
        case 4: {
            what = "minimal of " + u.any_name(c); std::string n = what.substr(11); bool wa = c.draw(2);
            Registry* m = 0;
            o = call([&] { m = a->minimal(n, wa); }, ak);
            if (m) { what += " " + h(content_of(*m)); Scope sc; delete m; }
            break;
        }
        case 5: case 6: {
            char const* kind = c.draw(3) ? "tlb" : "idl";
            what = std::string("save as ") + kind;
            std::string d = save_tlb(*a, kind, c, &o, ak);
            what += " " + h(d);
            if (o.ok && !strcmp(kind, "tlb")) { doc = d; have_doc = true; }
            break;
        }
        case 7: case 8: {
            std::string d = have_doc ? doc : "<?xml version=\"1.0\"?>\n<typelib><numeric name=\"/int\" category=\"sint\" size=\"4\" /><array name=\"/int[3]\" of=\"/int\" dimension=\"3\" /><container name=\"/std/vector&lt;/int&gt;\" of=\"/int\" size=\"24\" kind=\"/std/vector\" /></typelib>";
            int dmg = c.draw(3);
            if (dmg == 1) d.resize(c.draw(d.size()));
            if (dmg == 2 && d.size() > 60) d[30 + c.draw(d.size() - 30)] = "<>\"/TUVWA/0 29"[c.draw(14)];
            what = "load " + h(d);
            Out o2; bool fresh = c.draw(2);
            std::istringstream in(d);
            if (fresh) { Registry* n = 0; o = call([&] { n = PluginManager::load("tlb", in); }, ak); if (n) { what += " " + h(content_of(*n)); Scope sc; delete n; } }
            else o = call([&] { PluginManager::load("tlb", in, *a); }, ak);
            break;
        }
        default: {
            what = "define and derive";
            std::string n = u.any_name(c), al = u.any_name(c);
            std::string un = strf("/nowhere/T%d", (int)c.draw(3));
            o = call([&] {
                a->build(n + "[2]"); if (a->get(n)) { Container::createContainer(*a, "/std/vector", *a->get(n)); a->alias(n, al); }
                Container::createContainer(*a, "/std/string", *a->build("/int8_t"));
            }, ak);
            break;
        }
        }
        if (e.faulty && o.injected) what += " (allocation failure)";
        e.say(what + ": " + outcome(o));
    }
    for (auto& x : r) { std::set<std::string> used; scan(*x, used, "running concurrently"); e.say("content " + h(content_of(*x))); if (g_verbose_fd >= 0) e.say(content_of(*x)); }
}
// values of types of its own
void value_program(Ctx& c, Env& e)
{
    GenOpts go; go.max_depth = 1 + c.draw(3);
    World w(c, go);
    TD* t = w.gen_type();
    w.make_registry();
    Type const& type = w.type(*t);
    e.say("type " + show(*t));
    VT v = w.gen_value(*t), v2 = w.gen_value(*t);
    Val a(*t), b(*t);
    a.make(v); b.make(v2);
    int n = 1 + c.draw(4);
    for (int i = 0; i < n; ++i) {
        long ak = e.faulty && c.chance(1, 2) ? 1 + c.small(20) : 0;
        Out o; std::string what; bool eq = false; Bytes* buf = 0;
        switch (c.draw(3)) {
        case 0: what = "copy"; o = call([&] { Typelib::copy(Value(b.p, type), Value(a.p, type)); }, ak); break;
        case 1: what = "compare"; o = call([&] { eq = Typelib::compare(Value(b.p, type), Value(a.p, type)); }, ak); what += eq ? " same" : " differ"; break;
        default: what = "transfer"; o = call([&] { std::unique_ptr<Bytes> x(new Bytes); dump(Value(a.p, type), *x); load(Value(b.p, type), *x); buf = x.release(); }, ak); if (buf) what += " " + h(*buf); { Scope sc; delete buf; }
        }
        e.say(what + ": " + outcome(o) + " " + h(show(*t, b.read(), 4000)));
    }
}
typedef void (*ProgFn)(Ctx&, Env&);
void run_prog(Prog const& p, ProgFn f, Transcript& tr)
{
    Ctx c; c.ch.feed = &p.feed;
    Env e = {&tr, p.faulty, p.id};
    f(c, e);
}
void draw_feed(Ctx& cx, Prog& p, int max)
{
    SpanGuard g(cx);
    int n = cx.draw(4) ? cx.draw(max) : cx.draw(max / 8 + 1);
    for (int i = 0; i < n; ++i) p.feed.push_back(cx.draw(uint64_t(1) << 31));
}
void compare_transcripts(int i, Transcript const& got, Transcript const& alone)
{
    for (size_t k = 0; k < std::max(got.size(), alone.size()); ++k) {
        std::string g = k < got.size() ? got[k] : "(nothing)", a = k < alone.size() ? alone[k] : "(nothing)";
        if (g == a) continue;
        size_t d = 0; while (d < g.size() && d < a.size() && g[d] == a[d]) ++d;
        size_t from = d > 80 ? d - 80 : 0;
        violate("differs-from-alone", "program %d, step %zu: '%s' instead of '%s' when run alone", i, k, g.substr(from, 300).c_str(), a.substr(from, 300).c_str());
    }
}
void c15(Ctx& cx)
{
    int nt = 2 + cx.draw(2);
    bool keep = cx.draw(2), faults = cx.chance(1, 3);
    if (faults) keep = true;
    std::vector<Prog> progs(nt); std::vector<ProgFn> fns(nt);
    for (int i = 0; i < nt; ++i) {
        progs[i].id = i;
        progs[i].faulty = faults && (i == 0 || cx.draw(2));
        fns[i] = cx.chance(1, 5) ? value_program : registry_program;
        draw_feed(cx, progs[i], cx.thorough ? 500 : 250);
    }
    PluginManager::self* held = 0;
    if (keep) { Out o = call([&] { held = new PluginManager::self; }); expect_ok(o, "acquiring the plugin manager"); }
    logf("%d programs%s%s", nt, keep ? ", plugin manager held" : "", faults ? ", allocation failures" : "");
    std::vector<Transcript> got(nt), alone(nt);
    std::vector<std::function<void()>> body;
    for (int i = 0; i < nt; ++i)
        body.push_back([&, i] { try { run_prog(progs[i], fns[i], got[i]); } catch (Violation& v) { record_violation(v.cls, strf("program %d: ", i) + v.detail); } });
    th::run_threads(cx, body);
    check_pending();
    if (th::switches() > (uint64_t)nt) nontrivial();
    logf("alone:");
    for (int i = 0; i < nt; ++i) {
        // a failure cuts the faulty program short at a point that depends on what was initialised before
        if (progs[i].faulty) continue;
        run_prog(progs[i], fns[i], alone[i]);
        compare_transcripts(i, got[i], alone[i]);
    }
    { Scope sc; delete held; }
}
sim::Reg r15("C15", c15, true, true, true);

// ------------------------------------------------------------------------------------------ shared types
struct Walk : public ValueVisitor {
    std::string out; long n = 0;
    Walk() : ValueVisitor(true) {}
    template<typename T> bool leaf(T& v) { NoScope ns; out += hex(&v, sizeof v) + ","; ++n; return true; }
    bool visit_(int8_t& v) { return leaf(v); }
    bool visit_(uint8_t& v) { return leaf(v); }
    bool visit_(int16_t& v) { return leaf(v); }
    bool visit_(uint16_t& v) { return leaf(v); }
    bool visit_(int32_t& v) { return leaf(v); }
    bool visit_(uint32_t& v) { return leaf(v); }
    bool visit_(int64_t& v) { return leaf(v); }
    bool visit_(uint64_t& v) { return leaf(v); }
    bool visit_(float& v) { return leaf(v); }
    bool visit_(double& v) { return leaf(v); }
    bool visit_(Value const& v, Pointer const& t) { return true; }
    using ValueVisitor::visit_;
    bool visit_(Enum::integral_type& v, Enum const& t) { return leaf(v); }
};
struct Shared {
    World* w; std::vector<TD*> tops; std::deque<Val> vals; std::vector<int> val_type; std::vector<Bytes> images; std::vector<MemoryLayout> layouts;
    std::vector<std::string> names;
};
Shared* g_sh;
struct Own { std::vector<std::unique_ptr<Val>> v; ~Own() { for (auto& x : v) if (x && x->live) { x->live = false; n_destroy(*x->t, x->p); } } };
bool small(TD const& t) { return t.size < 3000; }
void shared_program(Ctx& c, Env& e)
{
    Shared& sh = *g_sh; World& w = *sh.w;
    Registry const& reg = *w.reg;
    size_t nt = sh.tops.size();
    // values of its own, one per type
    std::deque<Val> own;
    for (auto t : sh.tops) own.emplace_back(*t, 0xEE);
    Reg1 mine;
    int steps = 1 + c.draw(12);
    for (int i = 0; i < steps; ++i) {
        size_t k = c.draw(nt), s = c.draw(sh.vals.size());
        TD& t = *sh.tops[k]; Type const& type = w.type(t);
        Val& o1 = own[k];
        long ak = e.faulty && c.chance(1, 2) ? 1 + c.small(30) : 0;
        int si = -1; for (size_t j = 0; j < sh.vals.size(); ++j) if ((size_t)sh.val_type[(s + j) % sh.vals.size()] == k) { si = (s + j) % sh.vals.size(); break; }
        Val& sv = sh.vals[si];
        Bytes const& im = sh.images[si];
        if (!o1.live) {
            Out o = call([&] { init(Value(o1.p, type)); }, 0);
            expect_ok(o, "initialising a value"); o1.live = true;
            // the bytes no container owns are unspecified: set them
            o = call([&] { Typelib::copy(Value(o1.p, type), Value(sv.p, type)); });
            expect_ok(o, "copying a shared value");
        }
        Out o; std::string what, res;
        int op = c.draw(22);
        bool fixed = c.draw(2);
        switch (op) {
        case 0: case 1: what = "copy"; o = call([&] { if (fixed) Typelib::copy(o1.p, sv.p, sh.layouts[k]); else Typelib::copy(Value(o1.p, type), Value(sv.p, type)); }, ak); break;
        case 2: case 3: { bool eq = false; what = "compare"; o = call([&] { eq = Typelib::compare(Value(o1.p, type), Value(sv.p, type)); }, ak); res = eq ? "same" : "different"; break; }
        case 4: case 5: {
            what = "dump"; Bytes* b = 0;
            o = call([&] { b = new Bytes; if (fixed) dump(Value(sv.p, type), *b, sh.layouts[k]); else dump(Value(sv.p, type), *b); }, ak);
            if (b && o.ok) res = h(*b);
            if (o.ok && *b != im) violate("wrong-image", "a shared value of %s was dumped as %s instead of %s", show(t).substr(0, 300).c_str(), h(*b).c_str(), h(im).c_str());
            { Scope sc; delete b; } break;
        }
        case 6: case 7: {
            what = "load"; Bytes x = im; if (c.chance(1, 3) && x.size()) x.resize(c.draw(x.size()));
            o = call([&] { if (fixed) load((uint8_t*)o1.p, type, x.data(), x.size(), sh.layouts[k]); else load(Value(o1.p, type), x); }, ak);
            if (!o.ok) { Out r = call([&] { Typelib::copy(Value(o1.p, type), Value(sv.p, type)); }); expect_ok(r, "copying after a failed load"); }
            break;
        }
        case 8: { what = "dump to a buffer"; size_t cap = c.draw(im.size() + 2); std::unique_ptr<uint8_t[]> b(new uint8_t[cap + 1]); int n = 0; o = call([&] { n = dump(Value(sv.p, type), b.get(), cap); }, ak); res = strf("%d", n); break; }
        case 9: { what = "size"; size_t n = 0; o = call([&] { n = getDumpSize(Value(sv.p, type)); }, ak); res = strf("%zu", n); break; }
        case 10: { what = "visit"; Walk* v = 0; o = call([&] { v = new Walk; v->apply(Value(sv.p, type)); }, ak); if (v) res = h(v->out); { Scope sc; delete v; } break; }
        case 11: { what = "print"; std::ostringstream os; o = call([&] { os << csv_header(type, "v", ",") << std::endl; os << csv(type, sv.p, ",", fixed); }, ak); res = h(os.str()); break; }
        case 12: { what = "describe"; std::ostringstream os; o = call([&] { os << type; }, ak); res = h(os.str()); break; }
        case 13: {
            what = "layout"; size_t n = 0; std::string s2;
            bool ap = c.draw(2), ao = c.draw(2), mz = c.draw(2), rt = c.draw(2);
            o = call([&] { MemoryLayout l = layout_of(type, ap, ao, mz, rt); n = std::distance(l.begin(), l.end()); }, ak);
            res = strf("%zu", n); break;
        }
        case 14: case 15: {
            what = "look up"; std::string name = sh.names[c.draw(sh.names.size())], name2 = sh.names[c.draw(sh.names.size())];
            o = call([&] {
                Type const* a = reg.get(name), *b = reg.get(name2);
                bool q[8] = {reg.has(name, false), a == b, a && b && a->canCastTo(*b), a && b && a->isSame(*b), a && reg.isIncluded(*a), false, false, false};
                size_t al = a ? reg.getAliasesOf(*a).size() : 0, rd = a ? reg.reverseDepends(*a).size() : 0, dep = a ? a->dependsOn().size() : 0;
                std::string src = a ? reg.find(a->getName()).getSource() : "", fn = a ? reg.getFullName(a->getBasename()) : "";
                size_t meta = a ? a->getMetaData().get().size() : 0;
                NoScope ns;
                for (int z = 0; z < 5; ++z) res += q[z] ? "1" : "0";
                res += strf(" %zu %zu %zu %zu ", al, rd, dep, meta) + src + " " + fn;
            }, ak);
            break;
        }
        case 16: { what = "iterate"; size_t n = 0, al = 0; std::string all; o = call([&] { for (RegistryIterator it = reg.begin(); it != reg.end(); ++it) { ++n; al += it.isAlias(); NoScope ns; all += it.getName() + it->getName() + it.getSource(); } }, ak); res = strf("%zu %zu ", n, al) + h(all); break; }
        case 17: {
            what = "container";
            if (t.kind != KVec && t.kind != KStr) { o.ok = true; break; }
            Container const& ct = static_cast<Container const&>(type);
            TD& et = *t.elem;
            VT src = sv.read();
            if (src.kids.empty() && t.kind == KVec) { o = call([&] { ct.clear(o1.p); }, ak); break; }
            int m = c.draw(3);
            o = call([&] {
                if (m == 0) ct.push(o1.p, ct.getElement(sv.p, 0));
                else if (m == 1) ct.erase(o1.p, ct.getElement(sv.p, 0));
                else if (ct.isRandomAccess() && ct.getElementCount(o1.p)) ct.setElement(o1.p, 0, ct.getElement(sv.p, 0));
            }, t.kind == KStr ? 0 : ak);
            (void)et;
            break;
        }
        case 18: { what = "own registry from it"; o = call([&] { mine->merge(reg); }, ak); res = h(content_of(*mine)); break; }
        case 19: {
            what = "minimal"; Registry* m = 0; std::string name = sh.names[c.draw(sh.names.size())];
            o = call([&] { m = reg.minimal(name); }, ak);
            if (m) { res = h(content_of(*m)); Scope sc; delete m; }
            break;
        }
        case 20: { what = "save"; std::string d = save_tlb(reg, c.draw(3) ? "tlb" : "idl", c, &o, ak); res = h(d); break; }
        default: {
            what = "byte order"; bool cont = t.has_container || t.has_ptr || t.has_opq || has_data(t) == 0;
            if (cont) { std::ostringstream os; o = call([&] { reg.dump(os); }, ak); res = h(os.str()); break; }
            o = call([&] { CompileEndianSwapVisitor v; v.apply(type); v.swap(Value(sv.p, type), Value(o1.p, type)); }, ak);
            if (!o.ok) { Out r = call([&] { Typelib::copy(Value(o1.p, type), Value(sv.p, type)); }); expect_ok(r, "copying"); }
            break;
        }
        }
        if (!o.ok && o.injected) {
            // what an interrupted operation leaves is its own matter: start from a good value
            Out r = call([&] { Typelib::copy(Value(o1.p, type), Value(sv.p, type)); });
            expect_ok(r, "copying after an allocation failure");
        }
        e.say(strf("%s of %zu: ", what.c_str(), k) + outcome(o) + " " + res + " " + h(show(t, o1.read(), 5000)));
    }
    for (size_t k = 0; k < nt; ++k) if (own[k].live) {
        Out o = call([&] { destroy(Value(own[k].p, w.type(*sh.tops[k]))); });
        expect_ok(o, "destroying a value"); own[k].live = false;
    }
}
void c16(Ctx& cx)
{
    int nt = 2 + cx.draw(2);
    bool keep = cx.draw(2), faults = cx.chance(1, 4);
    if (faults) keep = true;
    GenOpts go; go.max_depth = 1 + cx.draw(3);
    World w(cx, go);
    Shared sh; g_sh = &sh; sh.w = &w;
    int tops = 1 + cx.draw(3);
    for (int i = 0; i < tops; ++i) { TD* t = w.gen_type(); if (small(*t) && t->size) sh.tops.push_back(t); }
    if (sh.tops.empty()) sh.tops.push_back(w.num(4, Numeric::SInt));
    w.make_registry();
    for (auto t : w.order) sh.names.push_back(t->name);
    int na = cx.draw(3);
    for (int i = 0; i < na; ++i) {
        std::string b = sh.names[cx.draw(sh.names.size())], a = strf("/al/S%d", i);
        Out o = call([&] { w.reg->alias(b, a); }); expect_ok(o, "aliasing"); sh.names.push_back(a);
    }
    if (cx.draw(2)) gen_metadata(cx, *w.reg, true);
    if (cx.chance(1, 3)) { Out o = call([&] { w.reg->setDefaultNamespace("/std"); }); sh.names.push_back("string"); }
    sh.names.push_back("/nope");
    for (size_t k = 0; k < sh.tops.size(); ++k) {
        int nv = 1 + cx.draw(2);
        for (int i = 0; i < nv; ++i) {
            sh.vals.emplace_back(*sh.tops[k]); sh.val_type.push_back(k);
            Val& v = sh.vals.back(); v.make(w.gen_value(*sh.tops[k]));
            Bytes* b = 0; Type const& type = w.type(*sh.tops[k]);
            Out o = call([&] { b = new Bytes; dump(Value(v.p, type), *b); });
            expect_ok(o, "dumping a shared value");
            sh.images.push_back(*b);
            Scope sc; delete b;
        }
        { Scope sc; sh.layouts.push_back(layout_of(w.type(*sh.tops[k]))); }
        logf("type %s", show(*sh.tops[k]).substr(0, 500).c_str());
    }
    std::vector<VT> before; for (auto& v : sh.vals) before.push_back(v.read());
    Snap s0 = snap(*w.reg);
    std::vector<Prog> progs(nt);
    for (int i = 0; i < nt; ++i) {
        progs[i].id = i; progs[i].faulty = faults && (i == 0 || cx.draw(2));
        draw_feed(cx, progs[i], cx.thorough ? 120 : 70);
    }
    PluginManager::self* held = 0;
    if (keep) { Out o = call([&] { held = new PluginManager::self; }); expect_ok(o, "acquiring the plugin manager"); }
    logf("%d programs%s%s", nt, keep ? ", plugin manager held" : "", faults ? ", allocation failures" : "");
    std::vector<Transcript> got(nt), alone(nt);
    std::vector<std::function<void()>> body;
    for (int i = 0; i < nt; ++i)
        body.push_back([&, i] { try { run_prog(progs[i], shared_program, got[i]); } catch (Violation& v) { record_violation(v.cls, strf("program %d: ", i) + v.detail); } });
    th::run_threads(cx, body);
    check_pending();
    if (th::switches() > (uint64_t)nt) nontrivial();
    for (size_t i = 0; i < sh.vals.size(); ++i) if (sh.vals[i].read() != before[i]) violate("shared-value-changed", "a value that was only read changed: %s instead of %s", show(*sh.vals[i].t, sh.vals[i].read()).c_str(), show(*sh.vals[i].t, before[i]).c_str());
    std::string d = snap_diff(s0, snap(*w.reg));
    if (!d.empty()) violate("shared-registry-changed", "a registry that was only read changed: %s", d.c_str());
    logf("alone:");
    for (int i = 0; i < nt; ++i) {
        if (progs[i].faulty) continue;
        run_prog(progs[i], shared_program, alone[i]);
        compare_transcripts(i, got[i], alone[i]);
    }
    { Scope sc; delete held; std::vector<MemoryLayout>().swap(sh.layouts); }
}
sim::Reg r16("C16", c16, true, true, true);
}
