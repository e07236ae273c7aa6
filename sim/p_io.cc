// C11, C12, C13, C19: saving and loading registries.
#include "regw.hh"
#include "io.hh"
#include <typelib/exporter.hh>
#include <typelib/importer.hh>
#include <typelib/utilmm/configset.hh>
#include <libxml/xmlerror.h>
#include <sstream>
#include <ostream>
#include <istream>
#include <cerrno>
#include <cstring>
#include <algorithm>
using namespace Typelib;
using namespace sim;

namespace {
struct XmlCheck {
    long before;
    XmlCheck() { xmlResetLastError(); before = xml_live(); }
    void done() { xmlResetLastError(); if (xml_live() != before) violate("leak:xml", "%ld blocks of the XML library were not released", xml_live() - before); }
};

struct Conf {
    std::string kind; std::vector<std::pair<std::string, std::string>> opts;
    void fill(utilmm::config_set& c) const { for (auto& o : opts) c.insert(o.first, o.second); }
    std::string text() const { std::string s = kind; for (auto& o : opts) s += " " + o.first + "=" + o.second; return s; }
};
Conf gen_conf(Ctx& cx, Universe const& u, bool refuse)
{
    Conf c;
    if (cx.draw(2) == 0) { c.kind = "tlb"; return c; }
    c.kind = "idl";
    if (!refuse || cx.draw(3)) c.opts.push_back({"opaque_as_any", cx.draw(2) ? "1" : "true"});
    if (cx.chance(1, 4)) { static char const* p[] = {"Pre", "/Pre/", "/P/Q"}; c.opts.push_back({"namespace_prefix", p[cx.draw(3)]}); }
    if (cx.chance(1, 4)) { static char const* p[] = {"Suf", "Suf/", "S/R"}; c.opts.push_back({"namespace_suffix", p[cx.draw(3)]}); }
    if (cx.chance(1, 5)) c.opts.push_back({"blob_threshold", strf("%d", (int)cx.draw(40))});
    if (cx.chance(1, 6)) { int n = 1 + cx.draw(3); for (int i = 0; i < n; ++i) c.opts.push_back({"selected", u.any_name(cx)}); }
    return c;
}
void gen_registry(Ctx& cx, Universe& u, Registry& r, bool idl, bool fields_meta = true, bool odd_names = true)
{
    u.odd = cx.draw(2) && odd_names; u.nulls = cx.chance(1, 3);
    u.recs = cx.chance(1, 12); u.ptrs = cx.draw(2);
    if (idl) { u.nulls = cx.chance(1, 10); u.recs = false; u.ptrs = cx.chance(1, 8); u.multi = cx.chance(1, 8); }
    u.gen(cx, 1 + cx.draw(8));
    populate(u, r, cx, 1 + cx.draw(8), cx.draw(2) ? 4 : 0, true, fields_meta && cx.draw(3));
    // fields at the same offset have a normal order
    Out no = call([&] { for (RegistryIterator it = r.begin(); it != r.end(); ++it) if (!it.isAlias() && it->getCategory() == Type::Compound) dynamic_cast<Compound*>(r.get_(it->getName()))->normalizeFieldOrder(); });
    expect_ok(no, "normalising the order of fields");
    int ns = cx.draw(3);
    for (int i = 0; i < ns; ++i) {
        Type const* t = r.get(u.any_name(cx)); if (!t) continue;
        std::string src = cx.draw(2) ? strf("/f%d.h", (int)cx.draw(3)) : weird_text(cx, 3);
        Out o = call([&] { r.setSourceID(*t, src); });
        expect_ok(o, "setting a source id");
    }
}

// ---- ways of saving -----------------------------------------------------------------------------------
struct Saved { bool reported_ok = false, fired = false; std::string doc; Out o; std::string how; };
struct Saver {
    Ctx& cx; Conf const& c; Exporter* ex = 0;
    Saver(Ctx& cx, Conf const& c) : cx(cx), c(c) {}
    ~Saver() { Scope s; delete ex; }
    Saved to_string(Registry const& r, long ak = 0)
    {
        Saved s; s.how = "to a string";
        bool bare = cx.draw(2);
        std::string* d = 0;
        s.o = call([&] { utilmm::config_set cfg; c.fill(cfg); d = new std::string(c.opts.empty() && bare ? PluginManager::save(c.kind, r) : PluginManager::save(c.kind, cfg, r)); }, ak);
        if (d) s.doc = *d;
        { Scope sc; delete d; }
        s.reported_ok = s.o.ok; s.fired = s.o.injected;
        return s;
    }
    Exporter& exporter(bool keep)
    {
        if (!keep && ex) { Scope sc; delete ex; ex = 0; }
        if (!ex) { Out o = call([&] { PluginManager::self m; ex = m->exporter(c.kind); }); expect_ok(o, "creating an exporter"); }
        return *ex;
    }
    void plan(Sink& s, size_t size)
    {
        if (!cx.chance(2, 3)) return;
        static int fs[] = {W_ERROR, W_FULL, W_SHORT, W_TRANSIENT, W_ZERO};
        s.fault = fs[cx.draw(4)];
        s.at_call = cx.draw(3) ? cx.draw(3) : cx.draw(200);
        s.cap = cx.draw(2) ? cx.draw(size + 1) : size > 20 ? size - cx.draw(20) : cx.draw(size + 1);
        if (s.fault == W_SHORT) s.cap = cx.draw(97);
        static int es[] = {ENOSPC, EIO, EPIPE, EDQUOT}; s.err = es[cx.draw(4)];
    }
    Saved to_stream(Registry const& r, size_t size, bool faults, bool keep)
    {
        Saved s; bool throws = cx.chance(1, 3), buffered = cx.draw(2), exc = cx.chance(1, 4); int via = cx.draw(2), via2 = cx.draw(2);
        Sink sink; if (faults) plan(sink, size);
        long ak = faults && sink.fault == W_NONE && cx.draw(2) ? 1 + cx.draw(400) : 0;
        SinkBuf buf(sink, throws, buffered);
        std::ostream os(&buf);
        if (exc) os.exceptions(std::ios::badbit | std::ios::failbit);
        Exporter* e = via ? &exporter(keep) : 0;
        s.how = strf("to a stream (%s at %ld, cap %zu%s%s%s)", wfault_name(sink.fault), sink.at_call, sink.cap, throws ? ", throwing" : "", buffered ? ", buffered" : "", via ? ", exporter object" : "");
        s.o = call([&] {
            utilmm::config_set cfg; c.fill(cfg);
            if (e) e->save(os, cfg, r); else if (via2 && c.opts.empty()) PluginManager::save(c.kind, r, os); else PluginManager::save(c.kind, cfg, r, os);
        }, ak);
        bool ok = s.o.ok && os.good();
        if (ok) { try { os.flush(); } catch (...) {} ok = os.good(); }
        s.reported_ok = ok; s.fired = s.o.injected || sink.fired; s.doc = sink.data;
        return s;
    }
    Saved to_file(Registry const& r, size_t size, bool faults, bool keep)
    {
        Saved s; SimFile f;
        if (cx.draw(2)) f.w.data = "an older and maybe longer document that has to disappear";
        int k = faults ? cx.draw(6) : 0; long ak = 0;
        if (k == 1) { static int es[] = {EACCES, ENOSPC, EMFILE, EROFS}; f.open_err = es[cx.draw(4)]; }
        else if (k == 2) { static int es[] = {EIO, ENOSPC, EDQUOT}; f.close_err = es[cx.draw(3)]; }
        else if (k == 3) f.eintr_at = cx.draw(2) ? 0 : cx.draw(4);
        else if (k == 4) ak = 1 + cx.draw(400);
        else if (k == 5) plan(f.w, size);
        Exporter& e = exporter(keep);
        io_file("/sim/out", &f);
        s.how = strf("to a file (open %d close %d eintr %ld %s at %ld cap %zu)", f.open_err, f.close_err, f.eintr_at, wfault_name(f.w.fault), f.w.at_call, f.w.cap);
        s.o = call([&] { utilmm::config_set cfg; c.fill(cfg); e.save(std::string("/sim/out"), cfg, r); }, ak);
        io_file("/sim/out", 0);
        s.reported_ok = s.o.ok; s.fired = s.o.injected || f.fired; s.doc = f.w.data;
        if (s.o.ok && !f.closed) violate("file-left-open", "the file was not closed although the save succeeded");
        if (f.opened && !f.closed) violate("file-left-open", "the file was left open by a failed save");
        return s;
    }
};
std::string firstdiff(std::string const& a, std::string const& b)
{
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t from = i > 60 ? i - 60 : 0;
    return strf("at byte %zu: '%s' instead of '%s'", i, a.substr(from, 160).c_str(), b.substr(from, 160).c_str());
}

// ------------------------------------------------------------------------------------------------ C11
void c11(Ctx& cx)
{
    Universe u;
    Conf c0; bool idl = cx.draw(3) == 2;
    Reg1 reg;
    gen_registry(cx, u, *reg, idl);
    Conf c = gen_conf(cx, u, true);
    if (!idl) { c.kind = "tlb"; c.opts.clear(); } else if (c.kind == "tlb") { c.kind = "idl"; c.opts.push_back({"opaque_as_any", "1"}); }
    Saver sv(cx, c);
    Snap s0 = snap(*reg);
    Saved base = sv.to_string(*reg);
    logf("registry of %zu names, %s: %s (%zu bytes)", s0.names.size(), c.text().c_str(), base.o.ok ? "saved" : base.o.type.c_str(), base.doc.size());
    state(hash_bytes(base.doc.data(), base.doc.size()));
    if (!base.o.ok && (base.o.bad_alloc || base.o.type == "std::logic_error")) expect_ok(base.o, "saving");
    count(base.o.ok ? "saved" : "refused-registry");
    int rounds = 1 + cx.draw(5);
    for (int k = 0; k <= rounds; ++k) {
        SpanGuard g(cx);
        bool faults = k < rounds;
        bool keep = cx.draw(2);
        Saved s;
        switch (cx.draw(4)) {
        case 0: s = sv.to_file(*reg, base.doc.size(), faults, keep); break;
        case 1: case 2: s = sv.to_stream(*reg, base.doc.size(), faults, keep); break;
        default: s = sv.to_string(*reg, faults ? 1 + cx.draw(500) : 0); break;
        }
        logf("save %d %s: %s, %zu bytes, fault %d", k, s.how.c_str(), s.reported_ok ? "success" : s.o.ok ? "stream error" : s.o.type.c_str(), s.doc.size(), s.fired);
        if (!base.o.ok) {
            if (s.reported_ok) violate("refused-then-accepted", "%s: saving %s succeeded although the registry was refused before", c.text().c_str(), s.how.c_str());
            if (!s.fired && (s.o.type != base.o.type || s.o.what != base.o.what)) violate("refused-differently", "%s: saving %s is refused with %s %s instead of %s %s", c.text().c_str(), s.how.c_str(), s.o.type.c_str(), s.o.what.c_str(), base.o.type.c_str(), base.o.what.c_str());
        } else {
            if (s.reported_ok && s.doc != base.doc) violate(s.doc.size() < base.doc.size() ? "incomplete-document-reported-as-saved" : "wrong-document", "%s: saving %s reports success, but %zu bytes of %zu arrived; first difference %s", c.text().c_str(), s.how.c_str(), s.doc.size(), base.doc.size(), firstdiff(s.doc, base.doc).c_str());
            if (!s.reported_ok && !s.fired) violate("unexpected-error", "%s: saving %s failed without a fault: %s %s", c.text().c_str(), s.how.c_str(), s.o.type.c_str(), s.o.what.c_str());
        }
        std::string d = snap_diff(s0, snap(*reg));
        if (!d.empty()) violate("registry-changed", "saving %s changed the registry: %s", s.how.c_str(), d.c_str());
    }
}
sim::Reg r11("C11", c11);

// ------------------------------------------------------------------------------------------------ loading
// delivers a document in some way; the read error, if any, comes at fail_at
// the ways of loading through the plugin manager: into an existing registry or into a new one
template<typename Src> void pm_load(int form, Src& src, Reg1& into)
{
    utilmm::config_set cfg;
    switch (form) {
    case 1: PluginManager::load("tlb", src, cfg, *into); break;
    case 2: { Registry* n = PluginManager::load("tlb", src); delete into.r; into.r = n; break; }
    case 3: { Registry* n = PluginManager::load("tlb", src, cfg); delete into.r; into.r = n; break; }
    default: PluginManager::load("tlb", src, *into);
    }
}
Out deliver(Ctx& cx, std::string const& doc, Reg1& into, size_t fail_at, long ak, bool& fired, std::string& how)
{
    size_t chunk = cx.draw(3) ? 0 : 1 + cx.draw(64);
    int form = cx.draw(into->size() ? 2 : 4);
    Out o;
    switch (cx.draw(5)) {
    case 0: if (fail_at == SIZE_MAX) {
        how = "a string stream";
        std::istringstream in(doc);
        o = call([&] { std::istream& st = in; pm_load(form, st, into); }, ak);
        break;
    }   // fallthrough
    case 1: case 2: {
        how = strf("a stream in chunks of %zu", chunk);
        bool exc = cx.chance(1, 4);
        SourceBuf b(doc, chunk, fail_at);
        std::istream in(&b);
        if (exc) in.exceptions(std::ios::badbit);
        int via = cx.draw(2); Importer* im = 0;
        o = call([&] {
            if (!via) pm_load(form, in, into);
            else { utilmm::config_set cfg; std::unique_ptr<Importer> im; { PluginManager::self m; im.reset(m->importer("tlb")); } im->load(in, cfg, *into); }
        }, ak);
        (void)im;
        fired |= b.fired;
        break;
    }
    default: {
        SimFile f; f.content = doc; f.chunk = chunk ? chunk * 40 : 0; f.read_err_at = fail_at; f.read_err = cx.draw(2) ? EIO : EISDIR;
        if (cx.chance(1, 3)) f.eintr_at = cx.draw(4);
        how = strf("a file in chunks of %zu, read %ld interrupted", f.chunk, f.eintr_at);
        bool opn = fail_at != SIZE_MAX && cx.chance(1, 6);
        if (opn) f.open_err = cx.draw(2) ? ENOENT : EACCES;
        io_file("/sim/in.tlb", &f);
        o = call([&] { std::string const path("/sim/in.tlb"); pm_load(form, path, into); }, ak);
        io_file("/sim/in.tlb", 0);
        if (f.opened && !f.closed) violate("file-left-open", "the document was left open");
        if (f.fired && (f.open_err || f.pos >= f.read_err_at)) fired = true;
    }
    }
    fired |= o.injected;
    return o;
}
// the content that a type library holds
std::string tlb_content(Registry const& r) { return content_of(r, true, true); }
std::string line_diff(std::string const& a, std::string const& b)
{
    std::set<std::string> sa, sb; std::string l;
    std::istringstream ia(a), ib(b);
    while (std::getline(ia, l)) sa.insert(l);
    while (std::getline(ib, l)) sb.insert(l);
    for (auto& x : sa) if (!sb.count(x)) l = "missing: " + x;
    std::string m; for (auto& x : sb) if (!sa.count(x)) m = "instead: " + x;
    return l + "; " + m;
}

void c12(Ctx& cx)
{
    Universe u; u.recs = false;
    Reg1 reg;
    gen_registry(cx, u, *reg, false);
    // enums and containers may have been given another size
    if (cx.chance(1, 4)) {
        std::vector<std::string> en;
        { NoScope ns; for (RegistryIterator it = reg->begin(); it != reg->end(); ++it) if (!it.isAlias() && it->getCategory() == Type::Enum) en.push_back(it.getName()); }
        if (!en.empty()) {
            std::map<std::string, size_t> req; static size_t es[] = {1, 2, 8}; req[en[cx.draw(en.size())]] = es[cx.draw(3)];
            Out o = call([&] { reg->resize(req); }); expect_ok(o, "resizing an enum"); count("resized-enum");
        }
    }
    Conf c; c.kind = "tlb";
    Saver sv(cx, c);
    Saved s = cx.draw(2) ? sv.to_file(*reg, 0, false, false) : sv.to_stream(*reg, 0, false, false);
    if (!s.reported_ok && s.o.type == "Typelib::ExportError") { count("recursive-refused"); return; }
    if (!s.reported_ok) violate("unexpected-error", "saving failed: %s %s", s.o.type.c_str(), s.o.what.c_str());
    std::string want = tlb_content(*reg);
    logf("%s", s.doc.c_str());
    state(hash_bytes(s.doc.data(), s.doc.size()));
    XmlCheck xc;
    int loads = 1 + cx.draw(2);
    std::string doc = s.doc;
    for (int k = 0; k < loads; ++k) {
        SpanGuard g(cx);
        Reg1 back;
        if (cx.chance(1, 6)) { Out o = call([&] { back->setDefaultNamespace(cx.draw(2) ? "/A" : "/A/B/"); }); expect_ok(o, "changing the default namespace"); }
        bool fired = false; std::string how;
        if (cx.chance(1, 4)) {
            // an interrupted attempt into another registry first
            Reg1 other; size_t at = cx.draw(doc.size() + 1); bool f2 = false; std::string h2;
            deliver(cx, doc, other, at, 0, f2, h2);
        }
        Out o = deliver(cx, doc, back, SIZE_MAX, 0, fired, how);
        if (!o.ok) violate("good-document-refused", "loading from %s: %s %s; document %s", how.c_str(), o.type.c_str(), o.what.c_str(), doc.substr(0, 1500).c_str());
        scan(*back, std::set<std::string>(), "loading a type library");
        std::string got = tlb_content(*back);
        if (got != want) violate("definitions-differ", "after loading from %s: %s; document %s", how.c_str(), line_diff(want, got).c_str(), doc.substr(0, 1200).c_str());
        Saver sv2(cx, c);
        Saved s2 = cx.draw(2) ? sv2.to_string(*back) : sv2.to_stream(*back, 0, false, false);
        if (!s2.reported_ok) violate("unexpected-error", "saving the reloaded registry failed: %s %s", s2.o.type.c_str(), s2.o.what.c_str());
        if (s2.doc != doc) violate("document-differs", "saving the reloaded registry gives another document, %s", firstdiff(s2.doc, doc).c_str());
        nontrivial();
    }
    xc.done();
}
sim::Reg r12("C12", c12);

// ------------------------------------------------------------------------------------------------ C13
std::string attr_damage(Ctx& cx, std::string doc, std::string& desc)
{
    // attribute values: [b, e)
    std::vector<std::pair<size_t, size_t>> at; std::vector<std::string> an;
    for (size_t p = doc.find("=\""); p != std::string::npos; p = doc.find("=\"", p)) {
        size_t e = doc.find('"', p + 2); if (e == std::string::npos) break;
        size_t n = doc.find_last_of(" \n<", p); an.push_back(doc.substr(n + 1, p - n - 1));
        at.push_back({p + 2, e}); p = e;
    }
    if (at.empty()) return doc;
    size_t i = cx.draw(at.size());
    std::string old = doc.substr(at[i].first, at[i].second - at[i].first), nv;
    switch (cx.draw(5)) {
    case 0: { size_t j = cx.draw(at.size()); nv = doc.substr(at[j].first, at[j].second - at[j].first); break; }
    case 1: {   // a value of the same attribute elsewhere
        std::vector<size_t> same; for (size_t j = 0; j < at.size(); ++j) if (an[j] == an[i]) same.push_back(j);
        size_t j = same[cx.draw(same.size())]; nv = doc.substr(at[j].first, at[j].second - at[j].first); break; }
    case 2: { static char const* v[] = {"0", "1", "-1", "4294967296", "18446744073709551615", "999999999999999999999", "x", "", " 4", "4.5", "3", "16"}; nv = v[cx.draw(12)]; break; }
    case 3: nv = old + (cx.draw(2) ? "x" : "[3]"); break;
    default: { static char const* v[] = {"/T", "T", "/A/T*", "/nowhere", "/T[0]", "/T[-1]", "/std/vector", "/std/string", "/std/vector&lt;/T&gt;", "/std/vector&lt;/int8_t&gt;", "/int8_t", "/T[2][", "/A//B", "/T**", "/", "/T[99999999999]", "a/b", "compound", "sint"}; nv = v[cx.draw(19)]; break; }
    }
    desc = strf("%s=\"%s\" instead of \"%s\"", an[i].c_str(), nv.c_str(), old.c_str());
    doc.replace(at[i].first, old.size(), nv);
    return doc;
}
std::string line_damage(Ctx& cx, std::string doc, std::string& desc)
{
    std::vector<std::string> ls; std::istringstream in(doc); std::string l;
    while (std::getline(in, l)) ls.push_back(l + "\n");
    size_t i = cx.draw(ls.size());
    switch (cx.draw(6)) {
    case 0: desc = "line removed: " + ls[i]; ls.erase(ls.begin() + i); break;
    case 1: desc = "line repeated: " + ls[i]; ls.insert(ls.begin() + i, ls[i]); break;
    case 2: { size_t j = cx.draw(ls.size()); desc = "lines exchanged: " + ls[i] + ls[j]; std::swap(ls[i], ls[j]); break; }
    case 3: {
        static char const* el[] = { "compound", "numeric", "enum", "container", "alias", "opaque", "null", "field", "value", "metadata", "typelib", "pointer", "array", "foo" };
        size_t b = ls[i].find('<'); if (b == std::string::npos) break;
        size_t e = ls[i].find_first_of(" >/", b + 2); if (e == std::string::npos) break;
        std::string n = el[cx.draw(14)]; desc = "element " + ls[i].substr(b + 1, e - b - 1) + " called " + n;
        std::string o = ls[i].substr(b + 1, e - b - 1);
        ls[i].replace(b + 1, o.size(), n);
        // and its end, most of the time
        if (cx.draw(4)) for (size_t j = i; j < ls.size(); ++j) { size_t p = ls[j].find("</" + o + ">"); if (p != std::string::npos) { ls[j].replace(p + 2, o.size(), n); break; } }
        break;
    }
    case 4: {
        static char const* extra[] = { "<alias name=\"/loop\" source=\"/loop\"/>", "<alias name=\"/l1\" source=\"/l2\"/><alias name=\"/l2\" source=\"/l1\"/>", "<compound name=\"/cyc\" size=\"8\"><field name=\"a\" type=\"/cyc\" offset=\"0\"/></compound>",
            "<compound name=\"/cyc\" size=\"8\"><field name=\"a\" type=\"/cyc[2]\" offset=\"0\"/></compound>", "<compound name=\"/cyc\" size=\"8\"><field name=\"a\" type=\"/cyc*\" offset=\"0\"/></compound>",
            "<compound name=\"/cy1\" size=\"8\"><field name=\"a\" type=\"/cy2\" offset=\"0\"/></compound><compound name=\"/cy2\" size=\"8\"><field name=\"a\" type=\"/cy1\" offset=\"0\"/></compound>",
            "<container name=\"/std/vector&lt;/v&gt;\" of=\"/std/vector&lt;/v&gt;\" size=\"24\" kind=\"/std/vector\"/>", "<container name=\"/wrong\" of=\"/int8_t\" size=\"4\" kind=\"/std/string\"/>",
            "<container name=\"/x\" of=\"/int8_t\" size=\"4\" kind=\"/std/nothing\"/>", "<numeric name=\"/n\" category=\"sint\"/>", "<numeric name=\"/n\" category=\"complex\" size=\"4\"/>", "<![CDATA[text]]>", "text", "<!-- comment -->", "<?pi?>",
            "<numeric name=\"/int8_t\" category=\"float\" size=\"8\"/>", "<alias name=\"/std/string\" source=\"/T\"/>", "<compound name=\"/cc\" size=\"4\"><field name=\"a\" type=\"/int8_t\" offset=\"0\"/><field name=\"a\" type=\"/int8_t\" offset=\"1\"/></compound>",
            "<enum name=\"/ee\"><value symbol=\"A\" value=\"1\"/><value symbol=\"A\" value=\"2\"/></enum>", "<enum name=\"/ee\"><value symbol=\"A\" value=\"99999999999\"/></enum>", "&undefined;", "<null name=\"/nn\"/>", "<compound size=\"4\"/>" };
        std::string x = extra[cx.draw(23)]; desc = "added " + x; ls.insert(ls.begin() + (cx.draw(2) ? std::min<size_t>(2, ls.size()) : i), x + "\n"); break;
    }
    default: { std::string moved = ls[i]; ls.erase(ls.begin() + i); size_t j = cx.draw(ls.size() + 1); desc = "moved " + moved; ls.insert(ls.begin() + j, moved); break; }
    }
    std::string r; for (auto& x : ls) r += x;
    return r;
}

void c13(Ctx& cx)
{
    Universe u; u.recs = false;
    Conf c; c.kind = "tlb";
    std::string doc, want;
    {
        Reg1 reg;
        gen_registry(cx, u, *reg, false);
        Saver sv(cx, c);
        Saved s = sv.to_string(*reg);
        if (!s.reported_ok && s.o.type == "Typelib::ExportError") return;
        if (!s.reported_ok) violate("unexpected-error", "saving failed: %s %s", s.o.type.c_str(), s.o.what.c_str());
        doc = s.doc; want = tlb_content(*reg);
    }
    XmlCheck xc;
    {
        Reg1 into; std::set<std::string> used;
        if (cx.draw(2)) populate(u, *into, cx, 1 + cx.draw(5), 3, true);
        if (cx.chance(1, 6)) { Out o = call([&] { into->setDefaultNamespace("/A"); }); expect_ok(o, "changing the default namespace"); }
        int attempts = 1 + cx.draw(3);
        for (int k = 0; k < attempts; ++k) {
            SpanGuard g(cx);
            std::string bad = doc, desc; size_t fail_at = SIZE_MAX; bool must_refuse = false; long ak = 0;
            size_t body = doc.rfind("</typelib>") + strlen("</typelib>");
            switch (cx.draw(8)) {
            case 0: { size_t n = cx.draw(3) ? cx.draw(body) : body - 1 - cx.draw(std::min<size_t>(body, 40)); bad.resize(n); desc = strf("truncated to %zu of %zu bytes", n, doc.size()); must_refuse = true; count("fault.truncated-document"); break; }
            case 1: { int n = 1 + cx.draw(4); for (int i = 0; i < n; ++i) bad[cx.draw(bad.size())] ^= 1 << cx.draw(8); desc = strf("%d bits flipped", n); count("fault.garbled-document"); break; }
            case 2: { size_t a = cx.draw(bad.size()), n = 1 + cx.draw(60); if (cx.draw(2)) { bad.erase(a, n); desc = strf("%zu bytes lost at %zu", n, a); } else { bad.insert(a, bad.substr(a > n ? a - n : 0, n)); desc = strf("%zu bytes repeated at %zu", n, a); } count("fault.garbled-document"); break; }
            case 3: fail_at = cx.draw(body); desc = strf("read error at %zu", fail_at); must_refuse = true; break;
            case 4: case 5: { int n = 1 + cx.draw(2); for (int i = 0; i < n; ++i) { std::string d; bad = attr_damage(cx, bad, d); desc += d + " "; } count("fault.inconsistent-document"); break; }
            case 6: { int n = 1 + cx.draw(2); for (int i = 0; i < n; ++i) { std::string d; bad = line_damage(cx, bad, d); desc += d + " "; } count("fault.inconsistent-document"); break; }
            default: ak = 1 + cx.draw(600); desc = "allocation failure"; break;
            }
            nontrivial();
            Snap s0 = snap(*into);
            bool fired = false; std::string how;
            Out o = deliver(cx, bad, into, fail_at, ak, fired, how);
            logf("%s from %s: %s", desc.c_str(), how.c_str(), o.ok ? "accepted" : (o.type + " " + o.what).c_str());
            if (o.ok && must_refuse && bad != doc) violate("truncated-accepted", "%s: accepted", desc.c_str());
            if (o.ok && fail_at != SIZE_MAX) violate("truncated-accepted", "%s: accepted", desc.c_str());
            if (o.type == "unknown" || o.type == "SimStdFault") { if (!o.ours) violate("wrong-error", "%s: something that is not an exception object was thrown", desc.c_str()); }
            Snap s1 = snap(*into);
            for (auto& n : s0.names) {
                auto it = s1.names.find(n.first);
                if (it == s1.names.end() || it->second.t != n.second.t) violate("existing-type-changed", "after a document with %s: %s designates something else", desc.c_str(), n.first.c_str());
                if (s0.defs[n.second.t] != s1.defs[n.second.t]) violate("existing-type-changed", "after a document with %s: %s was %s and is now %s", desc.c_str(), n.first.c_str(), s0.defs[n.second.t].c_str(), s1.defs[n.second.t].c_str());
            }
            for (auto& n : s1.names) used.insert(n.first);
            scan(*into, used, ("a document with " + desc).c_str());
            std::string cs = content_of(*into, false); state(hash_bytes(cs.data(), cs.size()));
        }
    }
    {
        Reg1 back; bool fired = false; std::string how;
        Out o = deliver(cx, doc, back, SIZE_MAX, 0, fired, how);
        if (!o.ok) violate("good-document-refused", "after damaged ones, the good document is refused: %s %s", o.type.c_str(), o.what.c_str());
        std::string got = tlb_content(*back);
        if (got != want) violate("definitions-differ", "after damaged documents, the good one gives %s", line_diff(want, got).c_str());
    }
    xc.done();
}
sim::Reg r13("C13", c13);

// ------------------------------------------------------------------------------------------------ C19
void c19(Ctx& cx)
{
    Universe u; bool idl = cx.draw(2);
    Reg1 a, b;
    gen_registry(cx, u, *a, idl);
    Conf c = gen_conf(cx, u, true);
    c.kind = idl ? "idl" : "tlb"; if (!idl) c.opts.clear();
    bool rec = false;
    for (auto& t : u.types) rec |= t.def[0].rec || t.def[1].rec;
    Reg1 twin;
    if (!rec) {
        // addresses differ as well
        int pad = cx.draw(20); std::vector<void*> hold;
        for (int i = 0; i < pad; ++i) { Scope s; hold.push_back(operator new(16 << cx.draw(4))); }
        for (size_t i = 0; i < hold.size(); i += 2) { operator delete(hold[i]); hold[i] = 0; }
        if (cx.chance(1, 4)) { Out o = call([&] { twin->setDefaultNamespace(cx.draw(2) ? "/A" : "/N"); }); expect_ok(o, "changing the default namespace"); }
        switch (cx.draw(3)) {
        case 0: rebuild(*a, *twin, cx); break;
        case 1: { Reg1 tmp; rebuild(*a, *tmp, cx); Out o = call([&] { twin->merge(*tmp); }); expect_ok(o, "merging"); break; }
        default: {
            // something more, removed again
            rebuild(*a, *twin, cx);
            Out o = call([&] { Numeric* n = new Numeric("/A/tmp", 4, Numeric::SInt); twin->add(n); twin->alias("/A/tmp", "/N/tmpalias"); twin->build("/A/tmp[3]"); std::set<Type*> gone = twin->remove(*n); for (Type* t : gone) delete t; });
            expect_ok(o, "adding and removing a type");
        }
        }
        for (void* p : hold) operator delete(p);
        std::string ca = tlb_content(*a), cb = tlb_content(*twin);
        if (ca != cb) violate("harness", "the recreated registry differs: %s", line_diff(ca, cb).c_str());
    }
    // another registry, saved in between with the same exporter object
    Universe u2; gen_registry(cx, u2, *b, idl);
    Saver sa(cx, c), sb(cx, c);
    Snap s0 = snap(*a);
    Saved base = sa.to_string(*a);
    logf("registry of %zu names, %s: %s (%zu bytes)", s0.names.size(), c.text().c_str(), base.o.ok ? "saved" : base.o.type.c_str(), base.doc.size());
    state(hash_bytes(base.doc.data(), base.doc.size()));
    if (!base.o.ok && base.o.bad_alloc) expect_ok(base.o, "saving");
    count(base.o.ok ? "saved" : "refused-registry");
    int rounds = 1 + cx.draw(5);
    for (int k = 0; k < rounds; ++k) {
        SpanGuard g(cx);
        bool disturb = cx.chance(1, 3);
        int which = cx.draw(rec ? 2 : 3);        // a, b (only as a disturbance), twin
        Registry& r = which == 2 ? *twin : which == 1 && disturb ? *b : *a;
        Saver& sv = cx.draw(3) ? sa : sb;
        bool keep = cx.draw(4) != 3;
        Saved s;
        switch (cx.draw(4)) {
        case 0: s = sv.to_file(r, base.doc.size(), disturb, keep); break;
        case 1: s = sv.to_string(r, disturb ? 1 + cx.draw(500) : 0); break;
        default: s = sv.to_stream(r, base.doc.size(), disturb, keep); break;
        }
        logf("save %d of %s %s: %s, %zu bytes", k, &r == &*a ? "the registry" : &r == &*b ? "another one" : "its twin", s.how.c_str(), s.reported_ok ? "success" : s.o.ok ? "stream error" : s.o.type.c_str(), s.doc.size());
        if (disturb) continue;
        nontrivial();
        if (s.reported_ok != base.o.ok) violate("refused-differently", "%s: saving %s: %s %s, at first: %s %s", c.text().c_str(), s.how.c_str(), s.reported_ok ? "done" : s.o.type.c_str(), s.o.what.c_str(), base.o.ok ? "done" : base.o.type.c_str(), base.o.what.c_str());
        if (!base.o.ok && (s.o.type != base.o.type || s.o.what != base.o.what)) violate("refused-differently", "%s: saving %s is refused with %s %s instead of %s %s", c.text().c_str(), s.how.c_str(), s.o.type.c_str(), s.o.what.c_str(), base.o.type.c_str(), base.o.what.c_str());
        if (base.o.ok && s.doc != base.doc) violate("document-differs", "%s: saving %s %s gives another document, %s", c.text().c_str(), &r == &*a ? "the registry again" : "a registry with the same content", s.how.c_str(), firstdiff(s.doc, base.doc).c_str());
    }
    std::string d = snap_diff(s0, snap(*a));
    if (!d.empty()) violate("registry-changed", "saving changed the registry: %s", d.c_str());
}
sim::Reg r19("C19", c19);

// ------------------------------------------------------------------------------------------------ C33
// Reads an IDL document line by line, checks that every scoped name that is used designates something
// declared before, and collects what is declared.
struct IdlDecl {
    char kind;                                                   // struct, enum, typedef
    struct Member { std::string type, name; std::string dim; };
    std::vector<Member> members;                                 // of a structure, or the one of a typedef
    std::vector<std::string> symbols;
};
struct IdlReader {
    std::vector<std::string> scope;          // open modules
    std::map<std::string, IdlDecl> declared; // ::a::b::Name
    std::string open_struct; IdlDecl open_decl;
    size_t uses = 0;
    std::string full(std::string const& n) const { std::string r; for (auto& m : scope) r += "::" + m; return r + "::" + n; }
    static std::string trim(std::string const& s) { size_t b = s.find_first_not_of(" \t"), e = s.find_last_not_of(" \t"); return b == std::string::npos ? "" : s.substr(b, e - b + 1); }
    static bool ident(std::string const& s)
    {
        if (s.empty() || isdigit((unsigned char)s[0])) return false;
        for (char c : s) if (!isalnum((unsigned char)c) && c != '_') return false;
        return true;
    }
    std::string why;
    bool bad(std::string const& m) { if (why.empty()) why = m; return false; }
    bool declare(std::string const& n, IdlDecl const& d)
    {
        static std::set<std::string> const reserved = {"octet", "boolean", "short", "long", "unsigned", "float", "double", "string", "any", "char", "sequence", "struct", "enum", "module", "typedef"};
        if (!ident(n) || reserved.count(n)) return bad("'" + n + "' is not an identifier");
        if (!declared.insert({full(n), d}).second) return bad("'" + full(n) + "' is declared twice");
        return true;
    }
    bool partial = false;   // only some types were asked for: the others are declared elsewhere
    // the type, with its full name
    bool use(std::string t, std::string& to)
    {
        t = trim(t);
        static std::set<std::string> const builtin = {"octet", "boolean", "short", "long", "long long", "unsigned short", "unsigned long", "unsigned long long", "float", "double", "long double", "string", "any", "char"};
        if (t.compare(0, 9, "sequence<") == 0 && t[t.size() - 1] == '>') {
            std::string in;
            if (!use(t.substr(9, t.size() - 10), in)) return false;
            to = "sequence<" + in + ">";
            return true;
        }
        if (builtin.count(t)) { to = t; return true; }
        ++uses;
        if (t.compare(0, 2, "::") != 0) {
            // the enclosing scopes, from the inside
            std::vector<std::string> sc = scope;
            for (;;) {
                std::string r; for (auto& m : sc) r += "::" + m;
                if (declared.count(r + "::" + t)) { to = r + "::" + t; return true; }
                if (sc.empty()) return bad("'" + t + "' is not declared before its use");
                sc.pop_back();
            }
        }
        to = t;
        if (!partial && !declared.count(t)) return bad("'" + t + "' is not declared before its use");
        return true;
    }
    // "type name", "type name[3]"
    bool member(std::string l, IdlDecl& d)
    {
        IdlDecl::Member m;
        l = trim(l);
        if (l.empty() || l[l.size() - 1] != ';') return bad("'" + l + "' does not end with a semicolon");
        l = trim(l.substr(0, l.size() - 1));
        size_t b = l.find('[');
        if (b != std::string::npos && l.find('>', b) == std::string::npos) { m.dim = l.substr(b); l = trim(l.substr(0, b)); }
        size_t sp = l.rfind(' ');
        if (sp == std::string::npos) return bad("'" + l + "' has no name");
        m.name = l.substr(sp + 1);
        if (!ident(m.name)) return bad("'" + m.name + "' is not an identifier");
        if (!use(l.substr(0, sp), m.type)) return false;
        d.members.push_back(m);
        return true;
    }
    bool read(std::string const& doc)
    {
        std::istringstream in(doc); std::string l;
        while (std::getline(in, l)) {
            l = trim(l);
            std::string n;
            if (l.empty()) continue;
            if (l == "};") {
                if (!open_struct.empty()) { if (!declare(open_struct, open_decl)) return false; open_struct.clear(); }
                else if (scope.empty()) return bad("a module is closed that was not opened");
                else scope.pop_back();
            } else if (!open_struct.empty()) { if (!member(l, open_decl)) return false; }
            else if (l.compare(0, 7, "module ") == 0) {
                n = trim(l.substr(7, l.find('{') - 7));
                if (!ident(n)) return bad("'" + n + "' is not an identifier");
                scope.push_back(n);
            } else if (l.compare(0, 7, "struct ") == 0) { open_struct = trim(l.substr(7, l.find('{') - 7)); open_decl = IdlDecl(); open_decl.kind = 's'; }
            else if (l.compare(0, 5, "enum ") == 0) {
                IdlDecl d; d.kind = 'e';
                size_t b = l.find('{'), e = l.find('}');
                if (b == std::string::npos || e == std::string::npos) return bad("'" + l + "' is not understood");
                std::istringstream sy(l.substr(b + 1, e - b - 1)); std::string w;
                while (std::getline(sy, w, ',')) { d.symbols.push_back(trim(w)); if (!ident(trim(w))) return bad("'" + w + "' is not an identifier"); }
                if (!declare(trim(l.substr(5, b - 5)), d)) return false;
            }
            else if (l.compare(0, 8, "typedef ") == 0) { IdlDecl d; d.kind = 't'; if (!member(l.substr(8), d) || !declare(d.members[0].name, d)) return false; }
            else return bad("'" + l + "' is not understood");
        }
        if (!scope.empty() || !open_struct.empty()) return bad("a module is not closed");
        return true;
    }
};
// What the document of a registry has to say
struct IdlModel {
    std::string prefix, suffix; bool any = false; long blob = 0;
    std::string why;
    bool bad(std::string const& m) { if (why.empty()) why = m; return false; }
    bool blobbed(Type const& t) const { return blob && t.getSize() > (size_t)blob; }
    static std::string plain(std::string const& s)
    {
        std::string r = s[0] == '_' ? s.substr(1) : s;
        for (char& c : r) if (strchr("<>/,", c)) c = '_';
        return r;
    }
    static void split(std::string const& name, std::string& ns, std::string& base)
    {
        size_t last = 0; int level = 0;
        for (size_t i = 0; i < name.size(); ++i) { if (name[i] == '<') ++level; if (name[i] == '>') --level; if (name[i] == '/' && !level) last = i; }
        ns = name.substr(0, last + 1); base = name.substr(last + 1);
    }
    std::string path(std::string const& name) const
    {
        std::string ns, base, r, w; split(name, ns, base);
        std::istringstream in(prefix + "/" + ns + "/" + suffix);
        while (std::getline(in, w, '/')) if (!w.empty()) r += "::" + plain(w);
        return r + "::" + plain(base);
    }
    // can be the type of a field
    bool usable(Type const& t) const
    {
        switch (t.getCategory()) {
        case Type::Numeric: { size_t s = t.getSize(); return t.getName() == "/bool" || static_cast<Numeric const&>(t).getNumericCategory() == Numeric::Float || s == 1 || s == 2 || s == 4 || s == 8; }
        case Type::Enum: case Type::Compound: return true;
        case Type::Opaque: return any;
        case Type::Array: { Type const& e = static_cast<Indirect const&>(t).getIndirection(); return e.getCategory() != Type::Array && usable(e); }
        case Type::Container: { if (t.getName() == "/std/string") return true; Type const& e = static_cast<Indirect const&>(t).getIndirection(); return e.getCategory() != Type::Array && usable(e); }
        default: return false;
        }
    }
    std::set<std::string> selected;
    bool wanted(Type const& t) const { return selected.empty() || selected.count(t.getName()); }
    // what cannot be expressed, or ""
    std::string refused(Registry const& r) const
    {
        for (RegistryIterator it = r.begin(); it != r.end(); ++it) {
            if (!it.isPersistent()) continue;
            Type const& t = *it;
            if (!wanted(t)) continue;
            if (it.isAlias()) {
                if (t.getCategory() == Type::Pointer || t.getCategory() == Type::NullType) { if (it.getName().find_first_of("<") == std::string::npos || t.getCategory() == Type::Pointer) return it.getName(); else continue; }
                if (t.getCategory() == Type::Array) { Type::Category c = static_cast<Indirect const&>(t).getIndirection().getCategory(); if (c == Type::Array || c == Type::Pointer) return it.getName(); }
                if (it.getName().find_first_of("<") != std::string::npos) continue;
                if (t.getCategory() == Type::Opaque ? false : !usable(t)) return it.getName();
                continue;
            }
            if (blobbed(t)) { if (t.getCategory() != Type::Opaque && !usable(t)) return it.getName(); continue; }
            switch (t.getCategory()) {
            case Type::Compound: for (auto& f : static_cast<Compound const&>(t).getFields()) if (!usable(f.getType())) return it.getName(); break;
            case Type::Opaque: case Type::Container: if (!usable(t)) return it.getName(); break;
            default: break;
            }
        }
        return "";
    }
    // the type and dimension of something declared in the document designate this type
    bool match(IdlReader const& d, std::string const& idl, std::string const& dim, Type const& t)
    {
        if (t.getCategory() == Type::Array) {
            Array const& a = static_cast<Array const&>(t);
            if (dim != strf("[%zu]", (size_t)a.getDimension())) return bad("the dimension of " + t.getName() + " is " + dim);
            return match(d, idl, "", a.getIndirection());
        }
        if (!dim.empty()) return bad("dimension " + dim + " of " + t.getName());
        std::string exp;
        switch (t.getCategory()) {
        case Type::Numeric: {
            Numeric const& n = static_cast<Numeric const&>(t);
            if (t.getName() == "/bool") exp = "boolean";
            else if (n.getNumericCategory() == Numeric::Float) { exp = n.getSize() == 4 ? "float" : n.getSize() == 8 ? "double" : idl; }
            else exp = n.getSize() == 1 ? "octet" : std::string(n.getNumericCategory() == Numeric::UInt ? "unsigned " : "") + (n.getSize() == 2 ? "short" : n.getSize() == 4 ? "long" : "long long");
            break; }
        case Type::Opaque: exp = "any"; break;
        case Type::Enum: case Type::Compound: exp = path(t.getName()); break;
        case Type::Container: {
            if (t.getName() == "/std/string") { exp = "string"; break; }
            auto it = d.declared.find(idl);
            std::string seq = idl;
            if (it != d.declared.end()) {
                if (it->second.kind != 't' || !it->second.members[0].dim.empty()) return bad(t.getName() + " is " + idl);
                seq = it->second.members[0].type;
            }
            if (d.partial && it == d.declared.end() && !selected.count(t.getName()) && idl.find("vector_") != std::string::npos) break;
            if (seq.compare(0, 9, "sequence<")) return bad(t.getName() + " is " + seq);
            if (blobbed(t) && it != d.declared.end()) { if (seq != "sequence<octet>") return bad("large " + t.getName() + " is " + seq); return true; }
            return match(d, seq.substr(9, seq.size() - 10), "", static_cast<Indirect const&>(t).getIndirection());
        }
        default: return bad(t.getName() + " cannot be in an IDL document");
        }
        if (t.getCategory() == Type::Container && exp.empty()) return true;
        if (idl != exp) return bad(t.getName() + " is " + idl + " instead of " + exp);
        return true;
    }
    bool check(IdlReader const& d, Registry const& r)
    {
        for (RegistryIterator it = r.begin(); it != r.end(); ++it) {
            if (!it.isPersistent()) continue;
            Type const& t = *it;
            auto p = d.declared.find(path(it.getName()));
            bool there = p != d.declared.end();
            if (!wanted(t)) {
                if (there) return bad(it.getName() + " is declared but was not asked for");
                continue;
            }
            if (it.isAlias()) {
                if (it.getName().find_first_of("<> ") != std::string::npos || (t.getCategory() == Type::Opaque && !any)) continue;
                if (!there) return bad("the alias " + it.getName() + " of " + t.getName() + " is not declared");
                if (p->second.kind != 't') return bad("the alias " + it.getName() + " is no typedef");
                auto& m = p->second.members[0];
                if (blobbed(t) && t.getCategory() == Type::Container && m.type == "sequence<octet>" && m.dim.empty()) continue;
                if (!match(d, m.type, m.dim, t)) return bad("alias " + it.getName());
                continue;
            }
            if (t.getCategory() != Type::Compound && t.getCategory() != Type::Enum) continue;
            if (!there) return bad(it.getName() + " is not declared");
            if (blobbed(t)) {
                if (p->second.kind != 't' || p->second.members[0].type != "sequence<octet>") return bad("large " + it.getName() + " is no sequence of bytes");
            } else if (t.getCategory() == Type::Enum) {
                std::vector<std::string> e;
                for (auto& v : static_cast<Enum const&>(t).values()) e.push_back(v.first[0] == '_' ? v.first.substr(1) : v.first);
                if (p->second.kind != 'e' || p->second.symbols != e) return bad("the enumeration " + it.getName() + " has other symbols");
            } else {
                auto& fs = static_cast<Compound const&>(t).getFields();
                if (p->second.kind != 's' || p->second.members.size() != fs.size()) return bad("the structure " + it.getName() + strf(" has %zu fields", p->second.members.size()));
                size_t k = 0;
                for (auto& f : fs) {
                    auto& m = p->second.members[k++];
                    if (m.name != (f.getName()[0] == '_' ? f.getName().substr(1) : f.getName())) return bad("field " + m.name + " of " + it.getName() + " instead of " + f.getName());
                    if (!match(d, m.type, m.dim, f.getType())) return bad("field " + m.name + " of " + it.getName());
                }
            }
        }
        return true;
    }
};

void c33(Ctx& cx)
{
    Universe u; Reg1 reg; u.tmpl = cx.draw(2);
    gen_registry(cx, u, *reg, true, true, false);
    IdlModel m;
    Conf c; c.kind = "idl";
    m.any = !cx.chance(1, 4);
    if (m.any) c.opts.push_back({"opaque_as_any", "1"});
    if (cx.chance(1, 4)) { static char const* p[] = {"Pre", "/Pre/", "/P/Q"}; m.prefix = p[cx.draw(3)]; c.opts.push_back({"namespace_prefix", m.prefix}); }
    if (cx.chance(1, 4)) { static char const* p[] = {"Suf", "Suf/", "S/R"}; m.suffix = p[cx.draw(3)]; c.opts.push_back({"namespace_suffix", m.suffix}); }
    if (cx.chance(1, 5)) { m.blob = cx.draw(40); c.opts.push_back({"blob_threshold", strf("%ld", m.blob)}); }
    if (cx.chance(1, 6)) {
        int n = 1 + cx.draw(4);
        for (int i = 0; i < n; ++i) { std::string t = u.any_name(cx); m.selected.insert(t); c.opts.push_back({"selected", t}); }
        count("documents with selected types");
    }
    // an alias with a name that the exporter gives to a sequence
    std::string reserved;
    if (m.selected.empty() && cx.chance(1, 4)) {
        std::vector<Type const*> seqs;
        for (RegistryIterator it = reg->begin(); it != reg->end(); ++it)
            if (!it.isAlias() && it.isPersistent() && it->getCategory() == Type::Container && it->getName() != "/std/string") seqs.push_back(&*it);
        Type const* target = reg->get(u.any_name(cx));
        if (!seqs.empty() && target) {
            Type const& q = *seqs[cx.draw(seqs.size())];
            std::string name, ns = static_cast<Indirect const&>(q).getIndirection().getNamespace();
            std::string doc;
            Out o = call([&] { utilmm::config_set cfg; c.fill(cfg); std::string d = PluginManager::save("idl", cfg, *reg); NoScope no; doc = d.c_str(); });
            IdlReader r;
            if (o.ok && r.read(doc)) for (auto& d : r.declared) {
                std::string base = d.first.substr(d.first.rfind(':') + 1);
                if (d.second.kind == 't' && base.find("vector_") == 0 && d.second.members[0].dim.empty() && m.match(r, d.first, "", q)) name = (cx.draw(4) && d.first.rfind("::") != 0 ? ns : "/") + base;
            }
            if (!name.empty()) {
                o = call([&] { reg->alias(target->getName(), name, true, ""); });
                if (o.ok) { if (target != &q) reserved = name; count("aliases with a generated name"); logf("alias %s of %s, which the exporter uses for %s", name.c_str(), target->getName().c_str(), q.getName().c_str()); }
            }
        }
        m.why.clear();
    }
    if (cx.chance(1, 8)) {
        // the typedefs of C structures and enumerations
        Type const* t = reg->get(u.any_name(cx));
        if (t && (t->getCategory() == Type::Compound || t->getCategory() == Type::Enum) && t->getBasename().find_first_of("<>") == std::string::npos)
            call([&] { reg->alias(t->getName(), t->getNamespace() + (cx.draw(2) ? "struct " : "enum ") + t->getBasename(), true, ""); });
    }
    std::string odd = m.refused(*reg);
    bool huge = false;   // compared as signed integers
    for (RegistryIterator it = reg->begin(); it != reg->end(); ++it) huge |= m.blob && it->getSize() > INT_MAX;
    Saver sv(cx, c);
    int rounds = 1 + cx.draw(3);
    for (int k = 0; k < rounds; ++k) {
        SpanGuard g(cx);
        bool faults = k + 1 < rounds, keep = cx.draw(2);
        Saved s = cx.draw(3) ? sv.to_stream(*reg, 300, faults, keep) : sv.to_file(*reg, 300, faults, keep);
        logf("save %d %s, %s: %s, %zu bytes, fault %d", k, c.text().c_str(), s.how.c_str(), s.reported_ok ? "success" : s.o.ok ? "stream error" : s.o.type.c_str(), s.doc.size(), s.fired);
        if (!s.reported_ok) {
            if (s.o.type == "Typelib::UnsupportedType" || s.o.type == "Typelib::ExportError") {
                if (odd.empty() && !huge && (reserved.empty() || s.o.what.find("reserved") == std::string::npos)) violate("refused", "%s: a registry that IDL can express is refused: %s", c.text().c_str(), s.o.what.c_str());
                count("refused-registry");
                return;
            }
            if (s.o.type == "Typelib::NullTypeFound") {
                bool null = false;
                for (RegistryIterator it = reg->begin(); it != reg->end(); ++it) null |= it->getCategory() == Type::NullType;
                if (!null) violate("refused", "%s: %s", c.text().c_str(), s.o.what.c_str());
                return;
            }
            if (!faults && !s.fired) violate("unexpected-error", "%s: %s %s", c.text().c_str(), s.o.type.c_str(), s.o.what.c_str());
            continue;
        }
        if (!odd.empty() && !huge) violate("not-refused", "%s: %s cannot be expressed, but the export succeeds with\n%s", c.text().c_str(), odd.c_str(), s.doc.substr(0, 1500).c_str());
        IdlReader r; r.partial = !m.selected.empty();
        if (!r.read(s.doc)) violate("undeclared", "%s: %s in\n%s", c.text().c_str(), r.why.c_str(), s.doc.substr(0, 1500).c_str());
        if (!huge && !m.check(r, *reg)) violate("not-declared", "%s: %s in\n%s", c.text().c_str(), m.why.c_str(), s.doc.substr(0, 1500).c_str());
        count("documents"); count("names.used", r.uses); count("names.declared", r.declared.size());
        if (r.uses) nontrivial();
        state(hash_bytes(s.doc.data(), s.doc.size()));
    }
}
sim::Reg r33("C33", c33);
}
