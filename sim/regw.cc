#include "regw.hh"
#include <algorithm>
#include <cstring>
#include <climits>
using namespace Typelib;

namespace sim {
std::string mod_name(std::string const& b, int mod, size_t dim)
{
    switch (mod) {
    case M_ARR: return b + strf("[%zu]", dim);
    case M_ARR2: return b + strf("[%zu][2]", dim);
    case M_PTR: return b + "*";
    case M_VEC: return "/std/vector<" + b + ">";
    case M_STR: return "/std/string";
    }
    return b;
}

void Universe::gen(Ctx& cx, int n)
{
    bool big = cx.chance(1, 6);   // types beyond 64 kB and 4 GB: nothing allocates them
    static char const* spaces[] = { "/", "/A/", "/A/B/", "/N/" };
    static char const* bases[] = { "T", "U", "V", "W", "X", "Y" };
    for (int i = 0; i < n; ++i) {
        UType t;
        for (;;) {
            t.name = std::string(spaces[cx.draw(4)]) + bases[cx.draw(6)];
            if (odd && cx.chance(1, 4)) {
                static char const* on[] = { "unsigned int", "P</int,3>", "_x", "struct T", "Q</A/T,/N/U>", "enum V", "R</P</a>>", "bool", "_p<_q,-1>" };
                t.name = std::string(spaces[cx.draw(4)]) + on[cx.draw(8)];
            }
            if (tmpl && cx.chance(1, 4)) {
                static char const* tn[] = { "P</int,3>", "_x", "Q</A/T,/N/U>", "R</P</a>>", "bool" };
                int k = cx.draw(5);
                t.name = k == 4 ? std::string("/bool") : std::string(spaces[cx.draw(4)]) + tn[k];
            }
            bool dup = false;
            for (auto& x : types) dup |= x.name == t.name;
            if (!dup) break;
            // also names nothing else uses
            t.name = std::string(spaces[cx.draw(4)]) + strf("Z%d", i);
            break;
        }
        UDef& d = t.def[0];
        int k = i == 0 ? cx.draw(3) : cx.draw(8);
        switch (k) {
        case 0: case 3: d.kind = U_NUM; { static size_t sz[] = {4, 1, 2, 8}; d.size = sz[cx.draw(4)]; static int ct[] = {Numeric::SInt, Numeric::UInt, Numeric::Float}; d.cat = ct[cx.draw(3)]; } break;
        case 1: d.kind = U_ENUM; { int m = 1 + cx.draw(3); for (int j = 0; j < m; ++j) d.syms.push_back({strf("S%d", j) + (odd && cx.chance(1, 5) ? weird_text(cx, 4) : ""), (int)cx.draw(5) - 1}); if (odd && cx.chance(1, 4)) d.syms[0].second = cx.draw(2) ? INT_MIN : INT_MAX; } break;
        case 2: d.kind = nulls && cx.chance(1, 4) ? U_NULL : U_OPQ; d.size = 1 + cx.draw(16); if (big && cx.draw(2)) { static size_t bs[] = {65536, 255, 70000, 65535, 0x80000000ul, 0x100000001ul}; d.size = bs[cx.draw(6)] + cx.draw(3); } break;
        default: {
            d.kind = U_COMP;
            int m = cx.draw(4);
            for (int j = 0; j < m; ++j) {
                UField f; f.name = strf("f%d", j); f.of = cx.draw(i);
                static int mods[] = {M_NONE, M_NONE, M_NONE, M_ARR, M_PTR, M_VEC, M_STR, M_ARR2};
                f.mod = mods[cx.draw(8)];
                if (f.mod == M_PTR && !ptrs) f.mod = M_NONE;
                if (f.mod == M_ARR2 && !multi) f.mod = M_ARR;
                if (odd && cx.chance(1, 5)) f.name += weird_text(cx, 4);
                if ((f.mod == M_VEC || f.mod == M_STR) && !conts) f.mod = M_ARR;
                f.dim = 1 + cx.draw(3); f.gap = cx.draw(3) == 2 ? cx.draw(4) : 0; if (big && cx.chance(1, 4)) { static size_t bd[] = {65536, 256, 100000, 0x80000000ul}; (cx.draw(2) ? f.dim : f.gap) = bd[cx.draw(4)]; }
                d.fields.push_back(f);
            }
            d.pad = cx.draw(4) == 3 ? cx.draw(5) : 0;
            d.rec = ptrs && recs && cx.chance(1, 6);
            break;
        }
        }
        // the other definition of the same name: one change
        UDef o = d;
        switch (o.kind) {
        case U_NUM: if (cx.draw(2)) o.size = o.size == 4 ? 8 : 4; else o.cat = o.cat == Numeric::SInt ? Numeric::UInt : Numeric::SInt; break;
        case U_ENUM: switch (cx.draw(3)) { case 0: o.syms[0].second += 7; break; case 1: o.syms.push_back({"S9", 3}); break; default: o.syms[0].first = "R0"; } break;
        case U_OPQ: if (cx.draw(3)) o.size += 1 + cx.draw(3); else o.kind = U_NUM, o.cat = Numeric::UInt; break;
        case U_NULL: o.kind = U_OPQ; o.size = 3; break;
        case U_COMP:
            switch (o.fields.empty() ? 0 : cx.draw(7)) {
            case 0: o.pad += 1 + cx.draw(8); break;
            case 1: o.fields[cx.draw(o.fields.size())].name = "g0"; break;
            case 2: o.fields[cx.draw(o.fields.size())].gap += 1 + cx.draw(3); break;
            case 3: o.fields.pop_back(); break;
            case 4: { auto& f = o.fields[cx.draw(o.fields.size())]; f.of = f.of ? f.of - 1 : (i > 1 ? i - 1 : 0); break; }
            case 5: { auto& f = o.fields[cx.draw(o.fields.size())]; f.dim += 1; if (f.mod != M_ARR) f.mod = M_ARR; break; }
            default: o.fields.push_back(UField{"extra", (int)cx.draw(i), M_NONE, 1, 0}); break;
            }
            break;
        }
        t.def[1] = o;
        types.push_back(t);
    }
    static char const* al[] = { "/L", "/A/L", "/A/B/L", "/A/T", "/T", "/N/L", "/M", "/A/M", "/Q</T>", "/A/R</A/L,3>" };
    int m = 2 + cx.draw(4);
    for (int i = 0; i < m; ++i) alias_names.push_back(al[cx.draw(10)]);
}
std::string Universe::any_name(Ctx& cx) const
{
    size_t k = cx.draw(types.size() + alias_names.size());
    return k < types.size() ? types[k].name : alias_names[k - types.size()];
}

// ---- observation -------------------------------------------------------------------------------------
static std::string esc(std::string const& s)
{
    std::string r;
    for (unsigned char c : s) if (c < 33 || c > 126 || c == '%' || c == '|') r += strf("%%%02x", c); else r += c;
    return r;
}
std::string def_of(Type const& t)
{
    std::string s;
    switch (t.getCategory()) {
    case Type::NullType: s = "null"; break;
    case Type::Opaque: s = "opaque"; break;
    case Type::Numeric: s = strf("numeric %d", (int)static_cast<Numeric const&>(t).getNumericCategory()); break;
    case Type::Enum: s = "enum"; for (auto& v : static_cast<Enum const&>(t).values()) s += " " + esc(v.first) + strf("=%d", v.second); break;
    case Type::Compound:
        s = "compound";
        for (auto& f : static_cast<Compound const&>(t).getFields()) s += " " + esc(f.getName()) + strf("@%zu:", f.getOffset()) + f.getType().getName();
        break;
    case Type::Array: s = strf("array %zu ", static_cast<Array const&>(t).getDimension()) + static_cast<Indirect const&>(t).getIndirection().getName(); break;
    case Type::Pointer: s = "pointer " + static_cast<Indirect const&>(t).getIndirection().getName(); break;
    case Type::Container: s = "container " + static_cast<Container const&>(t).kind() + " " + static_cast<Indirect const&>(t).getIndirection().getName(); break;
    default: s = "?";
    }
    return s + strf(" size %zu", t.getSize());
}
static std::string meta1(MetaData const& m)
{
    std::string s;
    for (auto& kv : m.get()) { s += "|" + esc(kv.first) + ":"; for (auto& v : kv.second) s += esc(v) + ","; }
    return s;
}
std::string meta_of(Type const& t)
{
    std::string s = meta1(t.getMetaData());
    if (t.getCategory() == Type::Compound)
        for (auto& f : static_cast<Compound const&>(t).getFields()) { std::string m = meta1(f.getMetaData()); if (!m.empty()) s += "|@" + esc(f.getName()) + m; }
    return s;
}
Snap snap(Registry const& r)
{
    NoScope ns;
    Snap s;
    for (RegistryIterator it = r.begin(); it != r.end(); ++it) {
        s.names[it.getName()] = RName{&*it, it.isAlias(), it.isPersistent(), it.getSource()};
        if (!s.defs.count(&*it)) { s.defs[&*it] = def_of(*it); s.meta[&*it] = meta_of(*it); }
    }
    return s;
}
std::string snap_diff(Snap const& a, Snap const& b, bool meta)
{
    for (auto& n : a.names) {
        auto it = b.names.find(n.first);
        if (it == b.names.end()) return "name " + n.first + " disappeared";
        if (it->second.t != n.second.t) return "name " + n.first + " now designates another object";
        if (it->second.persistent != n.second.persistent) return "persistence of " + n.first + " changed";
        if (it->second.source != n.second.source) return "source of " + n.first + " changed";
        if (a.defs.at(n.second.t) != b.defs.at(it->second.t)) return "definition of " + n.first + " changed from " + a.defs.at(n.second.t) + " to " + b.defs.at(it->second.t);
        if (meta && a.meta.at(n.second.t) != b.meta.at(it->second.t)) return "metadata of " + n.first + " changed from " + a.meta.at(n.second.t) + " to " + b.meta.at(it->second.t);
    }
    for (auto& n : b.names) if (!a.names.count(n.first)) return "name " + n.first + " appeared";
    return "";
}
std::string content_of(Registry const& r, bool meta, bool persistent_only)
{
    NoScope ns;
    std::string s;
    for (RegistryIterator it = r.begin(); it != r.end(); ++it) {
        if (persistent_only && !it.isPersistent()) continue;
        s += it.getName() + " -> ";
        if (it.isAlias()) s += it->getName();
        else { s += def_of(*it); if (meta) s += " src " + esc(it.getSource()) + " meta " + meta_of(*it); }
        s += "\n";
    }
    return s;
}

bool ref_name_less(std::string const& a, std::string const& b)
{
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; ++i) {
        if (a[i] == b[i]) continue;
        if (a[i] == '/') return true;
        if (b[i] == '/') return false;
        return a[i] < b[i];
    }
    return a.size() < b.size();
}

static void rel_names(std::string const& n, std::set<std::string>& out)
{
    for (size_t i = 0; i < n.size(); ++i) if (n[i] == '/' && i + 1 < n.size()) out.insert(n.substr(i + 1));
}

void scan(Registry const& r, std::set<std::string> const& used, char const* after)
{
    NoScope ns;
    std::set<Type const*> known;
    std::vector<std::string> order;
    for (RegistryIterator it = r.begin(); it != r.end(); ++it) { known.insert(&*it); order.push_back(it.getName()); }
    for (size_t i = 1; i < order.size(); ++i)
        if (order[i] == order[i - 1]) violate("registry-inconsistent:duplicate-name", "after %s: name %s appears twice", after, order[i].c_str());
    if (r.size() != order.size()) violate("registry-inconsistent:size", "after %s: size() is %zu but %zu names are iterated", after, r.size(), order.size());
    for (RegistryIterator it = r.begin(); it != r.end(); ++it) {
        Type const& t = *it;
        std::string name = it.getName(), own = t.getName();
        Type const* g = r.get(name);
        if (g != &t) violate("registry-inconsistent:lookup", "after %s: %s is iterated but get() gives %s", after, name.c_str(), g ? "another object" : "nothing");
        if (!r.has(name, false)) violate("registry-inconsistent:lookup", "after %s: has(%s) is false", after, name.c_str());
        Type const* o = r.get(own);
        if (o != &t) violate("registry-inconsistent:own-name", "after %s: the type designated by %s is named %s, which designates %s", after, name.c_str(), own.c_str(), o ? "another object" : "nothing");
        if (it.isAlias() != (name != own)) violate("registry-inconsistent:alias", "after %s: isAlias() of %s", after, name.c_str());
        std::set<Type const*> deps = t.dependsOn();
        for (auto d : deps)
            if (!known.count(d)) violate("registry-inconsistent:dependency", "after %s: %s uses a type that is not registered", after, name.c_str());
        for (auto d : deps)
            if (r.get(d->getName()) != d) violate("registry-inconsistent:dependency", "after %s: %s uses a type %s which is not the registered one", after, name.c_str(), d->getName().c_str());
    }
    std::set<std::string> rel;
    for (auto& u : used) { rel.insert(u); rel_names(u, rel); }
    for (auto& n : order) rel_names(n, rel);
    for (auto& n : rel) {
        Type const* g = r.get(n);
        if (g && !known.count(g)) violate("registry-inconsistent:dangling-name", "after %s: name %s resolves to an object that is not registered", after, n.c_str());
    }
}

static bool cmp(Type const& a, Type const& b, std::set<std::pair<Type const*, Type const*>>& seen, std::string& why)
{
    if (!seen.insert({&a, &b}).second) return true;
    auto diff = [&](std::string const& w) { why = a.getName() + " vs " + b.getName() + ": " + w; return false; };
    if (a.getCategory() != b.getCategory()) return diff("category");
    if (a.getSize() != b.getSize()) return diff(strf("size %zu/%zu", a.getSize(), b.getSize()));
    switch (a.getCategory()) {
    case Type::NullType: case Type::Opaque: if (a.getName() != b.getName()) return diff("opaque name"); return true;
    case Type::Numeric: if (static_cast<Numeric const&>(a).getNumericCategory() != static_cast<Numeric const&>(b).getNumericCategory()) return diff("numeric category"); return true;
    case Type::Enum: if (static_cast<Enum const&>(a).values() != static_cast<Enum const&>(b).values()) return diff("symbols"); return true;
    case Type::Compound: {
        auto const& fa = static_cast<Compound const&>(a).getFields(); auto const& fb = static_cast<Compound const&>(b).getFields();
        if (fa.size() != fb.size()) return diff("field count");
        auto ib = fb.begin();
        for (auto ia = fa.begin(); ia != fa.end(); ++ia, ++ib) {
            if (ia->getName() != ib->getName()) return diff("field name " + ia->getName());
            if (ia->getOffset() != ib->getOffset()) return diff("offset of " + ia->getName());
            if (!cmp(ia->getType(), ib->getType(), seen, why)) return false;
        }
        return true;
    }
    case Type::Array:
        if (static_cast<Array const&>(a).getDimension() != static_cast<Array const&>(b).getDimension()) return diff("dimension");
        break;
    case Type::Container:
        if (static_cast<Container const&>(a).kind() != static_cast<Container const&>(b).kind()) return diff("kind");
        break;
    default: break;
    }
    return cmp(static_cast<Indirect const&>(a).getIndirection(), static_cast<Indirect const&>(b).getIndirection(), seen, why);
}
bool same_struct(Type const& a, Type const& b, std::string* why)
{
    NoScope ns;
    std::set<std::pair<Type const*, Type const*>> seen; std::string w;
    bool r = cmp(a, b, seen, w);
    if (why) *why = w;
    return r;
}

std::string strip_mods(std::string const& name, std::string* mods)
{
    size_t e = name.size();
    while (e > 0) {
        if (name[e - 1] == '*') --e;
        else if (name[e - 1] == ']') { size_t p = name.rfind('[', e - 1); if (p == std::string::npos) break; e = p; }
        else break;
    }
    if (mods) *mods = name.substr(e);
    return name.substr(0, e);
}

std::string resolve(std::map<std::string, RName> const& names, std::string const& ns, std::string const& name)
{
    if (!name.empty() && name[0] == '/') return names.count(name) ? name : "";
    std::string space = ns;           // normalised: ends with /
    for (;;) {
        if (names.count(space + name)) return space + name;
        if (space.size() <= 1) return "";
        size_t p = space.rfind('/', space.size() - 2);
        space = space.substr(0, p + 1);
    }
}

std::set<std::string> alias_closure(Snap const& s, std::set<std::string> names)
{
    // two names of the same type are interchangeable inside derived names
    std::map<Type const*, std::vector<std::string>> by;
    for (auto& n : s.names) by[n.second.t].push_back(n.first);
    std::vector<std::string> todo(names.begin(), names.end());
    auto push = [&](std::string const& n) { if (names.size() < 4000 && n.size() < 300 && names.insert(n).second) todo.push_back(n); };
    while (!todo.empty()) {
        std::string n = todo.back(); todo.pop_back();
        auto self = s.names.find(n);
        if (self != s.names.end()) for (auto& o : by[self->second.t]) {
            // only the name of the type itself, other aliases are not implied
            if (o == self->second.t->getName()) push(o);
        }
        std::string pre, in, post;
        if (!n.empty() && n.back() == ']') { size_t p = n.rfind('['); in = n.substr(0, p); post = n.substr(p); }
        else if (!n.empty() && n.back() == '*') { in = n.substr(0, n.size() - 1); post = "*"; }
        else if (n.compare(0, 12, "/std/vector<") == 0 && n.back() == '>') { pre = "/std/vector<"; in = n.substr(12, n.size() - 13); post = ">"; }
        else continue;
        auto it = s.names.find(in);
        if (it == s.names.end()) continue;
        for (auto& o : by[it->second.t]) push(pre + o + post);
    }
    return names;
}

// ---- operations --------------------------------------------------------------------------------------
Reg1::Reg1() { Out o = call([&] { r = new Registry; }); expect_ok(o, "creating a registry"); }
Reg1::~Reg1() { Scope s; delete r; }

static Type const* need(Registry& r, std::string const& base, int mod, size_t dim)
{
    if (mod == M_STR) {
        Type const* t = r.get("/std/string");
        if (t) return t;
        Type const* c = r.get("/int8_t");
        if (!c) {
            std::unique_ptr<Type> n(new Numeric("/int8_t", 1, Numeric::SInt));
            r.add(n.get()); c = n.release();
        }
        return &Container::createContainer(r, "/std/string", *c);
    }
    Type const* b = r.get(base);
    if (!b) return 0;
    switch (mod) {
    case M_NONE: return b;
    case M_ARR: return r.build(base + strf("[%zu]", dim));
    case M_ARR2: return r.build(base + strf("[%zu][2]", dim));
    case M_PTR: return r.build(base + "*");
    case M_VEC: return &Container::createContainer(r, "/std/vector", *b);
    }
    return 0;
}
// pointers exist only to types whose name has neither brackets nor template arguments
static int fit_mod(std::string const& canonical, int mod)
{
    if (mod == M_PTR && canonical.find_first_of("[>") != std::string::npos) return M_NONE;
    return mod;
}
Out derive(Registry& r, std::string const& base, int mod, size_t dim, long ak, int burst)
{
    return call([&] { if (!need(r, base, mod, dim)) throw Undefined(base); }, ak, burst);
}

Out define_one(Universe const& u, Registry& r, int i, int v, bool pd, std::string const& src, long ak, int burst, std::string const& as)
{
    UType const& ut = u.types[i]; UDef const& d = ut.def[v];
    std::string name = as.empty() ? ut.name : as;
    return call([&] {
        std::unique_ptr<Type> t;
        switch (d.kind) {
        case U_NUM: t.reset(new Numeric(name, d.size, (Numeric::NumericCategory)d.cat)); break;
        case U_OPQ: t.reset(new OpaqueType(name, d.size)); break;
        case U_NULL: t.reset(new NullType(name)); break;
        case U_ENUM: { std::unique_ptr<Enum> e(new Enum(name)); for (auto& s : d.syms) e->add(s.first, s.second); t = std::move(e); break; }
        case U_COMP: {
            std::unique_ptr<Compound> c(new Compound(name));
            size_t off = 0;
            for (auto& f : d.fields) {
                std::string base = u.types[f.of].name;
                Type const* b = r.get(base);
                if (!b && f.mod != M_STR) throw Undefined(base);
                Type const* ft = need(r, base, b ? fit_mod(b->getName(), f.mod) : f.mod, f.dim);
                if (!ft) throw Undefined(base);
                off += f.gap;
                c->addField(f.name, *ft, off);
                off += ft->getSize();
            }
            c->setSize(off + d.pad);
            t = std::move(c);
            break;
        }
        }
        if (pd && src.empty()) r.add(t.get());
        else if (pd) r.add(t.get(), src);
        else r.add(t.get(), false, src);
        Type* added = t.release();
        if (d.kind == U_COMP && d.rec && name.find('>') == std::string::npos) {
            Type const* p = r.build(name + "*");
            static_cast<Compound*>(added)->addField("next", *p, added->getSize());
        }
    }, ak, burst);
}
void define_deep(Universe const& u, Registry& r, Ctx& cx, int i, int v, unsigned other_den, int depth)
{
    if (depth > 12) return;
    UDef const& d = u.types[i].def[v];
    if (r.get(u.types[i].name)) return;
    if (d.kind == U_COMP)
        for (auto& f : d.fields)
            if (f.mod != M_STR && !r.get(u.types[f.of].name)) define_deep(u, r, cx, f.of, other_den && cx.chance(1, other_den) ? 1 : 0, other_den, depth + 1);
    if (r.get(u.types[i].name)) return;
    // a compound whose fields came to refer to itself (through an alias) cannot be built
    Out o = define_one(u, r, i, v);
    expect_ok(o, ("defining " + u.types[i].name).c_str());
}
void populate(Universe const& u, Registry& r, Ctx& cx, int steps, unsigned other_den, bool aliases, bool metadata)
{
    for (int k = 0; k < steps; ++k) {
        SpanGuard g(cx);
        int what = cx.draw(aliases ? 8 : 6);
        if (what < 4) {
            int i = cx.draw(u.types.size());
            define_deep(u, r, cx, i, other_den && cx.chance(1, other_den) ? 1 : 0, other_den);
        } else if (what < 6) {
            std::string n = u.any_name(cx);
            static int mods[] = {M_ARR, M_VEC, M_PTR, M_ARR2, M_STR};
            int mod = mods[cx.draw(5)]; size_t dim = 1 + cx.draw(3);
            if ((mod == M_VEC || mod == M_STR) && !u.conts) mod = M_ARR;
            if (mod == M_PTR && !u.ptrs) mod = M_ARR;
            if (mod == M_ARR2 && !u.multi) mod = M_ARR;
            Type const* t = r.get(n);
            if (!t) continue;
            mod = fit_mod(t->getName(), mod);
            Out o = derive(r, n, mod, dim);
            expect_ok(o, ("deriving from " + n).c_str());
        } else {
            std::string b = u.any_name(cx), a = u.any_name(cx);
            if (cx.chance(1, 3)) {   // a name derived from the base: an array, a container
                std::vector<std::string> names;
                for (RegistryIterator it = r.begin(); it != r.end(); ++it) names.push_back(it.getName());
                if (!names.empty()) b = names[cx.draw(names.size())];
            }
            if (!r.get(b) || r.get(a)) continue;
            Out o = call([&] { r.alias(b, a); });
            expect_ok(o, ("aliasing " + b + " as " + a).c_str());
        }
    }
    if (metadata) gen_metadata(cx, r, true);
}

std::string weird_text(Ctx& cx, int maxlen, bool xml_ok)
{
    static char const* bits[] = { "a", "B", "7", " ", "<", ">", "&", "\"", "'", "\n", "\t", "]]>", "&amp;", "&lt;", "<!--", "\xc3\xa9", "]]", "-", "\r", "<![CDATA[", "%s", "/" };
    std::string s;
    int n = cx.draw(maxlen + 1);
    bool plain = cx.draw(2) == 0;
    for (int i = 0; i < n; ++i) s += bits[plain ? cx.draw(3) : cx.draw(22)];
    return s;
}
void gen_metadata(Ctx& cx, Registry& r, bool fields)
{
    std::vector<std::string> names;
    for (RegistryIterator it = r.begin(); it != r.end(); ++it) names.push_back(it.getName());
    if (names.empty()) return;
    int n = cx.draw(4);
    for (int i = 0; i < n; ++i) {
        Type const* t = r.get(names[cx.draw(names.size())]);
        std::string key = cx.draw(3) ? strf("k%d", (int)cx.draw(3)) : "k" + weird_text(cx, 3);
        std::string val = weird_text(cx, 4);
        int how = cx.draw(4);
        Out o = call([&] {
            MetaData* m = &t->getMetaData();
            if (how == 1 && t->getCategory() == Type::Compound && !static_cast<Compound const*>(t)->getFields().empty() && fields)
                m = &static_cast<Compound const*>(t)->getFields().front().getMetaData();
            if (how == 2) m->add(key, MetaData::Values());
            else m->add(key, val);
        });
        expect_ok(o, "setting metadata");
    }
}

// one type of the source, once everything it needs exists in the destination; false if not yet
static bool recreate(Registry const& src, Registry& dst, RegistryIterator const& it, bool force_define)
{
    Type const& t = *it;
    std::string name = it.getName();
    if (it.isAlias()) {
        if (!dst.get(t.getName())) return false;
        Type const* have = dst.get(name);
        if (have) return true;
        if (!it.isPersistent() && !force_define) return false;       // derived by the destination itself
        Out o = call([&] { dst.alias(t.getName(), name, it.isPersistent(), it.getSource()); });
        expect_ok(o, ("recreating the alias " + name).c_str());
        return true;
    }
    for (auto d : t.dependsOn()) if (!dst.get(d->getName())) return false;
    Out o = call([&] {
        Type* n = 0;
        switch (t.getCategory()) {
        case Type::Array: case Type::Pointer: dst.build(name); break;
        case Type::Container: Container::createContainer(dst, static_cast<Container const&>(t).kind(), *dst.get(static_cast<Indirect const&>(t).getIndirection().getName())); break;
        case Type::NullType: n = new NullType(name); break;
        case Type::Opaque: n = new OpaqueType(name, t.getSize()); break;
        case Type::Numeric: n = new Numeric(name, t.getSize(), static_cast<Numeric const&>(t).getNumericCategory()); break;
        case Type::Enum: { std::unique_ptr<Enum> e(new Enum(name)); for (auto& v : static_cast<Enum const&>(t).values()) e->add(v.first, v.second); n = e.release(); break; }
        case Type::Compound: {
            std::unique_ptr<Compound> c(new Compound(name));
            for (auto& f : static_cast<Compound const&>(t).getFields()) {
                Field const& nf = c->addField(f.getName(), *dst.get(f.getType().getName()), f.getOffset());
                nf.getMetaData().merge(f.getMetaData());
            }
            c->setSize(t.getSize()); n = c.release(); break;
        }
        default: break;
        }
        if (n) dst.add(n, it.isPersistent(), it.getSource());
        Type* g = dst.get_(name);
        if (g) {
            g->setSize(t.getSize());
            if (!it.getSource().empty() && !n) dst.setSourceID(*g, it.getSource());
            std::vector<std::string> keys;
            for (auto& kv : t.getMetaData().get()) keys.push_back(kv.first);
            for (auto& k : keys) { g->getMetaData().clear(k); g->getMetaData().add(k, MetaData::Values()); for (auto& v : t.getMetaData().get(k)) g->getMetaData().add(k, v); }
        }
    });
    expect_ok(o, ("recreating " + name).c_str());
    return true;
}
void rebuild(Registry const& src, Registry& dst, Ctx& cx)
{
    std::vector<std::string> todo;
    for (RegistryIterator it = src.begin(); it != src.end(); ++it) todo.push_back(it.getName());
    for (bool force = false; !todo.empty(); ) {
        bool progress = false;
        for (size_t tries = todo.size(); tries > 0 && !todo.empty(); ) {
            size_t i = cx.draw(tries);
            std::swap(todo[i], todo[tries - 1]);      // tried ones go to the end
            if (recreate(src, dst, src.find(todo[tries - 1]), force)) { todo.erase(todo.begin() + (tries - 1)); progress = true; }
            --tries;
        }
        if (!progress) { if (force) break; force = true; }
    }
    if (!todo.empty()) violate("harness", "could not recreate %s", todo[0].c_str());
}
}
