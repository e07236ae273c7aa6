// C08, C09, C10: registries - consistency, merging, names.
#include "regw.hh"
#include <sstream>
#include <algorithm>
using namespace Typelib;
using namespace sim;

namespace {
long pick_k(Ctx& cx, unsigned num, unsigned den) { if (!cx.chance(num, den)) return 0; return 1 + (long)cx.small(60); }

std::string export_tlb(Registry const& r, Out* out = 0)
{
    std::string* s = 0;
    Out o = call([&] { s = new std::string(PluginManager::save("tlb", r)); });
    std::string res = s ? *s : "";
    { Scope sc; delete s; }
    if (out) *out = o;
    return res;
}

// everything that is in a is unchanged in b (b may have more names)
std::string kept(Snap const& a, Snap const& b)
{
    for (auto& n : a.names) {
        auto it = b.names.find(n.first);
        if (it == b.names.end()) return "name " + n.first + " disappeared";
        if (it->second.t != n.second.t) return "name " + n.first + " now designates another object";
        if (a.defs.at(n.second.t) != b.defs.at(it->second.t)) return "definition of " + n.first + " changed from '" + a.defs.at(n.second.t) + "' to '" + b.defs.at(it->second.t) + "'";
    }
    return "";
}

std::set<Type const*> dependents(Snap const& s, Type const* t)
{
    std::set<Type const*> r; r.insert(t);
    for (bool more = true; more; ) {
        more = false;
        for (auto& d : s.defs) {
            if (r.count(d.first)) continue;
            for (auto x : d.first->dependsOn()) if (r.count(x)) { r.insert(d.first); more = true; break; }
        }
    }
    return r;
}
std::set<Type const*> closure_of(Type const* t)
{
    std::set<Type const*> r; std::vector<Type const*> todo(1, t); r.insert(t);
    while (!todo.empty()) { Type const* x = todo.back(); todo.pop_back(); for (auto d : x->dependsOn()) if (r.insert(d).second) todo.push_back(d); }
    return r;
}

std::string pick_name(Ctx& cx, Snap const& s, Universe const& u)
{
    if (s.names.empty() || cx.chance(1, 5)) return u.any_name(cx);
    size_t k = cx.draw(s.names.size());
    auto it = s.names.begin(); std::advance(it, k);
    return it->first;
}
char const* bad_names[] = { "", "T", "A/T", "/", "/A//T", "/T$", "/T-1", "/T[", "/T[x]", "/A/" };

// ------------------------------------------------------------------------------------------------ C08
void c08(Ctx& cx)
{
    Universe u; u.nulls = true; u.gen(cx, 3 + cx.draw(6));
    for (auto& t : u.types) logf("universe %s", t.name.c_str());
    std::set<std::string> used;
    for (auto& t : u.types) used.insert(t.name);
    for (auto& a : u.alias_names) used.insert(a);
    Reg1 reg;
    if (cx.draw(3) == 0) populate(u, *reg, cx, cx.draw(8), 6, true);
    Snap s0 = snap(*reg);
    for (auto& n : s0.names) used.insert(n.first);
    scan(*reg, used, "setting it up");
    int steps = 2 + cx.draw(cx.thorough ? 25 : 14);
    bool faulty = cx.draw(2);
    for (int k = 0; k < steps; ++k) {
        SpanGuard g(cx);
        int what = cx.draw(20);
        long ak = faulty ? pick_k(cx, 1, 2) : 0; int burst = 1;
        std::string desc; Out o;
        enum { Grow, Shrink, Same } effect = Grow;
        Snap expect; bool exact = false;
        if (what < 5) {
            int i = cx.draw(u.types.size()), v = cx.draw(4) == 3;
            bool deep = cx.draw(2);
            std::string as = cx.draw(8) == 7 ? bad_names[cx.draw(10)] : cx.draw(8) == 7 ? u.any_name(cx) : "";
            desc = strf("define %s variant %d as '%s'%s", u.types[i].name.c_str(), v, as.c_str(), deep ? " with its dependencies" : "");
            if (deep && u.types[i].def[v].kind == U_COMP)
                for (auto& f : u.types[i].def[v].fields) define_deep(u, *reg, cx, f.of, 0, 6);
            s0 = snap(*reg);
            bool pers = cx.draw(4) != 3;
            o = define_one(u, *reg, i, v, pers, cx.draw(3) == 2 ? "file.tlb" : "", ak, burst, as);
        } else if (what < 9) {
            std::string b = pick_name(cx, s0, u);
            static int mods[] = {M_ARR, M_PTR, M_VEC, M_ARR2, M_STR};
            int mod = mods[cx.draw(5)]; size_t dim = cx.draw(4);
            desc = "derive " + mod_name(b, mod, dim);
            o = derive(*reg, b, mod, dim, ak, burst);
        } else if (what < 12) {
            std::string b = cx.draw(8) == 7 ? "/undefined" : pick_name(cx, s0, u), a = cx.draw(8) == 7 ? bad_names[cx.draw(10)] : pick_name(cx, s0, u);
            if (cx.draw(2)) a = u.any_name(cx);
            desc = "alias " + b + " as '" + a + "'";
            used.insert(a);
            o = call([&] { reg->alias(b, a); }, ak, burst);
        } else if (what < 13) {
            std::string a = pick_name(cx, s0, u);
            desc = "remove alias " + a;
            auto it = s0.names.find(a);
            bool can = it != s0.names.end() && it->second.alias;
            expect = s0; if (can) expect.names.erase(a);
            effect = Shrink;
            o = call([&] { reg->removeAlias(a); }, ak, burst);
            if (!o.injected && o.ok != can) violate("wrong-outcome:remove-alias", "%s %s", desc.c_str(), o.ok ? "was accepted" : ("was refused: " + o.what).c_str());
            exact = true;
        } else if (what < 14) {
            desc = "clear the aliases"; effect = Shrink; exact = true;
            expect = s0;
            for (auto& n : s0.names) if (n.second.alias) expect.names.erase(n.first);
            o = call([&] { reg->clearAliases(); }, ak, burst);
            if (!o.injected) expect_ok(o, "clearing the aliases");
        } else if (what < 16) {
            std::string n = pick_name(cx, s0, u);
            auto it = s0.names.find(n);
            if (it == s0.names.end()) continue;
            Type const* t = it->second.t;
            desc = "remove type " + n;
            std::set<Type const*> dead = dependents(s0, t);
            std::set<Type*>* got = 0;
            o = call([&] { got = new std::set<Type*>(reg->remove(*t)); }, ak, burst);
            effect = Shrink; exact = true; expect = s0;
            if (o.ok) {
                for (auto& x : s0.names) if (dead.count(x.second.t)) expect.names.erase(x.first);
                std::set<Type const*> g2(got->begin(), got->end());
                if (g2 != dead) violate("wrong-removal", "%s: %zu types were given back instead of the %zu that depend on it", desc.c_str(), g2.size(), dead.size());
            }
            Snap s1 = snap(*reg);
            if (got) { Scope sc; for (auto x : *got) delete x; delete got; }
        } else if (what < 17) {
            static char const* nss[] = {"/", "/A", "/A/B", "/N", "/nowhere", "bad", ""};
            char const* ns = nss[cx.draw(7)];
            desc = strf("set the default namespace to '%s'", ns); effect = Same;
            o = call([&] { reg->setDefaultNamespace(ns); }, ak, burst);
            if (!o.injected) expect_ok(o, "setting the default namespace");
        } else if (what < 19) {
            Reg1 other;
            populate(u, *other, cx, 1 + cx.draw(8), cx.draw(3) ? 0 : 4, true);
            if (what == 17 || cx.draw(2)) {
                Snap o0 = snap(*other);
                desc = strf("merge a registry of %zu names", o0.names.size());
                o = call([&] { reg->merge(*other); }, ak, burst);
                std::string d = snap_diff(o0, snap(*other));
                if (!d.empty()) violate("source-changed", "%s: in the merged registry, %s", desc.c_str(), d.c_str());
                scan(*other, used, "being merged into another one");
            } else {
                Out eo; std::string doc = export_tlb(*other, &eo);
                if (!eo.ok) continue;
                int dmg = cx.draw(3);
                if (dmg == 1 && !doc.empty()) doc.resize(cx.draw(doc.size()));
                if (dmg == 2 && doc.size() > 60) { size_t p = 30 + cx.draw(doc.size() - 30); doc[p] = "<>\"/TUVWA/0 29"[cx.draw(14)]; }
                desc = strf("import a type library of %zu bytes (%s)", doc.size(), dmg == 0 ? "good" : dmg == 1 ? "truncated" : "damaged");
                if (dmg) { count("fault.damaged-document"); nontrivial(); }
                std::istringstream in(doc);
                o = call([&] { PluginManager::load("tlb", in, *reg); }, ak, burst);
            }
        } else {
            std::string n = pick_name(cx, s0, u); bool wa = cx.draw(2);
            desc = "extract the minimal registry for " + n;
            effect = Same;
            Registry* m = 0;
            if (cx.draw(3)) o = call([&] { m = reg->minimal(n, wa); }, ak, burst);
            else {
                Reg1 autos; populate(u, *autos, cx, cx.draw(6), 5, true);
                o = call([&] { m = reg->minimal(*autos, wa); }, ak, burst);
            }
            if (m) scan(*m, used, "being extracted as a minimal registry");
            Scope sc; delete m;
        }
        if (!o.ok) nontrivial();
        logf("%s: %s%s", desc.c_str(), o.ok ? "done" : (o.type + " " + o.what).c_str(), o.injected ? " (allocation failure)" : "");
        Snap s1 = snap(*reg);
        for (auto& n : s1.names) used.insert(n.first);
        std::string d;
        if (exact) {
            if (!o.ok) expect = s0;
            Snap& e = expect;
            for (auto& n : e.names) { auto it = s1.names.find(n.first); if (it == s1.names.end()) d = "name " + n.first + " disappeared"; else if (it->second.t != n.second.t) d = "name " + n.first + " designates another object"; else if (e.defs[n.second.t] != s1.defs[n.second.t]) d = "the definition of " + n.first + " changed"; }
            for (auto& n : s1.names) if (!e.names.count(n.first)) d = "name " + n.first + " should not be there";
        } else if (effect == Same) d = snap_diff(s0, s1);
        else d = kept(s0, s1);
        if (!d.empty()) violate("registry-changed", "after '%s' (%s): %s", desc.c_str(), o.ok ? "done" : o.type.c_str(), d.c_str());
        scan(*reg, used, desc.c_str());
        s0 = s1;
        std::string c; for (auto& n : s1.names) c += n.first + (n.second.alias ? "~" : "=") + s1.defs[n.second.t] + ";";
        state(hash_bytes(c.data(), c.size()));
    }
    if (cx.chance(1, 8)) { Out o = call([&] { reg->clear(); }, cx.draw(2), 1000000); expect_ok(o, "clearing the registry"); if (reg->size()) violate("registry-changed", "names are left after clear()"); }
}
sim::Reg r08("C08", c08);

// ------------------------------------------------------------------------------------------------ C09
// pairs of types (destination, source) that a merge has to compare
void pair_up(Type const* a, Type const* b, std::set<std::pair<Type const*, Type const*>>& p)
{
    if (!p.insert({a, b}).second) return;
    if (a->getCategory() != b->getCategory()) return;
    if (a->getCategory() == Type::Compound) {
        auto const& fa = static_cast<Compound const*>(a)->getFields(); auto const& fb = static_cast<Compound const*>(b)->getFields();
        auto ia = fa.begin(); auto ib = fb.begin();
        for (; ia != fa.end() && ib != fb.end(); ++ia, ++ib) pair_up(&ia->getType(), &ib->getType(), p);
    } else if (a->getCategory() == Type::Array || a->getCategory() == Type::Pointer || a->getCategory() == Type::Container)
        pair_up(&static_cast<Indirect const*>(a)->getIndirection(), &static_cast<Indirect const*>(b)->getIndirection(), p);
}
// the library cannot tell two types of the source with the same structure from one type of the destination
bool ambiguous(Snap const& d, Snap const& s)
{
    std::set<std::pair<Type const*, Type const*>> p;
    for (auto& n : s.names) { auto it = d.names.find(n.first); if (it != d.names.end()) pair_up(it->second.t, n.second.t, p); }
    Type const* last = 0;
    for (auto& x : p) { if (x.first == last) return true; last = x.first; }
    return false;
}
std::string conflict(Snap const& d, Snap const& s)
{
    for (auto& n : s.names) {
        auto it = d.names.find(n.first); std::string why;
        if (it != d.names.end() && !same_struct(*it->second.t, *n.second.t, &why)) return n.first + " (" + why + ")";
    }
    return "";
}
bool meta_included(Type const& big, Type const& part)
{
    auto inc = [](MetaData const& b, MetaData const& p) {
        for (auto& kv : p.get()) { if (!b.include(kv.first)) return false; auto v = b.get(kv.first); for (auto& x : kv.second) if (!v.count(x)) return false; }
        return true;
    };
    return inc(big.getMetaData(), part.getMetaData());
}

void check_union(Snap const& d0, Snap const& s0, Snap const& d1, char const* what)
{
    std::set<std::string> want;
    for (auto& n : d0.names) want.insert(n.first);
    for (auto& n : s0.names) want.insert(n.first);
    std::set<Type const*> st; for (auto& n : s0.names) st.insert(n.second.t);
    for (auto& n : s0.names) {
        auto it = d1.names.find(n.first); std::string why;
        if (it == d1.names.end()) violate("not-the-union", "%s: %s of the source is missing in the result", what, n.first.c_str());
        if (!same_struct(*it->second.t, *n.second.t, &why)) violate("wrong-definition", "%s: %s differs from the source: %s", what, n.first.c_str(), why.c_str());
        if (!d0.names.count(n.first) && !n.second.alias && !it->second.alias) {
            if (it->second.source != n.second.source) violate("wrong-source-id", "%s: source of %s is '%s' instead of '%s'", what, n.first.c_str(), it->second.source.c_str(), n.second.source.c_str());
            if (!meta_included(*it->second.t, *n.second.t)) violate("wrong-metadata", "%s: metadata of %s", what, n.first.c_str());
        }
    }
    std::string d = kept(d0, d1);
    if (!d.empty()) violate("destination-changed", "%s: in the destination, %s", what, d.c_str());
    for (auto& n : d1.names) if (st.count(n.second.t)) violate("shared-type", "%s: %s of the result is an object of the source", what, n.first.c_str());
    std::set<std::string> allowed = alias_closure(d1, want);
    for (auto& n : d1.names) if (!allowed.count(n.first)) violate("not-the-union", "%s: name %s is in neither registry", what, n.first.c_str());
}

void c09(Ctx& cx)
{
    Universe u; u.nulls = cx.draw(2); u.gen(cx, 3 + cx.draw(7));
    for (auto& t : u.types) logf("universe %s", t.name.c_str());
    int mode = cx.draw(8);
    if (mode < 6) {
        Reg1 dst;
        populate(u, *dst, cx, cx.draw(9), cx.draw(3) == 2 ? 5 : 0, true, cx.draw(2));
        int nsrc = 1 + cx.draw(3);
        for (int m = 0; m < nsrc; ++m) {
            SpanGuard g(cx);
            Reg1 src;
            populate(u, *src, cx, 1 + cx.draw(9), cx.draw(3) == 2 ? 5 : 0, true, cx.draw(2));
            if (cx.draw(4) == 3) {
                Snap s = snap(*src);
                if (!s.names.empty()) { size_t k = cx.draw(s.names.size()); auto it = s.names.begin(); std::advance(it, k); Out o = call([&] { src->setSourceID(*it->second.t, "/some/file"); }); expect_ok(o, "setting a source id"); }
            }
            if (cx.draw(6) == 5) { Out o = call([&] { dst->setDefaultNamespace("/A"); }); expect_ok(o, "setting the default namespace"); }
            Snap d0 = snap(*dst), s0 = snap(*src);
            bool amb = ambiguous(d0, s0);
            std::string con = conflict(d0, s0);
            if (amb) count("ambiguous-merge");
            std::string w = strf("merge %d (%zu names into %zu)", m, s0.names.size(), d0.names.size());
            long ak = pick_k(cx, 1, 3); int burst = 1;
            if (ak) {
                Out o = call([&] { dst->merge(*src); }, ak, burst);
                logf("%s with an allocation failure: %s %s", w.c_str(), o.ok ? "done" : o.type.c_str(), o.what.c_str());
                Snap d1 = snap(*dst);
                std::string d = snap_diff(s0, snap(*src));
                if (!d.empty()) violate("source-changed", "interrupted %s: in the source, %s", w.c_str(), d.c_str());
                d = kept(d0, d1);
                if (!d.empty()) violate("destination-changed", "interrupted %s: in the destination, %s", w.c_str(), d.c_str());
                if (o.ok && !con.empty()) violate("conflict-accepted", "%s succeeded although both define %s", w.c_str(), con.c_str());
                if (!o.ok && !o.injected && con.empty() && !amb) violate("spurious-refusal", "%s without conflict failed: %s %s", w.c_str(), o.type.c_str(), o.what.c_str());
                amb |= ambiguous(d1, s0);
            }
            Out o = call([&] { dst->merge(*src); });
            logf("%s: %s", w.c_str(), o.ok ? "done" : o.what.c_str());
            Snap d1 = snap(*dst);
            state(hash_bytes(content_of(*dst).data(), content_of(*dst).size()));
            std::string d = snap_diff(s0, snap(*src));
            if (!d.empty()) violate("source-changed", "%s: in the source, %s", w.c_str(), d.c_str());
            if (!o.ok) {
                nontrivial(); count("refused-merge");
                d = kept(d0, d1);
                if (!d.empty()) violate("destination-changed", "refused %s: in the destination, %s", w.c_str(), d.c_str());
                if (con.empty() && !amb) violate("spurious-refusal", "%s without conflict was refused: %s %s", w.c_str(), o.type.c_str(), o.what.c_str());
                if (cx.draw(2)) break;
                continue;
            }
            if (!con.empty()) violate("conflict-accepted", "%s succeeded although both define %s", w.c_str(), con.c_str());
            for (auto& n : s0.names) if (d0.names.count(n.first)) { nontrivial(); count("overlapping-merge"); break; }
            check_union(d0, s0, d1, w.c_str());
            if (cx.draw(2)) {
                o = call([&] { dst->merge(*src); });
                if (!o.ok && !ambiguous(d1, s0)) violate("not-idempotent", "merging the same registry again was refused: %s", o.what.c_str());
                d = snap_diff(d1, snap(*dst));
                if (o.ok && !d.empty()) violate("not-idempotent", "merging the same registry again: %s", d.c_str());
            }
            bool same = false, exp = d1.names.size() == s0.names.size();
            o = call([&] { same = dst->isSame(*src); }); expect_ok(o, "isSame");
            for (auto& n : d1.names) exp = exp && s0.names.count(n.first) && same_struct(*n.second.t, *s0.names[n.first].t);
            if (same != exp && !ambiguous(d1, s0)) violate("wrong-comparison", "isSame is %d after %s", same, w.c_str());
        }
    } else if (mode == 6) {
        // merge order: a then b, b then a
        Reg1 a, b, x, y;
        populate(u, *a, cx, 1 + cx.draw(7), 0, true, cx.draw(2));
        populate(u, *b, cx, 1 + cx.draw(7), 0, true, cx.draw(2));
        Snap sa = snap(*a), sb = snap(*b);
        bool amb = ambiguous(sa, sb) || ambiguous(sb, sa);
        std::string con = conflict(sa, sb);
        Out o1 = call([&] { x->merge(*a); x->merge(*b); }), o2 = call([&] { y->merge(*b); y->merge(*a); });
        logf("a+b: %s, b+a: %s", o1.ok ? "done" : o1.what.c_str(), o2.ok ? "done" : o2.what.c_str());
        nontrivial();
        if (!amb) {
            if (o1.ok != con.empty() || o2.ok != con.empty()) violate("order-dependence", "merging in one order %s, in the other %s, conflict: %s", o1.ok ? "succeeds" : o1.what.c_str(), o2.ok ? "succeeds" : o2.what.c_str(), con.c_str());
            if (o1.ok) {
                std::string why;
                Snap sx = snap(*x), sy = snap(*y);
                std::set<std::string> all; for (auto& n : sa.names) all.insert(n.first); for (auto& n : sb.names) all.insert(n.first);
                for (auto& n : all) {
                    if (!sx.names.count(n) || !sy.names.count(n)) violate("order-dependence", "%s is missing after merging in one of the orders", n.c_str());
                    if (!same_struct(*sx.names[n].t, *sy.names[n].t, &why)) violate("order-dependence", "%s depends on the merge order: %s", n.c_str(), why.c_str());
                }
            }
        }
    } else {
        Reg1 r;
        populate(u, *r, cx, 2 + cx.draw(10), 0, true, cx.draw(2));
        Snap s0 = snap(*r);
        bool byname = cx.draw(3) != 0, wa = cx.draw(2);
        std::unique_ptr<Reg1> autos; Snap a0; std::set<Type const*> in;
        std::string n;
        if (byname) {
            n = pick_name(cx, s0, u);
            if (s0.names.count(n)) in = closure_of(s0.names[n].t);
        } else {
            autos.reset(new Reg1); populate(u, **autos, cx, cx.draw(8), 0, true);
            a0 = snap(**autos);
            for (auto& x : s0.names) if (!x.second.alias && !a0.names.count(x.first) && !a0.names.count(strip_mods(x.first)))
                for (auto t : closure_of(x.second.t)) in.insert(t);
        }
        for (int round = 0; round < 2; ++round) {
            long ak = round == 0 ? pick_k(cx, 1, 2) : 0;
            if (round == 0 && !ak) continue;
            Registry* m = 0;
            Out o = call([&] { m = byname ? r->minimal(n, wa) : r->minimal(**autos, wa); }, ak, 1);
            logf("minimal %s: %s", byname ? n.c_str() : "against a base", o.ok ? "done" : o.what.c_str());
            std::string d = snap_diff(s0, snap(*r));
            if (!d.empty()) violate("source-changed", "extracting a minimal registry: %s", d.c_str());
            if (o.ok) {
                if (byname && !s0.names.count(n)) violate("undefined-accepted", "a minimal registry was extracted for the undefined name %s", n.c_str());
                nontrivial();
                Snap m1 = snap(*m);
                std::set<std::string> want, opt;
                for (auto& x : s0.names) {
                    if (!in.count(x.second.t)) continue;
                    if (!x.second.alias) want.insert(x.first);
                    else if (byname ? wa : (wa || !(a0.names.count(x.first) || a0.names.count(strip_mods(x.first))))) want.insert(x.first);
                }
                std::set<std::string> allowed = alias_closure(m1, want);
                for (auto& x : want) {
                    std::string why;
                    if (!m1.names.count(x)) violate("not-minimal", "%s is missing in the minimal registry for %s", x.c_str(), n.c_str());
                    if (m1.names[x].t == s0.names[x].t) violate("shared-type", "%s is shared with the minimal registry", x.c_str());
                    if (!same_struct(*m1.names[x].t, *s0.names[x].t, &why)) violate("wrong-definition", "%s differs in the minimal registry: %s", x.c_str(), why.c_str());
                    if (m1.names[x].alias != s0.names[x].alias) violate("wrong-definition", "%s is an alias in only one of the registries", x.c_str());
                    if (!s0.names[x].alias && (m1.meta[m1.names[x].t] != s0.meta[s0.names[x].t] || m1.names[x].source != s0.names[x].source)) violate("wrong-metadata", "metadata or source of %s differs in the minimal registry", x.c_str());
                }
                for (auto& x : m1.names) if (!allowed.count(x.first)) violate("not-minimal", "%s is in the minimal registry for %s", x.first.c_str(), n.c_str());
            } else if (!o.injected && (!byname || s0.names.count(n)))
                violate("spurious-refusal", "extracting a minimal registry failed: %s %s", o.type.c_str(), o.what.c_str());
            Scope sc; delete m;
        }
    }
}
sim::Reg r09("C09", c09);

// ------------------------------------------------------------------------------------------------ C10
// reference model of the names: every name, the canonical name it designates
struct Names {
    struct T { std::string elem, mod; std::set<std::string> deps; };   // mod: "[3]", "*", "v" or ""
    std::map<std::string, T> types;
    std::map<std::string, std::string> names;
    std::string ns = "/";

    static std::string derived(std::string const& e, std::string const& mod) { return mod == "v" ? "/std/vector<" + e + ">" : e + mod; }
    static bool valid_derived(std::string const& e, std::string const& mod) { return !(mod == "*" && e.find_first_of("[>") != std::string::npos); }
    std::set<std::string> aliases(std::string const& c) const { std::set<std::string> r; for (auto& n : names) if (n.second == c && n.first != c) r.insert(n.first); return r; }
    std::string get(std::string const& n) const
    {
        if (!n.empty() && n[0] == '/') { auto it = names.find(n); return it == names.end() ? "" : it->second; }
        std::string sp = ns;
        for (;;) {
            auto it = names.find(sp + n);
            if (it != names.end()) return it->second;
            if (sp.size() <= 1) return "";
            sp = sp.substr(0, sp.rfind('/', sp.size() - 2) + 1);
        }
    }
    void modified(std::string const& c)
    {
        T t = types[c];
        if (t.mod.empty()) return;
        for (auto& a : aliases(t.elem)) {
            std::string n = derived(a, t.mod);
            if (!names.count(n)) alias(c, n);
        }
    }
    bool alias(std::string const& c, std::string const& n)
    {
        auto it = names.find(n);
        if (it != names.end() && it->second != c) return false;
        names[n] = c;
        std::vector<std::string> trig;
        for (auto& t : types) if (t.second.deps.count(c)) trig.push_back(t.first);
        for (auto& t : trig) modified(t);
        return true;
    }
    bool add(std::string const& n, T const& t)
    {
        if (names.count(n)) return false;
        names[n] = n; types[n] = t;
        for (auto& d : t.deps) if (!aliases(d).empty()) { modified(n); break; }
        return true;
    }
};

void c10_check(Registry const& r, Names const& m, std::set<std::string> const& cand, char const* after, std::map<std::string, Type const*>& objs)
{
    NoScope nsc;
    std::string want_ns = m.ns;
    if (r.getDefaultNamespace() != want_ns) violate("wrong-namespace", "after %s: the default namespace is %s instead of %s", after, r.getDefaultNamespace().c_str(), want_ns.c_str());
    // iteration
    std::vector<std::string> exp; for (auto& n : m.names) exp.push_back(n.first);
    std::sort(exp.begin(), exp.end(), ref_name_less);
    std::vector<std::string> got;
    std::map<std::string, Type const*> obj;
    for (RegistryIterator it = r.begin(); it != r.end(); ++it) {
        got.push_back(it.getName());
        auto m_it = m.names.find(it.getName());
        if (m_it == m.names.end()) violate("wrong-iteration", "after %s: name %s is iterated", after, it.getName().c_str());
        if (it->getName() != m_it->second) violate("wrong-resolution", "after %s: %s designates %s instead of %s", after, it.getName().c_str(), it->getName().c_str(), m_it->second.c_str());
        if (it.isAlias() != (m_it->first != m_it->second)) violate("wrong-iteration", "after %s: isAlias of %s", after, it.getName().c_str());
        if (!it.isAlias()) obj[it.getName()] = &*it;
    }
    if (got != exp) {
        std::string a, b; for (auto& x : got) a += x + " "; for (auto& x : exp) b += x + " ";
        violate("wrong-iteration", "after %s: iterated %s instead of %s", after, a.c_str(), b.c_str());
    }
    if (r.size() != exp.size()) violate("wrong-iteration", "after %s: size() is %zu instead of %zu", after, r.size(), exp.size());
    for (auto& o : objs) { auto it = obj.find(o.first); if (it == obj.end() || it->second != o.second) violate("wrong-resolution", "after %s: %s is another object than before", after, o.first.c_str()); }
    objs = obj;
    // resolution of every candidate
    for (auto& n : cand) {
        std::string w = m.get(n);
        Type const* g = r.get(n);
        if (!g != w.empty()) violate(g ? "undefined-resolves" : "defined-does-not-resolve", "after %s: '%s' %s in namespace %s (expected %s)", after, n.c_str(), g ? ("resolves to " + g->getName()).c_str() : "does not resolve", m.ns.c_str(), w.c_str());
        if (g && g != obj[w]) violate("wrong-resolution", "after %s: '%s' resolves to %s instead of %s in namespace %s", after, n.c_str(), g->getName().c_str(), w.c_str(), m.ns.c_str());
        if (r.has(n, false) != (g != 0)) violate("wrong-resolution", "after %s: has('%s') disagrees with get()", after, n.c_str());
        bool abs = !n.empty() && n[0] == '/';
        if (abs) {
            RegistryIterator f = r.find(n);
            if ((f == r.end()) != (g == 0) || (g && &*f != g)) violate("wrong-resolution", "after %s: find('%s') disagrees with get()", after, n.c_str());
            std::string base = strip_mods(n);
            bool h = r.has(n), e = m.names.count(n) || (base != n && m.names.count(base));
            if (base.size() > 1 && h != e) violate("wrong-resolution", "after %s: has('%s') with derived types is %d", after, n.c_str(), h);
        }
    }
    // aliases in force
    for (auto& o : obj) {
        std::set<std::string> a = r.getAliasesOf(*o.second), e = m.aliases(o.first);
        if (a != e) {
            std::string x, y; for (auto& s : a) x += s + " "; for (auto& s : e) y += s + " ";
            violate("wrong-aliases", "after %s: the aliases of %s are reported as %s instead of %s", after, o.first.c_str(), x.c_str(), y.c_str());
        }
    }
    // ranges
    static char const* prefixes[] = { "/A", "/A/", "/A/B/", "/N/", "/", "/T", "/Q" };
    for (auto p : prefixes) {
        std::vector<std::string> e2, g2; std::string pre(p);
        for (auto& x : exp) if (x.compare(0, pre.size(), pre) == 0) e2.push_back(x);
        RegistryIterator end = r.end(pre);
        size_t guard = 0;
        for (RegistryIterator it = r.begin(pre); it != end && guard < 10000; ++it, ++guard) g2.push_back(it.getName());
        if (e2 != g2) violate("wrong-iteration", "after %s: the range of prefix %s has %zu names instead of %zu", after, p, g2.size(), e2.size());
    }
}

void c10(Ctx& cx)
{
    static char const* spaces[] = { "/", "/A/", "/A/B/", "/N/" };
    static char const* bases[] = { "T", "U", "V", "A", "B" };
    auto pool_name = [&] { return std::string(spaces[cx.draw(4)]) + bases[cx.draw(5)]; };
    Reg1 reg; Names m;
    std::set<std::string> cand;
    for (auto s : spaces) for (auto b : bases) {
        std::string n = std::string(s) + b;
        cand.insert(n);
        for (size_t i = 0; i < n.size(); ++i) if (n[i] == '/' && i + 1 < n.size()) cand.insert(n.substr(i + 1));
    }
    cand.insert("Q"); cand.insert("/Q"); cand.insert("T*"); cand.insert("/T*"); cand.insert("/A/Q[2]");
    std::map<std::string, Type const*> objs;
    int steps = 2 + cx.draw(cx.thorough ? 30 : 16);
    bool faulty = cx.draw(3) == 2;
    for (int k = 0; k < steps; ++k) {
        SpanGuard g(cx);
        int what = cx.draw(18);
        std::string desc; Out o; bool want = true;
        long ak = faulty ? pick_k(cx, 1, 3) : 0;
        Names m1 = m;
        auto existing = [&]() -> std::string {
            if (m.names.empty() || cx.draw(6) == 5) return pool_name();
            auto it = m.names.begin(); std::advance(it, cx.draw(m.names.size())); return it->first;
        };
        bool strict = true;   // no allocation failure may be armed
        bool atomic = false;  // an allocation failure leaves everything as it was
        if (what < 5) {
            std::string n = cx.draw(7) == 6 ? bad_names[cx.draw(10)] : pool_name();
            bool bad = n.empty() || n[0] != '/' || n.size() < 2 || n == "/A//T" || n.find_first_of("$-[") != std::string::npos || n == "/A/";
            int kind = cx.draw(4);
            std::string dep = existing(); std::string dc = m.get(dep);
            strict = false;
            Names::T t;
            if (kind >= 2 && !dc.empty()) { t.deps.insert(dc); desc = "define compound '" + n + "' of " + dc; } else desc = "define '" + n + "'";
            o = call([&] {
                std::unique_ptr<Type> x;
                if (!t.deps.empty()) { std::unique_ptr<Compound> c(new Compound(n)); c->addField("f", *reg->get(dc), 0); x = std::move(c); }
                else if (kind == 1) x.reset(new OpaqueType(n, 3));
                else x.reset(new Numeric(n, 4, Numeric::SInt));
                reg->add(x.get(), kind % 2 ? "src" : "");
                x.release();
            }, ak);
            want = !bad && m1.add(n, t);
        } else if (what < 8) {
            std::string b = existing(); std::string c = m.get(b);
            static char const* mods[] = {"[2]", "*", "v", "[3]"};
            std::string mod = mods[cx.draw(4)];
            bool malformed = false;
            if (cx.chance(1, 6)) {
                static char const* om[] = {"[65536]", "[4294967297]", "[2147483648]", "[1]", "[x]", "[-1]", "[3x]", "[99999999999999999999]"};
                int q = cx.draw(8); mod = om[q]; malformed = q >= 4;
            }
            if (c.size() > 80) continue;
            desc = "derive " + Names::derived(b, mod);
            strict = false;
            if (mod == "v") {
                if (c.empty()) continue;
                o = call([&] { Container::createContainer(*reg, "/std/vector", *reg->get(b)); }, ak);
            } else {
                if (!c.empty() && !Names::valid_derived(b, mod)) continue;
                // the derived type may have been registered under the name of another type
                o = call([&] { if (!reg->build(b + mod)) throw Undefined(b); }, ak);
            }
            std::vector<std::string> chain(1, mod);
            if (malformed) { want = false; chain.clear(); count("malformed-name"); }
            else if (mod != "v") {
                // the fully stripped name must be defined, the derived types start from it
                std::string mods2, base = strip_mods(b + mod, &mods2);
                chain.clear();
                if (!m.names.count(b + mod)) {
                    c = m.get(base);
                    for (size_t i = 0; i < mods2.size(); ) { size_t e = mods2[i] == '*' ? i + 1 : mods2.find(']', i) + 1; chain.push_back(mods2.substr(i, e - i)); i = e; }
                } else c = m.get(b + mod);
            }
            if (c.empty()) want = false;
            for (auto& mo : chain) {
                if (!want) break;
                std::string n = Names::derived(c, mo);
                if (m1.names.count(n)) { c = m1.names[n]; continue; }
                if (!Names::valid_derived(c, mo)) { want = false; break; }
                Names::T t; t.elem = c; t.mod = mo; t.deps.insert(c); m1.add(n, t);
                c = n;
            }
            for (auto& x : m1.names) cand.insert(x.first);
        } else if (what < 12) {
            std::string b = cx.draw(6) == 5 ? "/Q" : existing();
            if (cx.draw(5) == 4 && b.rfind('/') + 1 < b.size()) b = b.substr(b.rfind('/') + 1);
            std::string n = cx.draw(7) == 6 ? bad_names[cx.draw(10)] : cx.draw(5) == 4 ? existing() : pool_name();
            bool bad = n.empty() || n[0] != '/' || n.size() < 2 || n == "/A//T" || n.find_first_of("$-") != std::string::npos || n == "/A/" || n == "/T[" || n == "/T[x]";
            std::string c = m.get(b);
            // derived names of bracketed or templated aliases are not valid names of pointers
            if (!bad && n.find_first_of("[>*") != std::string::npos && !m.names.count(n)) continue;
            desc = "alias " + b + " as '" + n + "'";
            strict = false;
            bool p = cx.draw(2);
            o = call([&] { if (p) reg->alias(b, n, true, "s"); else reg->alias(b, n); }, ak);
            want = !c.empty() && !bad && m1.alias(c, n);
        } else if (what < 13) {
            std::string n = existing();
            desc = "remove alias " + n;
            auto it = m.names.find(n);
            want = it != m.names.end() && it->second != n;
            if (want) m1.names.erase(n);
            atomic = true;
            o = call([&] { reg->removeAlias(n); }, ak);
            nontrivial();
        } else if (what < 14) {
            if (cx.draw(3)) continue;
            desc = "clear the aliases";
            for (auto& n : m.names) if (n.first != n.second) m1.names.erase(n.first);
            atomic = true;
            o = call([&] { reg->clearAliases(); }, ak);
            nontrivial();
        } else if (what >= 16) {
            std::string n = existing(), c = m.get(n);
            if (c.empty()) continue;
            desc = "remove the type " + n;
            std::set<std::string> dead; dead.insert(c);
            for (bool more = true; more;) {
                more = false;
                for (auto& t : m.types) { if (dead.count(t.first)) continue; for (auto& d : t.second.deps) if (dead.count(d)) { dead.insert(t.first); more = true; break; } }
            }
            for (auto& d : dead) m1.types.erase(d);
            for (auto it = m1.names.begin(); it != m1.names.end();) if (dead.count(it->second)) m1.names.erase(it++); else ++it;
            atomic = true;
            o = call([&] { std::set<Type*> s = reg->remove(*reg->get(n)); for (auto x : s) delete x; }, ak);
            if (o.ok) for (auto& d : dead) objs.erase(d);
            nontrivial();
        } else {
            static char const* nss[] = {"/", "/A", "/A/B", "/N", "/A/", "/A/B/C", "", "A", "/A$"};
            int i = cx.draw(9);
            desc = strf("set the default namespace to '%s'", nss[i]);
            bool ok = i < 6, res = false;
            atomic = true;
            o = call([&] { res = reg->setDefaultNamespace(nss[i]); }, ak);
            if (!o.injected) expect_ok(o, "setting the default namespace");
            if (o.ok && res != ok) violate("wrong-outcome", "%s returned %d", desc.c_str(), res);
            if (ok) { m1.ns = nss[i]; if (m1.ns.back() != '/') m1.ns += "/"; }
            nontrivial();
        }
        logf("%s: %s%s", desc.c_str(), o.ok ? "done" : (o.type + " " + o.what).c_str(), o.injected ? " (allocation failure)" : "");
        if (atomic && o.injected && !o.ok) {
            m1 = m; nontrivial(); count("interrupted-operation");
        } else if (!strict && o.injected) {
            // between nothing and everything
            if (o.ok && !want) violate("wrong-outcome", "%s was accepted", desc.c_str());
            if (!o.ok) {
                std::map<std::string, std::string> now;
                for (RegistryIterator it = reg->begin(); it != reg->end(); ++it) now[it.getName()] = it->getName();
                for (auto& n : m.names) if (!now.count(n.first)) violate("name-lost", "%s, interrupted by an allocation failure, removed %s", desc.c_str(), n.first.c_str());
                for (auto& n : now) if (!m1.names.count(n.first)) violate("undefined-resolves", "%s, interrupted by an allocation failure, left %s", desc.c_str(), n.first.c_str());
                Names m2 = m;
                for (auto& n : now) { m2.names[n.first] = m1.names[n.first]; std::string c = m1.names[n.first]; if (m1.types.count(c)) m2.types[c] = m1.types[c]; }
                for (auto it = m2.types.begin(); it != m2.types.end(); ) if (!m2.names.count(it->first)) m2.types.erase(it++); else ++it;
                m1 = m2;
            }
        } else {
            if (o.ok != want) violate("wrong-outcome", "%s %s", desc.c_str(), o.ok ? "was accepted" : ("was refused: " + o.type + " " + o.what).c_str());
            if (!want) { m1 = m; nontrivial(); count("refused-operation"); }
        }
        m = m1;
        c10_check(*reg, m, cand, desc.c_str(), objs);
        std::string c = m.ns; for (auto& n : m.names) c += n.first + "=" + n.second + ";";
        state(hash_bytes(c.data(), c.size()));
    }
}
sim::Reg r10("C10", c10);
}
