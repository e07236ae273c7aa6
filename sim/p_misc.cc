// C20, C21: resizing of types, visiting of values.
#include "world.hh"
#include "io.hh"
#include "regw.hh"
#include <cstring>
#include <memory>
using namespace Typelib;
using namespace sim;

namespace {
typedef std::vector<uint8_t> Bytes;
// ------------------------------------------------------------------------------------------------ C20
// checks every registered type against the model
void check_types(World& w, char const* after, bool reg_alive = true)
{
    NoScope ns;
    for (TD* t : w.order) {
        Type const* g = w.reg->get(t->name);
        if (!g) violate("type-lost", "after %s: %s is not in the registry", after, t->name.c_str());
        if (g->getSize() != t->size) violate("wrong-size", "after %s: %s has size %zu instead of %zu", after, t->name.c_str(), g->getSize(), t->size);
        if (t->kind == KComp) {
            auto const& fs = static_cast<Compound const*>(g)->getFields();
            if (fs.size() != t->fields.size()) violate("fields-changed", "after %s: %s has %zu fields", after, t->name.c_str(), fs.size());
            size_t i = 0;
            for (auto& f : fs) {
                FD const& m = t->fields[i++];
                if (f.getName() != m.name || f.getType().getName() != m.type->name) violate("fields-changed", "after %s: field %zu of %s is %s of type %s", after, i - 1, t->name.c_str(), f.getName().c_str(), f.getType().getName().c_str());
                if (f.getOffset() != m.off) violate("wrong-offset", "after %s: %s.%s is at %zu instead of %zu in %s", after, t->name.c_str(), m.name.c_str(), f.getOffset(), m.off, show(*t).substr(0, 600).c_str());
            }
        } else if (t->kind == KArr) {
            if (static_cast<Array const*>(g)->getDimension() != t->dim) violate("fields-changed", "after %s: %s has dimension %zu", after, t->name.c_str(), static_cast<Array const*>(g)->getDimension());
        }
        if (t->kind == KArr || t->kind == KPtr || t->kind == KVec)
            if (&static_cast<Indirect const*>(g)->getIndirection() != w.reg->get(t->elem->name)) violate("fields-changed", "after %s: %s refers to another type", after, t->name.c_str());
    }
}
bool usable(TD const& t) { return !t.has_ptr && !t.has_opq && t.size > 0; }

void use_values(World& w, TD const& t, char const* when)
{
    Type const& type = w.type(t);
    VT v = w.gen_value(t), v2 = w.mutate(t, v);
    void* a = raw_alloc(t.size, 0xCD); void* b = raw_alloc(t.size, 0xCD);
    std::vector<uint8_t>* buf = 0;
    Out o = call([&] { init(Value(a, type)); init(Value(b, type)); });
    expect_ok(o, strf("initialising a value of %s", when).c_str());
    n_write(t, a, v);
    o = call([&] { copy(Value(b, type), Value(a, type)); });
    expect_ok(o, "copying a value of a resized type");
    if (n_read(t, b) != v) violate("wrong-copy", "%s: copying a value of %s gives %s instead of %s", when, show(t).substr(0, 500).c_str(), show(t, n_read(t, b)).c_str(), show(t, v).c_str());
    bool eq = false;
    o = call([&] { eq = compare(Value(a, type), Value(b, type)); });
    expect_ok(o, "comparing values of a resized type");
    if (!eq) violate("wrong-comparison", "%s: the copy of a value of %s is reported different", when, show(t).substr(0, 500).c_str());
    n_write(t, b, v2);
    o = call([&] { eq = compare(Value(a, type), Value(b, type)); });
    expect_ok(o, "comparing values of a resized type");
    if (eq != (v == v2)) violate("wrong-comparison", "%s: values of %s: compare says %d", when, show(t).substr(0, 500).c_str(), eq);
    Image im = image_of(t, v);
    o = call([&] { buf = new std::vector<uint8_t>; dump(Value(a, type), *buf); });
    expect_ok(o, "marshalling a value of a resized type");
    if (!image_matches(im, buf->data(), buf->size())) violate("wrong-image", "%s: the image of a value of %s is %s instead of %s", when, show(t).substr(0, 500).c_str(), hex(buf->data(), buf->size()).c_str(), hex(im.bytes.data(), im.bytes.size()).c_str());
    o = call([&] { load(Value(b, type), *buf); });
    expect_ok(o, "loading a value of a resized type");
    if (n_read(t, b) != v) violate("wrong-value", "%s: loading a value of %s gives %s instead of %s", when, show(t).substr(0, 500).c_str(), show(t, n_read(t, b)).c_str(), show(t, v).c_str());
    o = call([&] { destroy(Value(a, type)); destroy(Value(b, type)); delete buf; });
    expect_ok(o, "destroying values of a resized type");
    raw_free(a); raw_free(b);
}

void c20(Ctx& cx)
{
    GenOpts go; go.max_depth = 1 + cx.draw(4); go.opaques = cx.chance(1, 3); go.pointers = cx.chance(1, 4);
    World w(cx, go);
    int tops = 1 + cx.draw(3);
    for (int i = 0; i < tops; ++i) {
        TD* t = w.gen_type();
        int more = cx.draw(3);
        for (int k = 0; k < more; ++k) switch (cx.draw(3)) {
            case 0: if (t->size < 1500) t = w.array_of(t, 1 + cx.draw(3)); break;
            case 1: if (t->size) t = w.vector_of(t); break;
            default: { TD c; c.kind = KComp; c.name = strf("/%c/K%d", "azNQ"[cx.draw(4)], w.counter++); c.align = 1;
                c.fields.push_back(FD{"a", t, 0}); TD* u = w.order[cx.draw(w.order.size())]; c.fields.push_back(FD{"b", u, t->size}); c.size = t->size + u->size;
                c.fields.push_back(FD{"c", t, c.size}); c.size += t->size;
                if (cx.chance(1, 4)) {
                    // fields that share memory
                    static char const* fns[] = {"d", "e", "f"};
                    for (int q = 1 + cx.draw(3), j = 0; j < q; ++j) {
                        TD* v = w.order[cx.draw(w.order.size())];
                        c.fields.push_back(FD{fns[j], v, cx.draw(c.size + 1)});
                        c.size = std::max(c.size, c.fields.back().off + v->size);
                    }
                    c.size += cx.draw(3);
                    c.has_ptr = true;      // no values of it
                    count("shared-memory");
                }
                for (auto& f : c.fields) { c.has_container |= f.type->has_container; c.has_ptr |= f.type->has_ptr; c.has_opq |= f.type->has_opq; }
                if (c.size < 3000) t = w.add(c);
            }
        }
    }
    if (cx.chance(1, 4)) {
        // a self-referential type
        TD* base = w.order[cx.draw(w.order.size())];
        TD c; c.kind = KComp; c.name = strf("/%c/Node", "aN"[cx.draw(2)]); c.align = 1; c.has_ptr = true; c.size = base->size + 8;
        c.fields.push_back(FD{"v", base, 0});
        TD* n = w.add(c);
        TD* p = w.ptr_of(n);
        n->fields.push_back(FD{"next", p, base->size});
        w.order.erase(w.order.end() - 2, w.order.end());
        w.make_registry();
        Out o = call([&] {
            std::unique_ptr<Compound> x(new Compound(n->name));
            x->addField("v", *w.reg->get(base->name), 0);
            w.reg->add(x.get()); Compound* xp = x.release();
            xp->addField("next", *w.reg->build(n->name + "*"), base->size);
        });
        expect_ok(o, "defining a self-referential type");
        w.order.push_back(n); w.order.push_back(p);
        count("self-reference");
    } else w.make_registry();
    std::map<std::string, std::string> al;      // alias -> type
    int na = cx.draw(3);
    for (int i = 0; i < na; ++i) {
        TD* t = w.order[cx.draw(w.order.size())]; std::string a = strf("/al/A%d", i);
        Out o = call([&] { w.reg->alias(t->name, a); });
        expect_ok(o, "aliasing"); al[a] = t->name;
    }
    for (TD* t : w.order) logf("type %s", show(*t).substr(0, 300).c_str());
    check_types(w, "setting up");
    int rounds = 1 + cx.draw(3);
    for (int r = 0; r < rounds; ++r) {
        SpanGuard g(cx);
        if (cx.chance(1, 3)) {
            TD* t = w.order[cx.draw(w.order.size())];
            if (usable(*t)) use_values(w, *t, "before a resizing");
        }
        // the model of the resized types, in declaration order
        std::map<TD const*, size_t> old;
        for (TD* t : w.order) old[t] = t->size;
        std::map<std::string, size_t> req;
        std::vector<TD> saved; for (TD* t : w.order) saved.push_back(*t);
        bool compounds = cx.chance(1, 3);
        unsigned den = 2 + cx.draw(5);
        for (TD* t : w.order) {
            bool leaf = t->kind == KNum || t->kind == KOpq || t->kind == KEnum;
            bool list = (leaf || (compounds && t->kind == KComp)) && cx.draw(den) == 0;
            if (t->name == "/int8_t" && w.by_name.count("/std/string")) list = false;   // the elements of strings are bytes
            size_t ns = t->size;
            if (t->kind == KComp) {
                // a field keeps its distance to the fields before it that end before it starts
                size_t end = 0, old_end = 0;
                std::vector<size_t> o; for (auto& f : t->fields) o.push_back(f.off);
                for (size_t a = 0; a < o.size(); ++a) {
                    size_t p = 0, q = 0;
                    for (size_t b = 0; b < a; ++b) if (o[b] + old[t->fields[b].type] <= o[a]) { p = std::max(p, o[b] + old[t->fields[b].type]); q = std::max(q, t->fields[b].off + t->fields[b].type->size); }
                    t->fields[a].off = o[a] - p + q;
                    old_end = std::max(old_end, o[a] + old[t->fields[a].type]); end = std::max(end, t->fields[a].off + t->fields[a].type->size);
                }
                ns = end + (t->size > old_end ? t->size - old_end : 0);
                if (list) { ns = end + cx.draw(6); if (!ns) ns = 1; }
            } else if (t->kind == KArr) ns = t->dim * t->elem->size;
            else if (list) { static size_t es[] = {1, 2, 4, 8}; ns = t->kind == KEnum ? es[cx.draw(4)] : t->kind == KNum ? (cx.draw(3) ? es[cx.draw(4)] : 1 + cx.draw(12)) : 1 + cx.draw(20); }
            t->size = ns;
            if (list) {
                std::string n = t->name;
                for (auto& a : al) if (a.second == n && cx.draw(2)) n = a.first;
                req[n] = ns;
            }
        }
        std::string desc = "resizing";
        for (auto& q : req) desc += strf(" %s=%zu", q.first.c_str(), q.second);
        bool bad = cx.chance(1, 5);
        if (bad) {
            // refused as a whole
            std::map<std::string, size_t> r2 = req; r2[cx.draw(2) ? "/zz/undefined" : "/0undefined"] = 3;
            std::vector<TD> now; for (size_t i = 0; i < w.order.size(); ++i) { now.push_back(*w.order[i]); *w.order[i] = saved[i]; }
            Out o = call([&] { w.reg->resize(r2); });
            logf("%s with an unknown type: %s", desc.c_str(), o.ok ? "done" : o.type.c_str());
            if (o.ok) violate("unknown-accepted", "resizing an unknown type was accepted");
            if (o.type != "Typelib::Undefined") violate("wrong-error", "resizing an unknown type gives %s: %s", o.type.c_str(), o.what.c_str());
            check_types(w, "a refused resizing");
            count("fault.refused_resize"); nontrivial();
            for (size_t i = 0; i < w.order.size(); ++i) *w.order[i] = now[i];
        }
        Out o = call([&] { w.reg->resize(req); });
        logf("%s: %s", desc.c_str(), o.ok ? "done" : o.type.c_str());
        expect_ok(o, desc.c_str());
        if (!req.empty()) nontrivial();
        check_types(w, desc.c_str());
        std::string c; for (TD* t : w.order) c += show(*t).substr(0, 400); state(hash_bytes(c.data(), c.size()));
        int uses = 1 + cx.draw(3);
        for (int i = 0; i < uses; ++i) {
            TD* t = cx.draw(2) ? w.order.back() : w.order[cx.draw(w.order.size())];
            if (usable(*t)) use_values(w, *t, desc.c_str());
        }
        // types derived afterwards
        if (cx.chance(1, 3)) {
            TD* t = w.order[cx.draw(w.order.size())];
            size_t before = w.order.size();
            TD* d = cx.draw(2) || !t->size ? w.array_of(t, 2 + cx.draw(3)) : w.vector_of(t);
            if (w.order.size() > before) { o = call([&] { World::define(*w.reg, *d); }); expect_ok(o, "deriving from a resized type"); }
            check_types(w, "deriving from a resized type");
            if (usable(*d) && d->size < 4000) use_values(w, *d, "a type derived from a resized type");
        }
    }
}
sim::Reg r20("C20", c20);

// ------------------------------------------------------------------------------------------------ C21
struct Ev { char kind; void const* addr; std::string type; bool operator==(Ev const& o) const { return kind == o.kind && addr == o.addr && type == o.type; } };
std::string str(Ev const& e) { return strf("%c:%s", e.kind, e.type.c_str()); }

struct Recorder : public ValueVisitor {
    std::vector<Ev> evs; long stop_at = -1, throw_at = -1; bool stopped = false; bool wrong_type = false;
    bool follow = true;
    Recorder() : ValueVisitor(true) {}
    bool ev(char k, void const* p, std::string const& t)
    {
        NoScope ns;
        long n = evs.size();
        if (n == throw_at) { count("fault.visitor-throws"); nontrivial(); throw SimFault{7}; }
        evs.push_back(Ev{k, p, t});
        if (n == stop_at) { count("fault.visit-stopped"); nontrivial(); stopped = true; return false; }
        return true;
    }
    bool visit_(int8_t& v) { return ev('i', &v, "1"); }
    bool visit_(uint8_t& v) { return ev('u', &v, "1"); }
    bool visit_(int16_t& v) { return ev('i', &v, "2"); }
    bool visit_(uint16_t& v) { return ev('u', &v, "2"); }
    bool visit_(int32_t& v) { return ev('i', &v, "4"); }
    bool visit_(uint32_t& v) { return ev('u', &v, "4"); }
    bool visit_(int64_t& v) { return ev('i', &v, "8"); }
    bool visit_(uint64_t& v) { return ev('u', &v, "8"); }
    bool visit_(float& v) { return ev('f', &v, "4"); }
    bool visit_(double& v) { return ev('f', &v, "8"); }
    std::string name(Type const& t) { NoScope ns; return t.getName(); }
    void same(Value const& v, Type const& t) { NoScope ns; if (&v.getType() != &t) wrong_type = true; }
    bool visit_(Value const& v, OpaqueType const& t) { same(v, t); return ev('O', v.getData(), name(t)) && ValueVisitor::visit_(v, t); }
    bool visit_(Value const& v, Pointer const& t) { same(v, t); return ev('P', v.getData(), name(t)) && (follow ? ValueVisitor::visit_(v, t) : true); }
    bool visit_(Value const& v, Array const& t) { same(v, t); return ev('A', v.getData(), name(t)) && ValueVisitor::visit_(v, t); }
    bool visit_(Value const& v, Container const& t) { same(v, t); return ev('V', v.getData(), name(t)) && ValueVisitor::visit_(v, t); }
    bool visit_(Value const& v, Compound const& t) { same(v, t); return ev('C', v.getData(), name(t)) && ValueVisitor::visit_(v, t); }
    bool visit_(Value const& v, Compound const& t, Field const& f)
    {
        same(v, f.getType());
        std::string n; { NoScope ns; n = t.getName() + "." + f.getName(); }
        return ev('F', v.getData(), n) && ValueVisitor::visit_(v, t, f);
    }
    // enumerations of another size are presented as a copy
    bool visit_(Enum::integral_type& v, Enum const& t)
    {
        std::string n = name(t);
        if (t.getSize() == sizeof v) return ev('E', &v, n);
        { NoScope ns; n += strf("=%d", v); }
        return ev('E', 0, n);
    }
};
void expect_evs(TD const& t, char const* p, std::vector<Ev>& e, bool follow)
{
    switch (t.kind) {
    case KNum: e.push_back(Ev{t.cat == Numeric::SInt ? 'i' : t.cat == Numeric::UInt ? 'u' : 'f', p, strf("%zu", t.size)}); break;
    case KEnum: if (t.size == 4) e.push_back(Ev{'E', p, t.name}); else e.push_back(Ev{'E', 0, t.name + strf("=%d", enum_int(t, p))}); break;
    case KOpq: e.push_back(Ev{'O', p, t.name}); break;
    case KPtr: e.push_back(Ev{'P', p, t.name}); if (follow) expect_evs(*t.elem, *(char const* const*)p, e, follow); break;
    case KArr: e.push_back(Ev{'A', p, t.name}); for (size_t i = 0; i < t.dim; ++i) expect_evs(*t.elem, p + i * t.elem->size, e, follow); break;
    case KComp:
        e.push_back(Ev{'C', p, t.name});
        for (auto& f : t.fields) { e.push_back(Ev{'F', p + f.off, t.name + "." + f.name}); expect_evs(*f.type, p + f.off, e, follow); }
        break;
    case KVec: {
        e.push_back(Ev{'V', p, t.name});
        auto v = (std::vector<uint8_t> const*)p;
        for (size_t i = 0; i * t.elem->size < v->size(); ++i) expect_evs(*t.elem, (char const*)v->data() + i * t.elem->size, e, follow);
        break;
    }
    case KStr: {
        e.push_back(Ev{'V', p, t.name});
        auto s = (std::string const*)p;
        for (size_t i = 0; i < s->size(); ++i) expect_evs(*t.elem, s->data() + i, e, follow);
        break;
    }
    }
}
// fills the pointers of a value (no containers here)
void set_pointers(TD const& t, char* p, std::map<TD const*, void*>& pool)
{
    switch (t.kind) {
    case KPtr:
        if (!pool.count(t.elem)) { void* q = raw_alloc(t.elem->size ? t.elem->size : 1, 0x11); pool[t.elem] = q; set_pointers(*t.elem, (char*)q, pool); }
        memcpy(p, &pool[t.elem], 8);
        break;
    case KArr: for (size_t i = 0; i < t.dim; ++i) set_pointers(*t.elem, p + i * t.elem->size, pool); break;
    case KComp: for (auto& f : t.fields) set_pointers(*f.type, p + f.off, pool); break;
    default: break;
    }
}

void c21(Ctx& cx)
{
    GenOpts go; go.max_depth = 1 + cx.draw(4); go.opaques = cx.chance(1, 3); go.odd_enums = true;
    bool ptrs = cx.chance(1, 6);
    if (ptrs) { go.pointers = true; go.containers = false; }
    World w(cx, go);
    TD* t = w.gen_type();
    w.make_registry();
    Type const* type = &w.type(*t);
    logf("type %s", show(*t).substr(0, 900).c_str());
    state(hash_bytes(show(*t).data(), show(*t).size()));
    std::map<TD const*, void*> pool;
    Val val(*t);
    VT v = w.gen_value(*t);
    val.make(v);
    if (ptrs) { set_pointers(*t, (char*)val.p, pool); v = val.read(); }
    Recorder* rec = 0;
    Out o = call([&] { rec = new Recorder; });
    expect_ok(o, "creating a visitor");
    rec->follow = cx.draw(4) != 3;
    std::vector<Ev> full;
    int visits = 1 + cx.draw(4);
    for (int k = 0; k <= visits; ++k) {
        SpanGuard g(cx);
        if (k > 0 && cx.draw(4) == 3 && !ptrs) { v = w.gen_value(*t); val.make(v); }
        full.clear(); expect_evs(*t, (char const*)val.p, full, rec->follow);
        Bytes raw((uint8_t*)val.p, (uint8_t*)val.p + t->size);
        int mode = k == visits ? 0 : cx.draw(4);
        rec->evs.clear(); rec->stopped = false; rec->stop_at = rec->throw_at = -1;
        long ak = 0, at = full.empty() ? 0 : cx.draw(full.size());
        if (mode == 1) rec->stop_at = at; else if (mode == 2) rec->throw_at = at; else if (mode == 3) ak = 1 + cx.small(30);
        o = call([&] { rec->apply(Value(val.p, *type)); }, ak);
        logf("visit %d mode %d at %ld: %s, %zu callbacks of %zu", k, mode, at, o.ok ? "done" : o.type.c_str(), rec->evs.size(), full.size());
        if (rec->wrong_type) violate("wrong-type", "a callback got a value whose type is not the one announced");
        if (val.read() != v || memcmp(raw.data(), val.p, t->size)) violate("value-modified", "visiting modified the value");
        size_t prefix = mode == 1 ? at + 1 : mode == 2 ? at : o.ok ? full.size() : rec->evs.size();
        if (mode == 2 && (o.ok || !o.ours)) violate("error-swallowed", "the exception of the visitor's callback %ld was not passed on (%s)", at, o.ok ? "success" : o.type.c_str());
        if (mode != 2 && !o.ok && !o.injected) expect_ok(o, "visiting a value");
        if (mode == 2 && rec->evs.size() != prefix) violate("visit-goes-on", "%zu callbacks were made after the one that threw", rec->evs.size() - prefix);
        if (rec->evs.size() < prefix) violate("part-missed", "%zu callbacks instead of %zu; missing %s", rec->evs.size(), prefix, str(full[rec->evs.size()]).c_str());
        for (size_t i = 0; i < prefix; ++i)
            if (i >= full.size() || !(rec->evs[i] == full[i])) violate("wrong-callback", "callback %zu is %s at %+ld instead of %s at %+ld", i, str(rec->evs[i]).c_str(), (long)((char*)rec->evs[i].addr - (char*)val.p), i < full.size() ? str(full[i]).c_str() : "nothing", i < full.size() ? (long)((char*)full[i].addr - (char*)val.p) : 0);
        if (mode == 1) {
            // what is still visited after a stop comes from the rest, in order
            size_t f = prefix;
            for (size_t i = prefix; i < rec->evs.size(); ++i) {
                while (f < full.size() && !(full[f] == rec->evs[i])) ++f;
                if (f == full.size()) violate("visited-twice", "callback %zu, after the stop, is %s", i, str(rec->evs[i]).c_str());
                ++f;
            }
        } else if (rec->evs.size() > full.size()) violate("visited-twice", "%zu callbacks instead of %zu", rec->evs.size(), full.size());
    }
    { Scope sc; delete rec; }
    for (auto& p : pool) raw_free(p.second);
}
sim::Reg r21("C21", c21);
}
