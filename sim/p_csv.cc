// C34: columns of the CSV header and of the CSV lines, with values that change between lines and
// failing streams and allocations.
#include "world.hh"
#include "io.hh"
#include <typelib/csvoutput.hh>
#include <cstring>
#include <memory>
#include <ostream>
#include <cmath>
using namespace Typelib;
using namespace sim;

namespace {
typedef std::vector<std::string> Cols;

void build(World& w, TD const& t, char* p, std::vector<void*>& pool, std::string const& sep, bool chars)
{
    switch (t.kind) {
    case KPtr: {
        void* q = raw_alloc(t.elem->size, 0xCD); pool.push_back(q);
        build(w, *t.elem, (char*)q, pool, sep, chars);
        memcpy(p, &q, sizeof q);
        break;
    }
    case KComp: for (auto& f : t.fields) build(w, *f.type, p + f.off, pool, sep, chars); break;
    case KArr: for (size_t i = 0; i < t.dim; ++i) build(w, *t.elem, p + i * t.elem->size, pool, sep, chars); break;
    default: {
        VT v = w.gen_value(t);
        if (t.kind == KEnum && w.cx.chance(1, 4)) { int64_t x = (int)w.cx.draw(1u << 31) * (w.cx.draw(2) ? 1 : -1); memcpy(v.raw.data(), &x, t.size); }
        n_write(t, p, v);
        if (t.kind == KNum && t.size == 1 && chars && sep.find(*p) != std::string::npos) *p = 'k';
    }
    }
}
void names(TD const& t, std::string const& cur, Cols& out)
{
    switch (t.kind) {
    case KPtr: names(*t.elem, "*(" + cur + ")", out); break;
    case KComp: for (auto& f : t.fields) names(*f.type, cur + "." + f.name, out); break;
    case KArr: for (size_t i = 0; i < t.dim; ++i) names(*t.elem, cur + strf("[%zu]", i), out); break;
    default: out.push_back(cur);
    }
}
struct Leaf { TD const* t; std::vector<uint8_t> raw; };
void leaves(TD const& t, char const* p, std::vector<Leaf>& out)
{
    switch (t.kind) {
    case KPtr: leaves(*t.elem, *(char const* const*)p, out); break;
    case KComp: for (auto& f : t.fields) leaves(*f.type, p + f.off, out); break;
    case KArr: for (size_t i = 0; i < t.dim; ++i) leaves(*t.elem, p + i * t.elem->size, out); break;
    default: out.push_back(Leaf{&t, std::vector<uint8_t>((uint8_t const*)p, (uint8_t const*)p + t.size)});
    }
}
template<typename T> T as(std::vector<uint8_t> const& r) { T t; memcpy(&t, r.data(), sizeof t); return t; }
bool shows(std::string const& s, Leaf const& l, bool chars)
{
    TD const& t = *l.t;
    if (t.kind == KOpq) return s == "<" + t.name + ">";
    if (t.kind == KEnum) {
        int v = enum_int(t, l.raw.data()); bool any = false;
        for (auto& x : t.syms) if (x.second == v) { any = true; if (s == x.first) return true; }
        return !any && s == strf("%d", v);
    }
    if (t.cat == Numeric::Float) {
        if (s.empty()) return false;
        char* e; 
        if (t.size == 4) { float v = as<float>(l.raw), g = strtof(s.c_str(), &e); return !*e && (std::isnan(v) ? std::isnan(g) : v == g); }
        double v = as<double>(l.raw), g = strtod(s.c_str(), &e); return !*e && (std::isnan(v) ? std::isnan(g) : v == g);
    }
    if (t.size == 1 && chars) return s == std::string(1, (char)l.raw[0]);
    bool sg = t.cat == Numeric::SInt;
    long long v = t.size == 1 ? (sg ? as<int8_t>(l.raw) : as<uint8_t>(l.raw)) : t.size == 2 ? (sg ? as<int16_t>(l.raw) : as<uint16_t>(l.raw))
        : t.size == 4 ? (sg ? as<int32_t>(l.raw) : (long long)as<uint32_t>(l.raw)) : as<int64_t>(l.raw);
    return s == (sg ? strf("%lld", v) : strf("%llu", (unsigned long long)v));
}
Cols split(std::string const& s, std::string const& sep)
{
    Cols c; size_t b = 0;
    for (;;) { size_t e = s.find(sep, b); c.push_back(s.substr(b, e - b)); if (e == std::string::npos) return c; b = e + sep.size(); }
}

void c34(Ctx& cx)
{
    GenOpts go; go.max_depth = 1 + cx.draw(4); go.containers = false;
    go.pointers = cx.chance(1, 3); go.opaques = cx.chance(1, 2);
    World w(cx, go);
    TD* t = w.gen_type();
    int more = cx.draw(3);
    for (int k = 0; k < more; ++k) switch (cx.draw(3)) {
        case 0: if (t->size < 300) t = w.array_of(t, 1 + cx.draw(4)); break;
        case 1: if (t->name.find_first_of("[>") == std::string::npos && t->kind != KPtr) t = w.ptr_of(t); break;
        default: { TD c; c.kind = KComp; c.name = strf("/%c/K%d", "azNQ"[cx.draw(4)], w.counter++); c.align = 1;
            c.fields.push_back(FD{"a", t, 0}); TD* u = w.gen_type(3); c.fields.push_back(FD{"b", u, t->size + cx.draw(3)});
            c.size = c.fields[1].off + u->size; if (!c.size) c.size = 1;
            for (auto& f : c.fields) { c.has_container |= f.type->has_container; c.has_ptr |= f.type->has_ptr; c.has_opq |= f.type->has_opq; }
            if (c.size < 600) t = w.add(c);
        }
    }
    w.make_registry();
    Type const& type = w.type(*t);
    logf("type %s", show(*t).substr(0, 300).c_str());
    static char const* seps[] = {" ", ",", ", ", "\t", "||"};
    std::string sep = seps[cx.draw(5)];
    bool chars = cx.draw(2);
    Cols want; names(*t, "base", want);
    std::unique_ptr<CSVOutput> csvout;
    { Scope sc; csvout.reset(new CSVOutput(type, sep, !chars)); }
    int steps = 2 + cx.draw(6);
    for (int s = 0; s < steps; ++s) {
        SpanGuard g(cx);
        bool header = s == 0 || cx.chance(1, 4);
        bool free_fn = cx.draw(2);           // the stream manipulators (always numeric for their header)
        std::vector<void*> pool;
        void* p = raw_alloc(t->size, 0xCD);
        build(w, *t, (char*)p, pool, sep, chars);
        std::vector<Leaf> lv; leaves(*t, (char const*)p, lv);
        Sink sink; bool sfault = false;
        if (cx.chance(1, 4)) { sink.fault = W_FULL; sink.cap = cx.draw(200); sfault = true; }
        SinkBuf sb(sink, false, false);
        std::ostream out(&sb);
        long ak = cx.chance(1, 4) ? 1 + cx.small(40) : 0;
        Out o = call([&] {
            if (header) { if (free_fn) out << csv_header(type, "base", sep); else csvout->header(out, "base"); }
            else { if (free_fn) out << csv(type, p, sep, !chars); else csvout->display(out, p); }
        }, ak);
        logf("%s%s: %s stream %s", header ? "header" : "line", free_fn ? " (manipulator)" : "", o.ok ? "done" : o.type.c_str(), out.good() ? "good" : "failed");
        if (!o.ok && !(o.injected && o.bad_alloc)) violate("unexpected-error", "%s of %s: %s %s", header ? "header" : "line", show(*t).substr(0, 400).c_str(), o.type.c_str(), o.what.c_str());
        if (o.injected) { count("fault.alloc"); nontrivial(); }
        if (sink.fired) { count("fault.stream_full"); nontrivial(); if (out.good()) violate("lost-output", "the stream accepted %zu bytes only and reports no error", sink.data.size()); }
        if (o.ok && out.good()) {
            log_bytes("out", sink.data.data(), sink.data.size());
            if (lv.empty()) { if (!sink.data.empty()) violate("wrong-columns", "%s of %s, which has no scalar: %s", header ? "header" : "line", show(*t).substr(0, 400).c_str(), sink.data.c_str()); }
            else {
                Cols c = split(sink.data, sep);
                if (c.size() != want.size()) violate(header ? "wrong-header" : "wrong-columns", "%s of %s: %zu columns for %zu scalars: %s", header ? "header" : "line", show(*t).substr(0, 400).c_str(), c.size(), want.size(), sink.data.substr(0, 300).c_str());
                for (size_t i = 0; i < c.size(); ++i)
                    if (header ? c[i] != want[i] : !shows(c[i], lv[i], chars))
                        violate(header ? "wrong-header" : "wrong-columns", "%s of %s: column %zu is %s instead of %s", header ? "header" : "line", show(*t).substr(0, 400).c_str(), i, c[i].c_str(), header ? want[i].c_str() : hex(lv[i].raw.data(), lv[i].raw.size()).c_str());
                state(hash_bytes(sink.data.data(), sink.data.size()));
                count(header ? "header" : "line");
            }
        }
        raw_free(p); for (void* q : pool) raw_free(q);
    }
    { Scope sc; csvout.reset(); }
    nontrivial();
}
sim::Reg r34("C34", c34);
}
