// C30: byte order conversion, through compiled programs (reused after failures) and in place.
#include "world.hh"
#include <typelib/endianness.hh>
#include <cstring>
#include <memory>
#include <algorithm>
#include <functional>
using namespace Typelib;
using namespace sim;

namespace {
typedef std::vector<uint8_t> Bytes;

// what is in the way of converting a type
struct Parts { bool ptr = false, opq = false, cont = false, odd_num = false, wide_enum = false, zero_ind = false; };
void parts(TD const& t, Parts& p)
{
    switch (t.kind) {
    case KNum: if (t.size != 1 && t.size != 2 && t.size != 4 && t.size != 8) p.odd_num = true; break;
    case KEnum: if (t.size == 8) p.wide_enum = true; break;
    case KComp: for (auto& f : t.fields) parts(*f.type, p); break;
    case KArr: parts(*t.elem, p); break;
    case KVec: p.cont = true; parts(*t.elem, p); break;
    case KStr: p.cont = true; break;
    case KPtr: p.ptr = true; break;
    case KOpq: p.opq = true; break;
    }
}
// one entry per byte: where it comes from after a conversion, or -1 for padding
void origin(TD const& t, size_t off, std::vector<long>& m)
{
    switch (t.kind) {
    case KComp: for (auto& f : t.fields) origin(*f.type, off + f.off, m); break;
    case KArr: for (size_t i = 0; i < t.dim; ++i) origin(*t.elem, off + i * t.elem->size, m); break;
    default: for (size_t i = 0; i < t.size; ++i) m[off + i] = off + t.size - 1 - i;
    }
}
VT swapped(TD const& t, VT const& v)
{
    VT r = v;
    switch (t.kind) {
    case KNum: case KEnum: std::reverse(r.raw.begin(), r.raw.end()); break;
    case KComp: for (size_t i = 0; i < t.fields.size(); ++i) r.kids[i] = swapped(*t.fields[i].type, v.kids[i]); break;
    case KArr: case KVec: for (auto& k : r.kids) k = swapped(*t.elem, k); break;
    default: break;
    }
    return r;
}
// every scalar of `got` is the one of v or the one of s
bool between(VT const& got, VT const& v, VT const& s)
{
    if (got.raw.size() != v.raw.size() || got.kids.size() != v.kids.size()) return false;
    if (got.raw != v.raw && got.raw != s.raw) return false;
    for (size_t i = 0; i < got.kids.size(); ++i) if (!between(got.kids[i], v.kids[i], s.kids[i])) return false;
    return true;
}

Bytes contents(void const* p, size_t n) { return Bytes((uint8_t const*)p, (uint8_t const*)p + n); }

// runs the program on a value and back
void run_swap(World& w, CompileEndianSwapVisitor& prog, TD const& t, char const* when)
{
    Ctx& cx = w.cx;
    Type const& type = w.type(t);
    std::vector<long> m(t.size, -1); origin(t, 0, m);
    void* a = raw_alloc(t.size, 0xCD); void* b = raw_alloc(t.size, 0xA5); void* c = raw_alloc(t.size, 0x5A);
    uint64_t x = cx.draw(1u << 20) * 0x9e3779b97f4a7c15ull + 12345;
    for (size_t i = 0; i < t.size; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; ((uint8_t*)a)[i] = x >> 56; }
    Bytes in = contents(a, t.size);
    Out o = call([&] { prog.swap(Value(a, type), Value(b, type)); });
    expect_ok(o, "converting a value");
    if (contents(a, t.size) != in) violate("input-changed", "%s: converting a value of %s changed the input", when, show(t).substr(0, 500).c_str());
    for (size_t i = 0; i < t.size; ++i) {
        uint8_t g = ((uint8_t*)b)[i];
        if (m[i] >= 0 ? g != in[m[i]] : g != in[i] && g != 0xA5)
            violate("wrong-bytes", "%s: byte %zu of a converted value of %s is 0x%02x: input %s, output %s", when, i, show(t).substr(0, 500).c_str(), g, hex(in.data(), in.size()).c_str(), hex(b, t.size).c_str());
    }
    o = call([&] { prog.swap(Value(b, type), Value(c, type)); });
    expect_ok(o, "converting a value back");
    for (size_t i = 0; i < t.size; ++i) if (m[i] >= 0 && ((uint8_t*)c)[i] != in[i])
        violate("not-inverse", "%s: byte %zu of a value of %s converted twice is 0x%02x: input %s, output %s", when, i, show(t).substr(0, 500).c_str(), ((uint8_t*)c)[i], hex(in.data(), in.size()).c_str(), hex(c, t.size).c_str());
    log_bytes("swapped", b, t.size);
    raw_free(a); raw_free(b); raw_free(c);
    count("compiled-swap");
}

struct InPlace : public EndianSwapVisitor {};

void in_place(World& w, InPlace& visitor, TD const& t)
{
    Ctx& cx = w.cx;
    Type const& type = w.type(t);
    Parts p; parts(t, p);
    Val val(t); VT v = w.gen_value(t); val.make(v);
    VT s = swapped(t, v);
    Bytes before = contents(val.p, t.size);
    std::vector<char> pad(t.size, 0); n_padding(t, 0, pad);
    long ak = cx.chance(1, 3) ? 1 + cx.small(20) : 0;
    Out o = call([&] { visitor.apply(Value(val.p, type)); }, ak);
    logf("in place: %s -> %s", show(t).substr(0, 200).c_str(), o.ok ? "done" : o.type.c_str());
    VT got = val.read();
    for (size_t i = 0; i < t.size; ++i) if (pad[i] && ((uint8_t*)val.p)[i] != before[i]) violate("padding-changed", "converting a value of %s in place changed the padding byte %zu", show(t).substr(0, 500).c_str(), i);
    if (!o.ok) {
        bool refused = o.type == "Typelib::UnsupportedEndianSwap" ? p.ptr || p.wide_enum : o.type == "Typelib::UnsupportedType" ? p.odd_num : false;
        if (!refused && !(o.injected && o.bad_alloc)) violate("unexpected-error", "converting a value of %s in place: %s %s", show(t).substr(0, 500).c_str(), o.type.c_str(), o.what.c_str());
        if (!between(got, v, s)) violate("corrupted", "interrupted conversion of a value of %s in place: %s became %s", show(t).substr(0, 500).c_str(), show(t, v).c_str(), show(t, got).c_str());
        if (o.bad_alloc) { count("fault.alloc"); nontrivial(); } else { count("refused-type"); nontrivial(); }
        return;
    }
    if (got != s) violate("wrong-value", "converting a value of %s in place: %s became %s instead of %s", show(t).substr(0, 500).c_str(), show(t, v).c_str(), show(t, got).c_str(), show(t, s).c_str());
    o = call([&] { visitor.apply(Value(val.p, type)); });
    expect_ok(o, "converting a value back in place");
    if (val.read() != v) violate("not-inverse", "a value of %s converted twice in place: %s became %s", show(t).substr(0, 500).c_str(), show(t, v).c_str(), show(t, val.read()).c_str());
    count("in-place-swap"); nontrivial();
}

template<typename T> void helper(Ctx& cx, char const* name)
{
    T v; uint8_t raw[sizeof(T)], rev[sizeof(T)];
    for (size_t i = 0; i < sizeof(T); ++i) raw[i] = cx.draw(256);
    for (size_t i = 0; i < sizeof(T); ++i) rev[i] = raw[sizeof(T) - 1 - i];
    memcpy(&v, raw, sizeof v);
    auto is = [&](char const* op, T const& got, uint8_t const* want) {
        if (memcmp(&got, want, sizeof(T))) violate("wrong-scalar", "%s of the %s %s gives %s", op, name, hex(raw, sizeof raw).c_str(), hex(&got, sizeof got).c_str());
    };
    T r;
    r = Endian::swap(v); is("swap", r, rev);
    Endian::swap(v, r); is("swap", r, rev);
    // this is a little-endian machine
    r = Endian::to_big(v); is("to_big", r, rev); r = v; Endian::to_big(v, r); is("to_big", r, rev);
    r = Endian::from_big(v); is("from_big", r, rev); Endian::from_big(v, r); is("from_big", r, rev);
    r = Endian::to_little(v); is("to_little", r, raw); Endian::to_little(v, r); is("to_little", r, raw);
    r = Endian::from_little(v); is("from_little", r, raw); Endian::from_little(v, r); is("from_little", r, raw);
    r = Endian::to_network(v); is("to_network", r, rev); Endian::to_network(v, r); is("to_network", r, rev);
    r = Endian::from_network(v); is("from_network", r, rev); Endian::from_network(v, r); is("from_network", r, rev);
}

void c30(Ctx& cx)
{
    GenOpts go; go.max_depth = 1 + cx.draw(4);
    bool extras = cx.chance(1, 2);
    go.containers = extras && cx.draw(2); go.pointers = extras && cx.chance(1, 3); go.opaques = extras && cx.chance(1, 3);
    go.odd_enums = cx.draw(2);
    World w(cx, go);
    std::vector<TD*> tops;
    int n = 1 + cx.draw(4);
    for (int i = 0; i < n; ++i) {
        TD* t = w.gen_type();
        int more = cx.draw(3);
        for (int k = 0; k < more; ++k) switch (cx.draw(4)) {
            case 0: case 1: if (t->size < 800) t = w.array_of(t, cx.chance(1, 10) ? 0 : 1 + cx.draw(4)); break;
            case 2: if (cx.chance(1, 4)) t = w.num(cx.draw(2) ? 16 : 3, cx.draw(2) ? Numeric::Float : Numeric::UInt); break;
            default: { TD c; c.kind = KComp; c.name = strf("/%c/K%d", "azNQ"[cx.draw(4)], w.counter++); c.align = 1;
                c.fields.push_back(FD{"a", t, 0}); TD* u = w.order[cx.draw(w.order.size())]; c.fields.push_back(FD{"b", u, t->size + cx.draw(3)});
                c.size = c.fields[1].off + u->size;
                if (cx.draw(2)) { c.fields.push_back(FD{"c", t, c.size}); c.size += t->size; }
                c.size += cx.draw(4); if (!c.size) c.size = 1;
                for (auto& f : c.fields) { c.has_container |= f.type->has_container; c.has_ptr |= f.type->has_ptr; c.has_opq |= f.type->has_opq; }
                if (c.size < 2000) t = w.add(c);
            }
        }
        tops.push_back(t);
    }
    w.make_registry();
    for (TD* t : tops) logf("type %s", show(*t).substr(0, 300).c_str());
    std::unique_ptr<CompileEndianSwapVisitor> prog;
    std::unique_ptr<InPlace> visitor;
    { Scope sc; prog.reset(new CompileEndianSwapVisitor); visitor.reset(new InPlace); }
    int steps = 2 + cx.draw(7);
    for (int s = 0; s < steps; ++s) {
        SpanGuard g(cx);
        TD const& t = *tops[cx.draw(tops.size())];
        int op = cx.draw(8);
        if (op == 7) {
            helper<int8_t>(cx, "int8_t"); helper<uint16_t>(cx, "uint16_t"); helper<int16_t>(cx, "int16_t"); helper<uint32_t>(cx, "uint32_t"); helper<int32_t>(cx, "int32_t");
            helper<uint64_t>(cx, "uint64_t"); helper<int64_t>(cx, "int64_t"); helper<float>(cx, "float"); helper<double>(cx, "double");
            continue;
        }
        if (op >= 5) { in_place(w, *visitor, t); continue; }
        Parts p; parts(t, p);
        Type const& type = w.type(t);
        bool fault = cx.chance(1, 3);
        long ak = fault ? 1 + cx.small(8) : 0;
        Out o = call([&] { prog->apply(type); }, ak);
        logf("compile %s -> %s", show(t).substr(0, 200).c_str(), o.ok ? "done" : o.type.c_str());
        if (!o.ok) {
            bool refused = o.type == "Typelib::UnsupportedEndianSwap" && (p.ptr || p.opq || p.cont || p.odd_num);
            if (!refused && !(o.injected && o.bad_alloc)) violate("unexpected-error", "compiling %s: %s %s", show(t).substr(0, 500).c_str(), o.type.c_str(), o.what.c_str());
            count(refused ? "refused-type" : "fault.alloc"); nontrivial();
            continue;
        }
        if (p.ptr || p.opq || p.cont || p.odd_num) {
            // part of an array without elements: nothing of it has to be converted
            std::vector<long> m(t.size, -1);
            bool real = false;
            std::function<void(TD const&)> look = [&](TD const& x) {
                if (x.kind == KArr) { if (x.dim) look(*x.elem); return; }
                if (x.kind == KComp) { for (auto& f : x.fields) look(*f.type); return; }
                Parts q; parts(x, q); real |= q.ptr || q.opq || q.cont || q.odd_num;
            };
            look(t);
            if (real) violate("unsupported-accepted", "%s was accepted", show(t).substr(0, 500).c_str());
        }
        std::string d = show(t); state(hash_bytes(d.data(), d.size()));
        int uses = 1 + cx.draw(3);
        for (int u = 0; u < uses; ++u) run_swap(w, *prog, t, s ? "reused program" : "program");
        nontrivial();
    }
    { Scope sc; prog.reset(); visitor.reset(); }
}
sim::Reg r30("C30", c30);
}
