// C01..C07: values - marshalling, loading, lifecycle, containers.
#include "world.hh"
#include "io.hh"
#include <cstring>
#include <ostream>
#include <memory>
using namespace Typelib;
using namespace sim;

namespace {
typedef std::vector<uint8_t> Bytes;

struct Setup {
    World w; TD* t; Type const* type; VT v; bool packed; int trail; Image im; std::unique_ptr<Val> val;
    static GenOpts opts(Ctx& cx) { GenOpts o; o.max_depth = 1 + cx.draw(4); o.containers = !cx.chance(1, 8); return o; }
    Setup(Ctx& cx) : w(cx, opts(cx))
    {
        t = w.gen_type();
        w.make_registry();
        type = &w.type(*t);
        v = w.gen_value(*t);
        if (t->kind == KVec && !t->elem->has_container && cx.chance(1, 30)) {
            // a large value: more than any internal buffer
            size_t n = 3000 + cx.draw(20000); VT e = v.kids.empty() ? w.gen_value(*t->elem, 3) : v.kids[0];
            v.kids.assign(n * t->elem->size > 400000 ? 400000 / t->elem->size : n, e);
            count("large-value");
        }
        packed = cx.chance(1, 5); trail = cx.draw(2);
        im = image_of(*t, v, packed);
        if (packed) { logf("padding is left out"); count("packed-layout"); }
        logf("type %s", show(*t).substr(0, 900).c_str());
        logf("value %s", show(*t, v).c_str());
        state(hash_bytes(show(*t).data(), show(*t).size()));
        val.reset(new Val(*t)); val->make(v);
    }
    // entry points without a layout use the default one
    int ent(int entry) { return packed && entry % 3 == 0 ? entry + 1 : entry; }
    Value value() { return Value(val->p, *type); }
    void unchanged(char const* what, Bytes const& raw)
    {
        if (val->read() != v) violate("value-modified", "%s modified the value: %s instead of %s", what, show(*t, val->read()).c_str(), show(*t, v).c_str());
        if (memcmp(raw.data(), val->p, t->size)) violate("value-modified", "%s modified the bytes of the value", what);
    }
    Bytes raw() { return Bytes((uint8_t*)val->p, (uint8_t*)val->p + t->size); }
};

MemoryLayout* make_layout(Type const& t, bool ptrs, bool packed, bool no_trailing)
{
    MemoryLayout* l = 0;
    Out o = call([&] { l = new MemoryLayout(packed ? layout_of(t, ptrs, false, false, no_trailing) : ptrs ? layout_of(t, true) : layout_of(t)); });
    expect_ok(o, "computing a layout");
    return l;
}
struct Layout { MemoryLayout* l; Layout(Type const& t, bool ptrs = false, bool packed = false, bool no_trailing = true) : l(make_layout(t, ptrs, packed, no_trailing)) {}
    Layout(Setup& s) : Layout(*s.type, false, s.packed, s.trail) {} ~Layout() { Scope s; delete l; } };

// counts the allocations a successful call makes, then returns a k to fail (0 = none)
template<typename F> long pick_alloc(Ctx& cx, F dry, unsigned num, unsigned den)
{
    if (!cx.chance(num, den)) return 0;
    Out o = call(dry);
    long n = allocs_seen();
    (void)o;
    return n ? 1 + cx.draw(n) : 0;
}

struct NullOut : public OutputStream { size_t n = 0; void write(uint8_t const*, size_t s) { n += s; } };

// ------------------------------------------------------------------------------------------------ C01
struct CallerStream : public OutputStream {
    Bytes data; long fail_at = -1; long calls = 0; bool std_exc = false;
    void write(uint8_t const* p, size_t n)
    {
        NoScope ns;
        if (calls++ == fail_at) { count("fault.caller-stream-throws"); nontrivial(); if (std_exc) throw SimStdFault(); throw SimFault{1}; }
        data.insert(data.end(), p, p + n);
    }
};

void check_delivery(Setup& s, char const* sink, bool failed, bool excuse, uint8_t const* p, size_t n, std::string const& how)
{
    logf("%s: %s, %zu of %zu bytes", sink, failed ? ("reported " + how).c_str() : "success", n, s.im.bytes.size());
    if (!failed) {
        if (!image_matches(s.im, p, n))
            violate(std::string("silent-loss:") + sink, "dump to a %s reported success but delivered %zu bytes (%s) instead of the %zu-byte image", sink, n, hex(p, n).c_str(), s.im.bytes.size());
    } else {
        if (!image_prefix(s.im, p, n))
            violate(std::string("not-a-prefix:") + sink, "failed dump to a %s delivered %zu bytes (%s) which are not a prefix of the image %s", sink, n, hex(p, n).c_str(), hex(s.im.bytes.data(), s.im.bytes.size()).c_str());
        if (!excuse) violate(std::string("spurious-failure:") + sink, "dump to a %s failed without a fault: %s", sink, how.c_str());
    }
}

void c01(Ctx& cx)
{
    Setup s(cx);
    Layout lay(s);
    Bytes raw = s.raw();
    // the sequence of writes of a fault-free dump, to aim the faults
    CallerStream probe;
    { Out o = call([&] { dump(s.value(), probe, *lay.l); }); expect_ok(o, "dump to a caller's stream"); }
    check_delivery(s, "caller-stream", false, false, probe.data.data(), probe.data.size(), "");
    long nw = probe.calls;
    int rounds = 1 + cx.draw(4);
    for (int i = 0; i < rounds; ++i) {
        SpanGuard g(cx);
        int sink = cx.draw(5), entry = s.ent(cx.draw(3)), fault = cx.draw(6);
        bool armed = cx.chance(3, 4);
        long at = cx.draw(nw + 1);
        size_t cap = cx.draw(s.im.bytes.size() + 2);
        Sink k; k.fault = armed ? fault : W_NONE; k.at_call = at; k.cap = cap;
        static int errs[] = { 28 /*ENOSPC*/, 5 /*EIO*/, 4 /*EINTR*/, 11 /*EAGAIN*/, 32 /*EPIPE*/ };
        k.err = errs[cx.draw(5)];
        long ak = 0;
        logf("round %d sink %d entry %d fault %s at %ld cap %zu", i, sink, entry, wfault_name(k.fault), at, cap);
        switch (sink) {
        case 0: {
            Bytes prior; size_t np = cx.draw(4); for (size_t j = 0; j < np; ++j) prior.push_back(0xE0 + j);
            Bytes* b = 0; { Scope sc; b = new Bytes(prior); }
            auto doit = [&](Bytes& to) {
                if (entry == 0) dump(s.value(), to);
                else if (entry == 1) dump(s.value(), to, *lay.l);
                else dump((uint8_t const*)s.val->p, to, *lay.l);
            };
            if (armed) ak = pick_alloc(cx, [&] { Bytes t; doit(t); }, 3, 4);
            if (armed && cx.chance(1, 10)) { g_alloc_cap = 1 + cx.draw(s.im.bytes.size() * 2 + 16); count("fault.memory-cap"); }
            Out o = call([&] { doit(*b); }, ak, 1 + cx.draw(3));
            g_alloc_cap = size_t(1) << 22;
            if (o.capped) nontrivial();
            if (b->size() < np || memcmp(b->data(), prior.data(), np)) violate("not-a-prefix:vector", "dump to a vector changed the data that was there before");
            check_delivery(s, "vector", !o.ok, o.injected || o.capped, b->data() + np, b->size() - np, o.type);
            { Scope sc; delete b; }
            if (entry == 0 && cx.chance(1, 4)) {
                Bytes* r = 0;
                o = call([&] { r = new Bytes(dump(s.value())); });
                expect_ok(o, "dump returning a vector");
                check_delivery(s, "vector", false, false, r->data(), r->size(), "");
                Scope sc; delete r;
            }
            break;
        }
        case 1: {
            bool thr = cx.draw(2), buffered = cx.draw(2), exc = cx.draw(2);
            SinkBuf sb(k, thr, buffered);
            std::ostream os(&sb);
            if (exc) os.exceptions(std::ios::badbit | std::ios::failbit);
            Out o = call([&] {
                if (entry == 0) dump(s.value(), os);
                else if (entry == 1) dump(s.value(), os, *lay.l);
                else dump((uint8_t const*)s.val->p, os, *lay.l);
            });
            bool failed = !o.ok || !os.good();
            if (!failed) { try { os.flush(); } catch (...) {} failed = !os.good(); }
            check_delivery(s, "stream", failed, k.fired, (uint8_t const*)k.data.data(), k.data.size(), o.ok ? "stream state" : o.type);
            break;
        }
        case 2: {
            io_fake_fd(&k);
            Out o = call([&] {
                if (entry == 0) dump(s.value(), FAKE_FD);
                else if (entry == 1) dump(s.value(), FAKE_FD, *lay.l);
                else dump((uint8_t const*)s.val->p, FAKE_FD, *lay.l);
            });
            io_fake_fd(0);
            check_delivery(s, "descriptor", !o.ok, k.fired, (uint8_t const*)k.data.data(), k.data.size(), o.type);
            break;
        }
        case 3: {
            FILE* f = io_fake_file(&k);
            int mode = cx.draw(3); char* buf = (char*)malloc(4096);
            if (mode == 0) setvbuf(f, 0, _IONBF, 0); else if (mode == 1) setvbuf(f, buf, _IOFBF, 16 + cx.draw(64)); 
            Out o = call([&] {
                if (entry == 0) dump(s.value(), f);
                else if (entry == 1) dump(s.value(), f, *lay.l);
                else dump((uint8_t const*)s.val->p, f, *lay.l);
            });
            bool failed = !o.ok;
            std::string at_return = k.data;
            if (!failed) { failed = fflush(f) != 0; at_return = k.data; }
            fclose(f); free(buf);
            // what was still buffered may follow when the caller closes its FILE
            check_delivery(s, "FILE", failed, k.fired, (uint8_t const*)at_return.data(), at_return.size(), o.ok ? "fflush" : o.type);
            break;
        }
        default: {
            CallerStream c; c.fail_at = armed ? at : -1; c.std_exc = cx.draw(2);
            Out o = call([&] {
                if (entry == 0) dump(s.value(), c);
                else if (entry == 1) dump(s.value(), c, *lay.l);
                else dump((uint8_t const*)s.val->p, c, *lay.l);
            });
            if (c.fail_at >= 0 && c.calls > c.fail_at && !o.ours) violate("error-swallowed:caller-stream", "the error raised by the caller's stream was not passed on");
            check_delivery(s, "caller-stream", !o.ok, o.ours, c.data.data(), c.data.size(), o.type);
        }
        }
        s.unchanged("dump", raw);
    }
    // later: everything works again
    CallerStream last;
    { Out o = call([&] { dump(s.value(), last, *lay.l); }); expect_ok(o, "dump after failed dumps"); }
    check_delivery(s, "caller-stream", false, false, last.data.data(), last.data.size(), "");
}
Reg r01("C01", c01);

// ------------------------------------------------------------------------------------------------ C02
void c02(Ctx& cx)
{
    Setup s(cx);
    Layout lay(s);
    Bytes raw = s.raw();
    size_t n = s.im.bytes.size();
    int rounds = 1 + cx.draw(5);
    for (int i = 0; i < rounds; ++i) {
        SpanGuard g(cx);
        int entry = s.ent(cx.draw(3));
        if (cx.chance(1, 3)) {
            size_t r = 0;
            auto f = [&] { r = entry == 0 ? getDumpSize(s.value()) : entry == 1 ? getDumpSize(s.value(), *lay.l) : getDumpSize((uint8_t const*)s.val->p, *lay.l); };
            long k = pick_alloc(cx, f, 1, 3);
            Out o = call(f, k);
            logf("dump size: %s %zu", o.ok ? "ok" : o.type.c_str(), r);
            if (o.ok && r != n) violate("dump-size", "announced dump size %zu, image has %zu bytes", r, n);
            if (!o.ok && !o.injected) expect_ok(o, "getDumpSize");
        } else {
            size_t cap;
            switch (cx.draw(7)) {
            case 0: cap = n; break;
            case 1: cap = n ? n - 1 : 0; break;
            case 2: cap = 0; break;
            case 3: cap = n + 1 + cx.draw(20); break;
            case 4: { // at a boundary between two writes of the marshaller
                cap = s.im.counts.empty() ? n / 2 : s.im.counts[cx.draw(s.im.counts.size())].first + cx.draw(9); break; }
            default: cap = cx.draw(n + 1);
            }
            if (cap < n) { count("fault.buffer-too-small"); nontrivial(); }
            uint8_t* b = (uint8_t*)raw_alloc(cap, 0x5A);
            int ret = -1;
            auto f = [&] { ret = entry == 0 ? dump(s.value(), b, cap) : entry == 1 ? dump(s.value(), b, cap, *lay.l) : dump((uint8_t const*)s.val->p, b, cap, *lay.l); };
            long k = pick_alloc(cx, f, 1, 5);
            memset(b, 0x5A, cap); ret = -1;
            Out o = call(f, k);
            logf("dump to %zu bytes entry %d: %s %d", cap, entry, o.ok ? "ok" : o.type.c_str(), ret);
            if (!o.ok) { if (!o.injected) expect_ok(o, "dump to a buffer"); }
            else if (cap < n) { if (ret != 0) violate("overflow-not-reported", "dump of a %zu-byte image into %zu bytes returned %d", n, cap, ret); }
            else if (ret == 0 && o.injected) {}
            else {
                if (ret != (int)n) violate("wrong-size", "dump of a %zu-byte image into %zu bytes returned %d", n, cap, ret);
                if (!image_matches(s.im, b, n)) violate("wrong-image", "dump to a buffer wrote %s instead of %s", hex(b, n).c_str(), hex(s.im.bytes.data(), n).c_str());
                for (size_t j = n; j < cap; ++j) if (b[j] != 0x5A) violate("byte-after-image", "byte %zu of a %zu-byte buffer was changed by the dump of a %zu-byte image", j, cap, n);
            }
            raw_free(b);
        }
        s.unchanged("dump", raw);
    }
    if (n > 0) nontrivial();
}
Reg r02("C02", c02);

// ---- loading ---------------------------------------------------------------------------------------
struct CallerIn : public InputStream {
    uint8_t const* p; size_t n, i = 0, chunk; long fail_at = -1, calls = 0; bool eof_hit = false;
    CallerIn(uint8_t const* p, size_t n, size_t chunk) : p(p), n(n), chunk(chunk) {}
    void read(uint8_t* out, size_t size)
    {
        NoScope ns;
        if (calls++ == fail_at) { count("fault.input-error"); nontrivial(); throw SimFault{2}; }
        while (size) {
            if (i >= n) { eof_hit = true; throw SimFault{3}; }
            size_t k = std::min(std::min(size, chunk), n - i);
            memcpy(out, p + i, k); out += k; i += k; size -= k;
        }
    }
};
// entry: 0..2 vector, 3..5 raw buffer, 6..8 stream
struct Loader {
    Setup& s; Layout& lay;
    CallerIn* in = 0; long in_fail = -1; size_t chunk = 7; size_t consumed = 0; bool eof = false; long in_calls = 0;
    Out load(void* dst, Bytes const& data, int entry, long ak = 0, int burst = 1)
    {
        Value dv(dst, *s.type);
        entry = s.ent(entry);
        if (entry < 3) {
            Bytes* b; { Scope sc; b = new Bytes(data); }
            Out o = call([&] {
                if (entry == 0) Typelib::load(dv, *b);
                else if (entry == 1) Typelib::load(dv, *b, *lay.l);
                else Typelib::load((uint8_t*)dst, *s.type, *b, *lay.l);
            }, ak, burst);
            if (*b != data) violate("input-modified", "load modified its input buffer");
            { Scope sc; delete b; }
            return o;
        }
        uint8_t* b = (uint8_t*)raw_alloc(data.size(), 0);
        memcpy(b, data.data(), data.size());
        Out o;
        if (entry < 6)
            o = call([&] {
                if (entry == 3) Typelib::load(dv, b, data.size());
                else if (entry == 4) Typelib::load(dv, b, data.size(), *lay.l);
                else Typelib::load((uint8_t*)dst, *s.type, b, data.size(), *lay.l);
            }, ak, burst);
        else {
            CallerIn c(b, data.size(), chunk); c.fail_at = in_fail;
            o = call([&] {
                if (entry == 6) Typelib::load(dv, c);
                else if (entry == 7) Typelib::load(dv, c, *lay.l);
                else Typelib::load((uint8_t*)dst, *s.type, c, *lay.l);
            }, ak, burst);
            consumed = c.i; eof = c.eof_hit; in_calls = c.calls;
        }
        if (memcmp(b, data.data(), data.size())) violate("input-modified", "load modified its input buffer");
        raw_free(b);
        return o;
    }
};
// the destination: a value initialised and (maybe) filled by the library or natively
struct Dest {
    Setup& s; void* p; bool live = false; VT content;
    Dest(Setup& s) : s(s), p(raw_alloc(s.t->size, 0xCD)) {}
    ~Dest() { if (live) n_destroy(*s.t, p); raw_free(p); }
    void init()
    {
        Out o = call([&] { Typelib::init(Value(p, *s.type)); });
        expect_ok(o, "init"); live = true;
    }
    void dirty(Ctx& cx)
    {
        if (!live) init();
        switch (cx.draw(4)) {
        case 0: break;
        case 1: case 2: n_write(*s.t, p, s.w.gen_value(*s.t)); break;
        case 3: { VT m = s.w.mutate(*s.t, s.v); n_write(*s.t, p, m); break; }
        }
    }
    VT read() { return n_read(*s.t, p); }
    void destroy()
    {
        Out o = call([&] { Typelib::destroy(Value(p, *s.type)); });
        expect_ok(o, "destroy"); live = false;
    }
};
Bytes noisy_image(Ctx& cx, Image const& im)
{
    Bytes b = im.bytes;
    uint64_t x = cx.draw(2) ? cx.draw(1 << 16) : 0;
    for (size_t i = 0; i < b.size(); ++i) if (!im.care[i]) { x = x * 6364136223846793005ull + 1442695040888963407ull; b[i] = x >> 56; }
    return b;
}
void check_equal(Setup& s, Dest& d, Layout& lay, char const* what)
{
    VT r = d.read();
    if (r != s.v) violate("wrong-value", "%s: loaded %s instead of %s", what, show(*s.t, r).c_str(), show(*s.t, s.v).c_str());
    bool eq = false;
    Out o = call([&] { eq = Typelib::compare(Value(d.p, *s.type), s.value()); });
    expect_ok(o, "compare");
    if (!eq) violate("compare-differs", "%s: the loaded value has the same data but compares different", what);
    CallerStream c;
    o = call([&] { dump(Value(d.p, *s.type), c, *lay.l); });
    expect_ok(o, "dump of the loaded value");
    if (!image_matches(s.im, c.data.data(), c.data.size())) violate("redump-differs", "%s: dumping the loaded value gives another image", what);
}

// ------------------------------------------------------------------------------------------------ C03
void c03(Ctx& cx)
{
    Setup s(cx);
    Layout lay(s);
    Loader L{s, lay};
    Dest d(s); d.init();
    int rounds = 1 + cx.draw(5);
    for (int i = 0; i < rounds; ++i) {
        SpanGuard g(cx);
        if (cx.draw(2)) d.dirty(cx);
        Bytes img = noisy_image(cx, s.im);
        size_t n = img.size();
        int entry = cx.draw(9);
        L.chunk = 1 + cx.draw(9); L.in_fail = -1;
        int kind = cx.draw(4);
        if (kind <= 1 && n > 0) {
            size_t cut = cx.draw(n);
            if (!s.im.counts.empty() && cx.chance(1, 3)) cut = std::min(n - 1, s.im.counts[cx.draw(s.im.counts.size())].first + cx.draw(10));
            img.resize(cut);
            count("fault.truncated"); nontrivial();
            Out o = L.load(d.p, img, entry);
            logf("load of %zu of %zu bytes entry %d: %s", cut, n, entry, o.ok ? "accepted" : o.type.c_str());
            if (o.ok) violate("truncated-accepted", "an image of %zu bytes cut to %zu bytes was accepted (entry %d)", n, cut, entry);
            if (entry >= 6 && !o.ours) violate("error-swallowed", "the error of the caller's stream was replaced by %s", o.type.c_str());
        } else if (kind == 2) {
            size_t extra = 1 + cx.draw(20);
            size_t tp = s.t->trailing();
            if (tp && cx.chance(1, 2)) extra = cx.draw(2) ? tp + 1 + cx.draw(3) : tp;
            for (size_t j = 0; j < extra; ++j) img.push_back(cx.draw(2) ? 0 : 0x77);
            count("fault.overlong"); nontrivial();
            Out o = L.load(d.p, img, entry);
            logf("load with %zu extra bytes entry %d: %s", extra, entry, o.ok ? "accepted" : o.type.c_str());
            if (entry < 6) {
                if (extra == tp) { expect_ok(o, "load of an image followed by the type's trailing padding"); check_equal(s, d, lay, "load with trailing padding"); }
                else if (o.ok) violate("overlong-accepted", "an image followed by %zu extra bytes was accepted (trailing padding is %zu)", extra, tp);
            } else {
                expect_ok(o, "load from a stream with more data");
                if (L.consumed != n) violate("stream-overread", "load consumed %zu bytes of a caller's stream for an image of %zu", L.consumed, n);
            }
        } else {
            entry = 6 + cx.draw(3);
            L.in_fail = -1;
            Out o = L.load(d.p, img, entry);
            expect_ok(o, "load");
            if (!L.in_calls) continue;      // an empty image
            L.in_fail = cx.draw(L.in_calls);
            if (cx.draw(2)) d.dirty(cx);
            o = L.load(d.p, img, entry);
            logf("load with an input error at call %ld of %ld: %s", L.in_fail, L.in_calls, o.ok ? "accepted" : o.type.c_str());
            if (!o.ours) violate("error-swallowed", "the error raised by the caller's stream at read %ld was not passed on (%s)", L.in_fail, o.ok ? "success" : o.type.c_str());
            L.in_fail = -1;
        }
        d.read();            // still a valid value
        if (cx.chance(1, 3)) {
            img = noisy_image(cx, s.im);
            int e2 = cx.draw(9);
            Out o = L.load(d.p, img, e2);
            expect_ok(o, "load of a good image after a refused one");
            check_equal(s, d, lay, "load after a refused load");
        }
    }
    d.destroy();
}
Reg r03("C03", c03);

// ------------------------------------------------------------------------------------------------ C04
void corrupt(Ctx& cx, Image const& im, Bytes& b)
{
    int n = 1 + cx.draw(3);
    for (int i = 0; i < n; ++i) {
        SpanGuard g(cx);
        int k = cx.draw(6);
        if (k <= 1 && !im.counts.empty()) {
            auto c = im.counts[cx.draw(im.counts.size())];
            if (c.first + 8 > b.size()) continue;
            uint64_t x, es = c.second ? c.second : 1;
            switch (cx.draw(9)) {
            case 0: memcpy(&x, &b[c.first], 8); x += 1; break;
            case 1: memcpy(&x, &b[c.first], 8); x -= 1; break;
            case 2: x = cx.draw(100); break;
            case 3: x = (~uint64_t(0)) / es + 1 + cx.draw(4); break;      // size computation wraps around
            case 4: x = (uint64_t(1) << 63) / es + cx.draw(3); break;
            case 5: x = ~uint64_t(0) - cx.draw(4); break;
            case 6: x = uint64_t(1) << cx.draw(64); break;
            case 7: x = (uint64_t(1) << (32 + cx.draw(32))) / es + cx.draw(100); break;
            default: x = cx.draw(1u << 20);
            }
            memcpy(&b[c.first], &x, 8);
            count("fault.corrupt-count");
        } else if (k <= 3) {
            if (b.empty()) continue;
            b[cx.draw(b.size())] ^= 1 << cx.draw(8); count("fault.bit-flip");
        } else if (k == 4) {
            if (b.empty()) continue;
            size_t at = cx.draw(b.size()), m = 1 + cx.draw(9); b.erase(b.begin() + at, b.begin() + std::min(b.size(), at + m)); count("fault.bytes-lost");
        } else {
            size_t at = cx.draw(b.size() + 1), m = 1 + cx.draw(9); b.insert(b.begin() + at, m, cx.draw(2) ? 0 : 0xFF); count("fault.bytes-inserted");
        }
    }
    nontrivial();
}
void c04(Ctx& cx)
{
    Setup s(cx);
    Layout lay(s);
    Loader L{s, lay};
    Dest d(s); d.init();
    g_alloc_cap = size_t(1) << 20;
    int rounds = 1 + cx.draw(5);
    for (int i = 0; i < rounds; ++i) {
        SpanGuard g(cx);
        if (cx.draw(2)) d.dirty(cx);
        Bytes img = noisy_image(cx, s.im);
        corrupt(cx, s.im, img);
        int entry = cx.draw(9); L.chunk = 1 + cx.draw(9);
        Out o = L.load(d.p, img, entry);
        size_t used = entry >= 6 ? L.consumed : img.size();
        logf("load of a corrupt image (%zu bytes, entry %d): %s", img.size(), entry, o.ok ? "accepted" : o.type.c_str());
        VT r = d.read();
        if (o.ok) {
            count("corrupt-accepted");
            Image im2 = image_of(*s.t, r, s.packed);
            CallerStream c;
            Out o2 = call([&] { dump(Value(d.p, *s.type), c, *lay.l); });
            expect_ok(o2, "dump of a loaded value");
            if (!image_matches(im2, c.data.data(), c.data.size())) violate("redump-wrong", "dump of the loaded value is not its image");
            size_t n = im2.bytes.size();
            if (used != n && !(entry < 6 && used == n + s.t->trailing()))
                violate("misread", "a corrupt image of %zu bytes was accepted as a value whose image has %zu bytes", used, n);
            if (!image_prefix(im2, img.data(), n))
                violate("misread", "a corrupt image was accepted but the loaded value %s does not correspond to it", show(*s.t, r).c_str());
        }
        if (cx.chance(1, 3)) {
            img = noisy_image(cx, s.im);
            int e2 = cx.draw(9);
            size_t cap = g_alloc_cap; g_alloc_cap = size_t(1) << 22;
            o = L.load(d.p, img, e2);
            g_alloc_cap = cap;
            expect_ok(o, "load of a good image after a corrupt one");
            check_equal(s, d, lay, "load after a corrupt image");
        }
    }
    g_alloc_cap = size_t(1) << 22;
    d.destroy();
}
Reg r04("C04", c04);

// ------------------------------------------------------------------------------------------------ C05
void c05(Ctx& cx)
{
    Setup s(cx);
    Layout lay(s);
    Loader L{s, lay};
    Bytes raw = s.raw();
    Dest d(s); d.init();
    int rounds = 1 + cx.draw(5);
    for (int i = 0; i < rounds; ++i) {
        SpanGuard g(cx);
        if (i > 0 && cx.draw(2)) {   // send another value the next time
            s.v = cx.draw(2) ? s.w.gen_value(*s.t) : s.w.mutate(*s.t, s.v);
            s.val->make(s.v); s.im = image_of(*s.t, s.v, s.packed); raw = s.raw();
            logf("new value %s", show(*s.t, s.v).c_str());
        }
        // the sender's side
        Bytes img;
        switch (cx.draw(3)) {
        case 0: { Bytes* b; { Scope sc; b = new Bytes; } Out o = call([&] { dump(s.value(), *b, *lay.l); }); expect_ok(o, "dump"); img = *b; Scope sc; delete b; break; }
        case 1: { CallerStream c; Out o = call([&] { if (s.packed) dump(s.value(), c, *lay.l); else dump(s.value(), c); }); expect_ok(o, "dump"); img = c.data; break; }
        default: img = noisy_image(cx, s.im);
        }
        if (!image_matches(s.im, img.data(), img.size())) violate("wrong-image", "the dump is not the value's image");
        // the channel loses the connection a few times
        int fails = cx.draw(3);
        if (cx.draw(2)) d.dirty(cx);
        for (int f = 0; f < fails; ++f) {
            int kind = cx.draw(3), entry = cx.draw(9);
            if (kind == 0) {
                Bytes part(img.begin(), img.begin() + cx.draw(img.size() + 1));
                if (part.size() == img.size()) continue;
                Out o = L.load(d.p, part, entry); count("fault.connection-lost"); nontrivial();
                logf("partial load: %s", o.type.c_str());
                if (o.ok) violate("truncated-accepted", "a partial image was accepted");
            } else if (kind == 1) {
                Dest e(s); e.init();
                Out o = L.load(e.p, img, entry);
                long n = allocs_seen();
                (void)o;
                long k = n ? 1 + cx.draw(n) : 0;
                o = L.load(d.p, img, entry, k, 1 + cx.draw(2));
                logf("load with allocation failure %ld of %ld: %s", k, n, o.ok ? "ok" : o.type.c_str());
                if (!o.ok && !o.injected) expect_ok(o, "load");
                if (o.ok) check_equal(s, d, lay, "load");
                e.destroy();
            } else {
                L.in_fail = cx.draw(6);
                Out o = L.load(d.p, img, 6 + entry % 3);
                L.in_fail = -1;
                if (o.ok) check_equal(s, d, lay, "load");
            }
            d.read();
            if (cx.chance(1, 4)) d.dirty(cx);
        }
        int entry = cx.draw(9); L.chunk = 1 + cx.draw(9);
        if (entry < 6 && cx.chance(1, 4)) img.resize(img.size() + s.t->trailing(), 0x99);
        Out o = L.load(d.p, img, entry);
        logf("load entry %d: %s", entry, o.ok ? "ok" : o.type.c_str());
        expect_ok(o, "load of a complete image");
        check_equal(s, d, lay, "load");
        s.unchanged("the transfer", raw);
        nontrivial();
    }
    d.destroy();
}
Reg r05("C05", c05);

// ------------------------------------------------------------------------------------------------ C06
bool enum_ok(TD const& t, uint8_t const* p)
{
    for (auto& s : t.syms) {
        int64_t x = s.second; bool eq = true;
        for (size_t i = 0; i < t.size; ++i) eq &= p[i] == uint8_t(uint64_t(x) >> (8 * i));
        if (eq) return true;
    }
    return false;
}
void check_init(TD const& t, VT const& v, std::string const& where)
{
    switch (t.kind) {
    case KComp: for (size_t i = 0; i < t.fields.size(); ++i) check_init(*t.fields[i].type, v.kids[i], where + "." + t.fields[i].name); break;
    case KArr: for (size_t i = 0; i < t.dim; ++i) check_init(*t.elem, v.kids[i], where + "[]"); break;
    case KVec: if (!v.kids.empty()) violate("init", "container %s is not empty after init", where.c_str()); break;
    case KStr: if (!v.raw.empty()) violate("init", "string %s is not empty after init", where.c_str()); break;
    case KEnum: if (!enum_ok(t, v.raw.data())) violate("init", "enumeration %s holds %s after init, which is none of its symbols", where.c_str(), hex(v.raw.data(), v.raw.size()).c_str()); break;
    default: break;
    }
}
void c06(Ctx& cx)
{
    GenOpts go; go.max_depth = 1 + cx.draw(4);
    bool ptrs = cx.chance(1, 8);      // types with pointers: only with explicit layouts
    if (ptrs) { go.pointers = true; go.containers = false; }
    World w(cx, go);
    TD* t = w.gen_type();
    w.make_registry();
    Type const* type = &w.type(*t);
    bool packed = cx.chance(1, 5);
    Layout lay(*type, ptrs, packed, cx.draw(2));
    if (packed) count("packed-layout");
    logf("type %s", show(*t).substr(0, 900).c_str());
    state(hash_bytes(show(*t).data(), show(*t).size()));
    struct Slot { void* p; bool live = false; VT v; };
    std::vector<Slot> S(2 + cx.draw(3));
    for (auto& s : S) s.p = raw_alloc(t->size, 0xCD);
    bool faulty = cx.chance(3, 4);
    auto valid = [&](size_t i) { S[i].v = n_read(*t, S[i].p); };
    auto same = [&](size_t i, char const* what) {
        VT r = n_read(*t, S[i].p);
        if (r != S[i].v) violate("wrong-content", "%s: slot %zu holds %s, expected %s", what, i, show(*t, r).c_str(), show(*t, S[i].v).c_str());
    };
    auto disjoint = [&](size_t a, size_t b) {
        std::vector<std::pair<char const*, char const*>> x, y;
        n_storage(*t, S[a].p, x); n_storage(*t, S[b].p, y);
        for (auto& i : x) for (auto& j : y) if (i.first < j.second && j.first < i.second) violate("shared-storage", "a copy shares storage with its source");
    };
    int steps = 2 + cx.draw(14);
    for (int st = 0; st < steps; ++st) {
        SpanGuard g(cx);
        size_t i = cx.draw(S.size()), j = cx.draw(S.size());
        int op = cx.draw(7), form = cx.draw(3);
        if (ptrs) form = op == 3 && S[i].live ? form : !S[i].live ? 1 : op == 1 || op == 2 ? 2 : 1 + form % 2;
        // which allocation of this operation fails (found by asking for more than it makes: no fault)
        long k = faulty && cx.chance(1, 2) ? 1 + cx.small(24) : 0;
        int burst = 1 + cx.draw(2) * cx.draw(4);
        Slot& a = S[i]; Slot& b = S[j];
        if (!a.live) {
            Out o = call([&] {
                if (form == 0) init(Value(a.p, *type)); else if (form == 1) init(Value(a.p, *type), *lay.l); else init((uint8_t*)a.p, *lay.l);
            }, k, burst);
            logf("init %zu form %d k %ld: %s", i, form, k, o.ok ? "ok" : o.type.c_str());
            if (o.ok) { a.live = true; valid(i); check_init(*t, a.v, "value"); }
            else if (!o.injected) expect_ok(o, "init");
            continue;
        }
        same(i, "before the operation");
        switch (op) {
        case 0: {
            Out o = call([&] {
                if (form == 0) zero(Value(a.p, *type)); else if (form == 1) zero(Value(a.p, *type), *lay.l); else zero((uint8_t*)a.p, *lay.l);
            }, k, burst);
            logf("zero %zu k %ld: %s", i, k, o.ok ? "ok" : o.type.c_str());
            if (o.ok) { a.v = zero_value(*t); same(i, "zero"); }
            else { if (!o.injected) expect_ok(o, "zero"); valid(i); }
            break;
        }
        case 1: case 2: {
            if (!b.live) break;
            Out o = call([&] {
                if (form == 0) copy(Value(b.p, *type), Value(a.p, *type)); else if (form == 1) copy(b.p, a.p, *type); else copy(b.p, a.p, *lay.l);
            }, k, burst);
            logf("copy %zu <- %zu form %d k %ld: %s", j, i, form, k, o.ok ? "ok" : o.type.c_str());
            same(i, "source of a copy");
            if (o.ok) { b.v = a.v; same(j, "copy"); if (i != j) disjoint(i, j); }
            else { if (!o.injected) expect_ok(o, "copy"); valid(j); if (i != j) disjoint(i, j); }
            break;
        }
        case 3: {
            if (!b.live) break;
            bool eq = false;
            if (form == 2 && i != j) { n_write(*t, b.p, a.v); b.v = a.v; if (cx.draw(2)) { b.v = w.mutate(*t, a.v); n_write(*t, b.p, b.v); } }
            Out o = call([&] { eq = form == 0 ? compare(a.p, b.p, *type) : compare(Value(a.p, *type), Value(b.p, *type)); }, k, burst);
            logf("compare %zu %zu k %ld: %s %d", i, j, k, o.ok ? "ok" : o.type.c_str(), eq);
            if (o.ok && eq != (a.v == b.v)) violate("compare", "compare says %s for %s and %s", eq ? "equal" : "different", show(*t, a.v).c_str(), show(*t, b.v).c_str());
            if (!o.ok && !o.injected) expect_ok(o, "compare");
            same(i, "compare"); same(j, "compare");
            break;
        }
        case 4: {
            Out o = call([&] {
                if (form == 0) destroy(Value(a.p, *type)); else if (form == 1) destroy(Value(a.p, *type), *lay.l); else destroy((uint8_t*)a.p, *lay.l);
            }, k, burst);
            logf("destroy %zu k %ld: %s", i, k, o.ok ? "ok" : o.type.c_str());
            if (o.ok) { a.live = false; memset(a.p, 0xDB, t->size); }
            else { if (!o.injected) expect_ok(o, "destroy"); valid(i); }
            break;
        }
        case 5: case 6:
            a.v = cx.draw(2) ? w.mutate(*t, a.v) : w.gen_value(*t);
            n_write(*t, a.p, a.v);
            logf("write %zu %s", i, show(*t, a.v, 100).c_str());
            break;
        }
        if (a.live) for (size_t q = 0; q < S.size(); ++q) if (S[q].live) same(q, "after the operation");
        if (t->has_container) nontrivial();
    }
    for (auto& s : S) {
        if (s.live) { Out o = call([&] { destroy(Value(s.p, *type), *lay.l); }); expect_ok(o, "destroy"); }
        raw_free(s.p);
    }
}
Reg r06("C06", c06);

// ------------------------------------------------------------------------------------------------ C07
struct Pred {
    TD const* et; Type const* ety; std::vector<VT>* seen; std::vector<char>* verdict; long throw_at; std::vector<void*>* addrs;
    bool operator()(Value const& v) const
    {
        NoScope ns;
        size_t i = seen->size();
        if ((long)i == throw_at) { count("fault.predicate-throws"); nontrivial(); throw SimFault{4}; }
        if (v.getType() != *ety) record_violation("predicate-type", "the predicate got a value of another type");
        seen->push_back(n_read(*et, v.getData()));
        return i < verdict->size() && (*verdict)[i];
    }
};
struct CountVisitor : public ValueVisitor {
    TD const* et; std::vector<VT> seen; std::vector<Value> vals; long throw_at = -1;
    CountVisitor() : ValueVisitor(true) {}
    void dispatch(Value v)
    {
        NoScope ns;
        if ((long)seen.size() == throw_at) { count("fault.visitor-throws"); nontrivial(); throw SimFault{5}; }
        seen.push_back(n_read(*et, v.getData()));
    }
};
void c07(Ctx& cx)
{
    GenOpts go; go.max_depth = 1 + cx.draw(3);
    World w(cx, go);
    bool is_str = cx.chance(1, 5);
    TD* vt = is_str ? 0 : w.gen_type(1);
    if (vt && !vt->size) is_str = true;           // nothing has size 0 in C++
    TD* t = is_str ? w.string_t() : w.vector_of(vt);
    TD* et = t->elem;
    TD* other = is_str ? w.num(2, Numeric::SInt) : w.num(1, Numeric::UInt);
    if (other == et) other = w.num(2, Numeric::UInt);
    w.make_registry();
    Type const* type = &w.type(*t);
    Container const& C = dynamic_cast<Container const&>(*type);
    Type const& ety = C.getIndirection();
    Type const& oty = w.type(*other);
    logf("container of %s", show(*et).substr(0, 600).c_str());
    state(hash_bytes(show(*t).data(), show(*t).size()));
    struct Slot { void* p; VT v; };
    std::vector<Slot> S(1 + cx.draw(2));
    for (auto& s : S) {
        s.p = raw_alloc(t->size, 0xCD);
        Out o = call([&] { C.init(s.p); }); expect_ok(o, "init");
        s.v = n_read(*t, s.p);
    }
    Val ev(*et), ov(*other);
    auto elems = [&](VT const& v) -> std::vector<VT> {
        if (!is_str) return v.kids;
        std::vector<VT> r; for (auto c : v.raw) { VT e; e.raw.push_back(c); r.push_back(e); } return r;
    };
    auto from = [&](std::vector<VT> const& e) { VT v; if (is_str) for (auto& x : e) v.raw.push_back(x.raw[0]); else v.kids = e; return v; };
    auto read = [&](size_t i) { return n_read(*t, S[i].p); };
    auto same = [&](size_t i, char const* what) {
        VT r = read(i);
        if (r != S[i].v) violate("wrong-sequence", "%s: the container holds %s, expected %s", what, show(*t, r).c_str(), show(*t, S[i].v).c_str());
        size_t n = 0; Out o = call([&] { n = C.getElementCount(S[i].p); }); expect_ok(o, "getElementCount");
        if (n != elems(S[i].v).size()) violate("wrong-count", "%s: element count is %zu, expected %zu", what, n, elems(S[i].v).size());
    };
    bool faulty = cx.chance(3, 4);
    int steps = 2 + cx.draw(24);
    VT pool[3]; for (auto& p : pool) p = w.gen_value(*et, 2);
    for (int st = 0; st < steps; ++st) {
        SpanGuard g(cx);
        size_t i = cx.draw(S.size());
        void* p = S[i].p;
        long k = faulty && cx.chance(1, 3) ? 1 + cx.small(12) : 0;
        std::vector<VT> E = elems(S[i].v);
        int op = cx.draw(16);
        switch (op) {
        default: {   // push
            VT e = cx.draw(2) ? pool[cx.draw(3)] : w.gen_value(*et, 2);
            ev.make(e);
            Out o = call([&] { C.push(p, Value(ev.p, ety)); }, k);
            logf("push %zu %s k %ld: %s", i, show(*et, e, 60).c_str(), k, o.ok ? "ok" : o.type.c_str());
            if (ev.read() != e) violate("argument-modified", "push modified the pushed value");
            if (o.ok) { E.push_back(e); S[i].v = from(E); }
            else {
                if (!o.injected) expect_ok(o, "push");
                // valid container: the elements there before are untouched, at most one was added
                std::vector<VT> N = elems(read(i));
                if (N.size() < E.size() || N.size() > E.size() + 1 || !std::equal(E.begin(), E.end(), N.begin()))
                    violate("push-lost-elements", "an aborted push left %s, before it was %s", show(*t, read(i)).c_str(), show(*t, S[i].v).c_str());
                S[i].v = read(i);
            }
            break;
        }
        case 1: {   // push of one of its own elements
            if (E.empty() || !C.isRandomAccess()) break;
            size_t x = cx.draw(E.size());
            Out o = call([&] { C.push(p, C.getElement(p, x)); }, k);
            logf("push %zu own element %zu k %ld: %s", i, x, k, o.ok ? "ok" : o.type.c_str());
            count("push-own-element");
            if (o.ok) { E.push_back(E[x]); S[i].v = from(E); }
            else { if (!o.injected) expect_ok(o, "push of an own element"); S[i].v = read(i); }
            break;
        }
        case 2: {   // wrong type
            ov.make(w.gen_value(*other));
            bool er = cx.draw(2);
            int how = C.isRandomAccess() && !E.empty() ? cx.draw(4) : 0;
            size_t x = how ? cx.chance(1, 3) ? E.size() - 1 : cx.draw(E.size()) : 0;
            Out o = call([&] {
                if (how > 1) C.setElement(p, x, Value(ov.p, oty));
                else if (er && !is_str) C.erase(p, Value(ov.p, oty));
                else C.push(p, Value(ov.p, oty));
            });
            logf("wrong type (%s): %s", how > 1 ? "setElement" : er && !is_str ? "erase" : "push", o.ok ? "accepted" : o.type.c_str());
            count("fault.wrong-type"); nontrivial();
            if (o.ok) violate("wrong-type-accepted", "a value of type %s was accepted by %s", other->name.c_str(), t->name.c_str());
            break;
        }
        case 3: case 4: {   // erase
            VT e = E.empty() || cx.chance(1, 4) ? w.gen_value(*et, 2) : E[cx.draw(E.size())];
            ev.make(e);
            bool r = false;
            Out o = call([&] { r = C.erase(p, Value(ev.p, ety)); }, k);
            logf("erase %zu %s k %ld: %s %d", i, show(*et, e, 60).c_str(), k, o.ok ? "ok" : o.type.c_str(), r);
            auto it = std::find(E.begin(), E.end(), e);
            if (o.ok) {
                if (r != (it != E.end())) violate("erase-result", "erase returned %d, the element is %s", r, it != E.end() ? "present" : "absent");
                if (it != E.end()) E.erase(it);
                S[i].v = from(E);
            } else { if (!o.injected) expect_ok(o, "erase"); S[i].v = read(i); }
            break;
        }
        case 5: case 6: {   // conditional erase
            std::vector<VT> seen; std::vector<char> verdict(E.size());
            for (auto& x : verdict) x = cx.draw(2);
            long ta = cx.chance(1, 3) ? (long)cx.draw(E.size() + 1) : -1;
            Pred pr{et, &ety, &seen, &verdict, ta, 0};
            Out o = call([&] { C.delete_if(p, pr); }, cx.chance(1, 2) ? 0 : k);
            logf("delete_if %zu throw at %ld: %s, %zu examined", i, ta, o.ok ? "ok" : o.type.c_str(), seen.size());
            std::vector<VT> left;
            for (size_t x = 0; x < E.size(); ++x) if (!verdict[x]) left.push_back(E[x]);
            if (o.ok) {
                if (seen != E) violate("predicate-calls", "conditional erase examined %zu elements of %zu, or not in order", seen.size(), E.size());
                S[i].v = from(left);
            } else if (o.ours) {
                if (seen.size() > E.size() || !std::equal(seen.begin(), seen.end(), E.begin())) violate("predicate-calls", "conditional erase did not examine the elements in order");
                // what was decided before the throw was either applied or not, what was not examined is there
                std::vector<VT> N = elems(read(i)), tail(E.begin() + seen.size(), E.end()), head;
                if (N.size() < tail.size() || !std::equal(tail.begin(), tail.end(), N.end() - tail.size()))
                    violate("predicate-throw-lost-elements", "a throwing predicate made the container lose elements it had not examined");
                S[i].v = read(i);
            } else { if (!o.injected) expect_ok(o, "conditional erase"); S[i].v = read(i); }
            break;
        }
        case 7: {
            Out o = call([&] { C.clear(p); }, k);
            logf("clear %zu: %s", i, o.ok ? "ok" : o.type.c_str());
            if (o.ok) S[i].v = from({}); else { if (!o.injected) expect_ok(o, "clear"); S[i].v = read(i); }
            break;
        }
        case 8: {
            size_t j = cx.draw(S.size());
            if (i == j) break;
            Out o = call([&] { C.copy(S[j].p, p); }, k);
            logf("copy %zu <- %zu k %ld: %s", j, i, k, o.ok ? "ok" : o.type.c_str());
            if (o.ok) S[j].v = S[i].v; else { if (!o.injected) expect_ok(o, "copy"); S[j].v = read(j); }
            same(j, "copy");
            break;
        }
        case 9: {
            if (!C.isRandomAccess() || E.empty()) break;
            size_t x = cx.draw(E.size());
            Value v(0, *type);
            Out o = call([&] { v = C.getElement(p, x); });
            expect_ok(o, "getElement");
            if (v.getType() != ety || n_read(*et, v.getData()) != E[x]) violate("getElement", "element %zu is not what was stored", x);
            break;
        }
        case 10: case 11: {
            if (!C.isRandomAccess() || E.empty()) break;
            size_t x = cx.draw(E.size());
            VT e = cx.draw(2) ? pool[cx.draw(3)] : w.gen_value(*et, 2);
            ev.make(e);
            bool own = cx.chance(1, 4);
            size_t y = own ? cx.draw(E.size()) : 0;
            if (own) { e = E[y]; count("set-own-element"); }
            Out o = call([&] { C.setElement(p, x, own ? C.getElement(p, y) : Value(ev.p, ety)); }, k);
            logf("set %zu[%zu] k %ld: %s", i, x, k, o.ok ? "ok" : o.type.c_str());
            if (o.ok) E[x] = e;
            else { if (!o.injected) expect_ok(o, "setElement"); std::vector<VT> N = elems(read(i)); if (N.size() != E.size()) violate("wrong-sequence", "an aborted assignment changed the element count"); E[x] = N[x]; }
            S[i].v = from(E);
            break;
        }
        case 12: {
            CountVisitor vis; vis.et = et; vis.throw_at = cx.chance(1, 3) ? (long)cx.draw(E.size() + 1) : -1;
            Out o = call([&] { C.visit(p, vis); });
            logf("visit %zu throw at %ld: %zu elements", i, vis.throw_at, vis.seen.size());
            if (o.ok && vis.seen != E) violate("visit", "visiting saw %zu elements of %zu, or others", vis.seen.size(), E.size());
            if (!o.ok && !o.ours) expect_ok(o, "visit");
            break;
        }
        case 13: {
            size_t j = cx.draw(S.size());
            bool eq = false;
            Out o = call([&] { eq = C.compare(p, S[j].p); }, k);
            if (o.ok && eq != (S[i].v == S[j].v)) violate("compare", "containers compare %s", eq ? "equal but differ" : "different but are equal");
            if (!o.ok && !o.injected) expect_ok(o, "compare");
            break;
        }
        case 14: {
            Out o = call([&] { C.destroy(p); }, k);
            logf("destroy+init %zu: %s", i, o.ok ? "ok" : o.type.c_str());
            if (o.ok) { memset(p, 0xDB, t->size); o = call([&] { C.init(p); }); expect_ok(o, "init"); S[i].v = from({}); }
            else { if (!o.injected) expect_ok(o, "destroy"); S[i].v = read(i); }
            break;
        }
        }
        for (size_t q = 0; q < S.size(); ++q) same(q, "after the operation");
        nontrivial();
    }
    for (auto& s : S) { Out o = call([&] { C.destroy(s.p); }); expect_ok(o, "destroy"); raw_free(s.p); }
}
Reg r07("C07", c07);
}
