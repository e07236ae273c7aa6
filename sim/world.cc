#include "world.hh"
#include <cstring>
#include <algorithm>
using namespace Typelib;

namespace sim {
typedef std::vector<uint8_t> Bytes;

size_t TD::trailing() const
{
    if (kind != KComp) return 0;
    size_t m = 0;
    for (auto& f : fields) m = std::max(m, f.off + f.type->size);
    return size - m;
}
// bytes after the last piece of data; *none is set if there is no data at all
static size_t no_data_tail(TD const& t, bool* none)
{
    *none = false;
    if (t.kind != KComp) return 0;
    size_t end = t.size, cut = 0;
    for (auto f = t.fields.rbegin(); f != t.fields.rend(); ++f) {
        cut += end - (f->off + f->type->size);
        bool n; cut += no_data_tail(*f->type, &n);
        if (!n) return cut;
        end = f->off;
    }
    *none = true;
    return cut + end;
}
size_t TD::deep_trailing() const { bool n; return no_data_tail(*this, &n); }

std::string show(TD const& t)
{
    switch (t.kind) {
    case KNum: return t.name;
    case KEnum: return strf("%s{enum%zu}", t.name.c_str(), t.size);
    case KComp: {
        std::string s = t.name + strf("{%zu:", t.size);
        for (auto& f : t.fields) s += strf(" %s@%zu=", f.name.c_str(), f.off) + show(*f.type);
        return s + "}";
    }
    case KArr: return show(*t.elem) + strf("[%zu]", t.dim);
    case KVec: return "vector<" + show(*t.elem) + ">";
    case KStr: return "string";
    case KPtr: return t.elem->name + "*";
    case KOpq: return t.name + strf("(opaque %zu)", t.size);
    }
    return "?";
}
static void show_rec(TD const& t, VT const& v, std::string& s, size_t max)
{
    if (s.size() > max) return;
    switch (t.kind) {
    case KNum: case KEnum: case KPtr: case KOpq: s += hex(v.raw.data(), v.raw.size()); break;
    case KStr: s += "\"" + hex(v.raw.data(), v.raw.size()) + "\""; break;
    case KComp: s += "{"; for (size_t i = 0; i < v.kids.size(); ++i) { if (i) s += " "; show_rec(*t.fields[i].type, v.kids[i], s, max); } s += "}"; break;
    default: s += "["; for (size_t i = 0; i < v.kids.size(); ++i) { if (i) s += " "; show_rec(*t.elem, v.kids[i], s, max); } s += "]"; break;
    }
}
std::string show(TD const& t, VT const& v, size_t max) { std::string s; show_rec(t, v, s, max); if (s.size() > max) s = s.substr(0, max) + "..."; return s; }

World::~World()
{
    if (reg) { Registry* r = reg; reg = 0; Scope s; delete r; }
}
TD* World::add(TD const& t)
{
    auto it = by_name.find(t.name);
    if (it != by_name.end()) return it->second;
    tds.push_back(t);
    TD* p = &tds.back();
    by_name[p->name] = p;
    order.push_back(p);
    return p;
}
TD* World::num(size_t size, int cat)
{
    TD t; t.kind = KNum; t.size = t.align = size; t.cat = cat;
    char const* pre = cat == Numeric::SInt ? "/int" : cat == Numeric::UInt ? "/uint" : "/float";
    t.name = strf("%s%zu_t", pre, size * 8);
    if (cat == Numeric::Float) t.name = size == 4 ? "/float" : "/double";
    return add(t);
}
TD* World::array_of(TD* e, size_t dim)
{
    TD t; t.kind = KArr; t.elem = e; t.dim = dim; t.size = dim * e->size; t.align = e->align;
    t.name = e->name + strf("[%zu]", dim);
    t.has_container = e->has_container; t.has_ptr = e->has_ptr; t.has_opq = e->has_opq;
    return add(t);
}
TD* World::vector_of(TD* e)
{
    TD t; t.kind = KVec; t.elem = e; t.size = sizeof(std::vector<void*>); t.align = 8;
    t.name = "/std/vector<" + e->name + ">";
    t.has_container = true; t.has_ptr = e->has_ptr; t.has_opq = e->has_opq;
    return add(t);
}
TD* World::string_t()
{
    TD* c = num(1, Numeric::SInt);
    TD t; t.kind = KStr; t.elem = c; t.size = sizeof(std::string); t.align = 8; t.name = "/std/string";
    t.has_container = true;
    return add(t);
}
TD* World::ptr_of(TD* e)
{
    TD t; t.kind = KPtr; t.elem = e; t.size = t.align = sizeof(void*); t.name = e->name + "*"; t.has_ptr = true;
    return add(t);
}

TD* World::gen_compound(int depth)
{
    TD t; t.kind = KComp;
    static char const* ns[] = { "/", "/a/", "/a/b/", "/NS/" };
    std::string nm = std::string(ns[cx.draw(4)]) + strf("C%d", counter++);
    int style = cx.draw(4);    // 0/1 natural, 2 packed, 3 with gaps
    int n = 1 + cx.draw(depth >= 2 ? 3 : 5);
    bool none = depth > 0 && cx.chance(1, 12);    // an empty structure
    if (none) n = 0;
    size_t off = 0, align = 1;
    for (int i = 0; i < n; ++i) {
        TD* ft = gen_type(depth + 1);
        size_t a = style == 2 ? 1 : ft->align;
        off = (off + a - 1) / a * a;
        if (style == 3) off += a * cx.draw(3);
        t.fields.push_back(FD{strf("f%d", i), ft, off});
        off += ft->size;
        align = std::max(align, a);
        t.has_container |= ft->has_container; t.has_ptr |= ft->has_ptr; t.has_opq |= ft->has_opq;
    }
    t.size = (off + align - 1) / align * align;
    if (style == 3) t.size += align * cx.draw(3);
    if (none) { static size_t sz[] = {1, 0, 3}; t.size = sz[cx.draw(3)]; }
    t.align = align; t.name = nm;
    return add(t);
}

TD* World::gen_type(int depth)
{
    SpanGuard g(cx);
    enum { N, E, C, A, V, S, P, O };
    std::vector<int> pick;
    pick.push_back(N);
    bool deep = depth >= opt.max_depth;
    if (opt.enums) pick.push_back(E);
    if (opt.containers) pick.push_back(S);
    if (opt.pointers) pick.push_back(P);
    if (opt.opaques) pick.push_back(O);
    if (!deep) {
        pick.push_back(C); pick.push_back(A);
        if (depth == 0) { pick.push_back(C); pick.push_back(C); pick.push_back(C); }
        if (opt.containers) { pick.push_back(V); pick.push_back(V); if (depth == 0) pick.push_back(V); }
    }
    // reuse an existing type sometimes
    if (order.size() > 2 && depth > 0 && cx.chance(1, 6)) {
        TD* t = order[cx.draw(order.size())];
        if ((opt.containers || !t->has_container) && (opt.pointers || !t->has_ptr)) return t;
    }
    switch (pick[cx.draw(pick.size())]) {
    case E: {
        TD t; t.kind = KEnum; t.size = t.align = 4; t.name = strf("/E%d", counter++);
        if (opt.odd_enums && cx.chance(1, 4)) { static size_t sz[] = {1, 2, 8}; t.size = t.align = sz[cx.draw(3)]; }
        int n = 1 + cx.draw(4);
        static int vals[] = {0, 1, 2, -1, 100, 127, 200, -128, 70000, 2147483647};
        for (int i = 0; i < n; ++i) t.syms.push_back({strf("%c%d", "zmaQ"[i % 4], i), vals[cx.draw(10)]});
        return add(t);
    }
    case C: return gen_compound(depth);
    case A: {
        TD* e = gen_type(depth + 1);
        size_t d = 1 + cx.draw(4);
        if (e->kind == KArr && d * e->dim > 16) d = 1;
        if (e->size * d > 2000) d = 1;
        return array_of(e, d);
    }
    case V: { TD* e = gen_type(depth + 1); return e->size ? vector_of(e) : string_t(); }
    case S: return string_t();
    case P: { TD* e = gen_type(depth + 2); return ptr_of(e->name.find_first_of("[>") == std::string::npos ? e : num(4, Numeric::SInt)); }
    case O: {
        TD t; t.kind = KOpq; t.size = 1 + cx.draw(12); t.align = 1; t.name = strf("/O%d", counter++); t.has_opq = true;
        return add(t);
    }
    default: {
        static struct { size_t s; int c; } k[] = {
            {4, Numeric::SInt}, {1, Numeric::UInt}, {8, Numeric::UInt}, {2, Numeric::SInt}, {1, Numeric::SInt},
            {8, Numeric::SInt}, {4, Numeric::UInt}, {2, Numeric::UInt}, {8, Numeric::Float}, {4, Numeric::Float} };
        auto& x = k[cx.draw(10)];
        return num(x.s, x.c);
    }
    }
}

void World::define(Registry& r, TD const& t)
{
    if (r.get(t.name)) return;
    switch (t.kind) {
    case KNum: r.add(new Numeric(t.name, t.size, (Numeric::NumericCategory)t.cat)); break;
    case KEnum: {
        std::unique_ptr<Enum> e(new Enum(t.name));
        for (auto& s : t.syms) e->add(s.first, s.second);
        e->setSize(t.size);
        r.add(e.get()); e.release();
        break;
    }
    case KComp: {
        std::unique_ptr<Compound> c(new Compound(t.name));
        for (auto& f : t.fields) c->addField(f.name, *r.get(f.type->name), f.off);
        c->setSize(t.size);
        r.add(c.get()); c.release();
        break;
    }
    case KArr: r.add(new Array(*r.get(t.elem->name), t.dim)); break;
    case KVec: Container::createContainer(r, "/std/vector", *r.get(t.elem->name)); break;
    case KStr: Container::createContainer(r, "/std/string", *r.get(t.elem->name)); break;
    case KPtr: r.add(new Pointer(*r.get(t.elem->name))); break;
    case KOpq: r.add(new OpaqueType(t.name, t.size)); break;
    }
}
void World::make_registry()
{
    Out o = call([&] { reg = new Registry; });
    expect_ok(o, "creating a registry");
    for (TD* t : order) {
        o = call([&] { define(*reg, *t); });
        expect_ok(o, ("defining " + t->name).c_str());
    }
}

VT World::gen_value(TD const& t, int depth, size_t)
{
    if (depth == 0) budget = 0;
    VT v;
    switch (t.kind) {
    case KNum: case KPtr: case KOpq: {
        v.raw.resize(t.size);
        uint64_t x = cx.draw(3) ? cx.draw(1u << 16) * 0x9e3779b97f4a7c15ull : cx.draw(3);
        for (size_t i = 0; i < t.size; ++i) { v.raw[i] = x; x = (x >> 8) | (x << 56); }
        break;
    }
    case KEnum: {
        v.raw.resize(t.size);
        int64_t x = t.syms[cx.draw(t.syms.size())].second;
        for (size_t i = 0; i < t.size; ++i) v.raw[i] = (uint64_t)x >> (8 * i);
        break;
    }
    case KComp: for (auto& f : t.fields) v.kids.push_back(gen_value(*f.type, depth + 1)); break;
    case KArr: for (size_t i = 0; i < t.dim; ++i) v.kids.push_back(gen_value(*t.elem, depth + 1)); break;
    case KVec: {
        SpanGuard g(cx);
        size_t mx = budget > 200 ? 1 : depth >= 4 ? 2 : depth >= 2 ? 3 : 5;
        size_t n = cx.draw(mx + 1);
        if (depth <= 1 && !t.elem->has_container && cx.chance(1, 12)) n = 6 + cx.draw(40);
        for (size_t i = 0; i < n; ++i) { ++budget; v.kids.push_back(gen_value(*t.elem, depth + 1)); }
        break;
    }
    case KStr: {
        // around the small-string limit (15) as well
        static size_t ln[] = {0, 1, 5, 15, 16, 17, 40};
        size_t n = ln[cx.draw(7)];
        uint64_t x = cx.draw(1 << 16);
        for (size_t i = 0; i < n; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; v.raw.push_back(x >> 56); }
        break;
    }
    }
    return v;
}

static void count_slots(TD const& t, VT const& v, size_t& n)
{
    switch (t.kind) {
    case KComp: for (size_t i = 0; i < v.kids.size(); ++i) count_slots(*t.fields[i].type, v.kids[i], n); break;
    case KArr: for (auto& k : v.kids) count_slots(*t.elem, k, n); break;
    case KVec: ++n; for (auto& k : v.kids) count_slots(*t.elem, k, n); break;
    default: ++n;
    }
}
static bool mut_slot(World& w, TD const& t, VT& v, size_t& n)
{
    switch (t.kind) {
    case KComp: for (size_t i = 0; i < v.kids.size(); ++i) if (mut_slot(w, *t.fields[i].type, v.kids[i], n)) return true; return false;
    case KArr: for (auto& k : v.kids) if (mut_slot(w, *t.elem, k, n)) return true; return false;
    case KVec:
        if (n-- == 0) {
            if (!v.kids.empty() && w.cx.draw(2)) v.kids.pop_back(); else v.kids.push_back(w.gen_value(*t.elem, 4));
            return true;
        }
        for (auto& k : v.kids) if (mut_slot(w, *t.elem, k, n)) return true;
        return false;
    case KStr:
        if (n-- == 0) { if (!v.raw.empty() && w.cx.draw(2)) v.raw[w.cx.draw(v.raw.size())] ^= 1; else v.raw.push_back('x'); return true; }
        return false;
    default:
        if (n-- == 0) { v.raw[w.cx.draw(v.raw.size())] ^= 1 << w.cx.draw(8); return true; }
        return false;
    }
}
VT World::mutate(TD const& t, VT const& v)
{
    VT r = v;
    size_t n = 0; count_slots(t, v, n);
    if (!n) return r;
    size_t k = cx.draw(n);
    mut_slot(*this, t, r, k);
    return r;
}

// ---- native memory operations ---------------------------------------------------------------------
void* raw_alloc(size_t n, int b) { Scope s; char* p = new char[n]; memset(p, b, n); return p; }
void raw_free(void* p) { Scope s; delete[] (char*)p; }

static Bytes& vec(void* p) { return *(Bytes*)p; }
static Bytes const& vec(void const* p) { return *(Bytes const*)p; }
static std::string& str(void* p) { return *(std::string*)p; }

static void construct_rec(TD const& t, char* p)
{
    switch (t.kind) {
    case KComp: for (auto& f : t.fields) construct_rec(*f.type, p + f.off); break;
    case KArr: for (size_t i = 0; i < t.dim; ++i) construct_rec(*t.elem, p + i * t.elem->size); break;
    case KVec: new (p) Bytes(); break;
    case KStr: new (p) std::string(); break;
    default: break;
    }
}
static void destroy_rec(TD const& t, char* p)
{
    switch (t.kind) {
    case KComp: for (auto& f : t.fields) destroy_rec(*f.type, p + f.off); break;
    case KArr: for (size_t i = 0; i < t.dim; ++i) destroy_rec(*t.elem, p + i * t.elem->size); break;
    case KVec: {
        Bytes& v = vec((void*)p);
        if (t.elem->has_container) for (size_t i = 0; i + t.elem->size <= v.size(); i += t.elem->size) destroy_rec(*t.elem, (char*)&v[i]);
        v.~Bytes();
        break;
    }
    case KStr: { typedef std::string S; str(p).~S(); break; }
    default: break;
    }
}
static void write_rec(TD const& t, char* p, VT const& v)
{
    switch (t.kind) {
    case KComp: for (size_t i = 0; i < t.fields.size(); ++i) write_rec(*t.fields[i].type, p + t.fields[i].off, v.kids[i]); break;
    case KArr: for (size_t i = 0; i < t.dim; ++i) write_rec(*t.elem, p + i * t.elem->size, v.kids[i]); break;
    case KVec: {
        Bytes& b = vec((void*)p);
        size_t es = t.elem->size;
        if (t.elem->has_container) for (size_t i = 0; i + es <= b.size(); i += es) destroy_rec(*t.elem, (char*)&b[i]);
        { Bytes e; b.swap(e); }
        b.resize(v.kids.size() * es);
        for (size_t i = 0; i < v.kids.size(); ++i) { construct_rec(*t.elem, (char*)&b[i * es]); write_rec(*t.elem, (char*)&b[i * es], v.kids[i]); }
        break;
    }
    case KStr: str(p).assign((char const*)v.raw.data(), v.raw.size()); break;
    default: memcpy(p, v.raw.data(), t.size);
    }
}
static void read_rec(TD const& t, char const* p, VT& v)
{
    switch (t.kind) {
    case KComp:
        v.kids.resize(t.fields.size());
        for (size_t i = 0; i < t.fields.size(); ++i) read_rec(*t.fields[i].type, p + t.fields[i].off, v.kids[i]);
        break;
    case KArr:
        v.kids.resize(t.dim);
        for (size_t i = 0; i < t.dim; ++i) read_rec(*t.elem, p + i * t.elem->size, v.kids[i]);
        break;
    case KVec: {
        Bytes const& b = vec((void const*)p);
        size_t es = t.elem->size;
        if (b.size() % es) violate("broken-value", "container of %s holds %zu bytes, not a multiple of %zu", t.elem->name.c_str(), b.size(), es);
        v.kids.resize(b.size() / es);
        for (size_t i = 0; i < v.kids.size(); ++i) read_rec(*t.elem, (char const*)&b[i * es], v.kids[i]);
        break;
    }
    case KStr: { std::string const& s = *(std::string const*)p; v.raw.assign(s.begin(), s.end()); break; }
    default: v.raw.assign((uint8_t const*)p, (uint8_t const*)p + t.size);
    }
}
void n_construct(TD const& t, void* p) { Scope s; construct_rec(t, (char*)p); }
void n_destroy(TD const& t, void* p) { Scope s; destroy_rec(t, (char*)p); }
void n_write(TD const& t, void* p, VT const& v) { Scope s; write_rec(t, (char*)p, v); }
VT n_read(TD const& t, void const* p) { NoScope s; VT v; read_rec(t, (char const*)p, v); return v; }
VT zero_value(TD const& t)
{
    VT v;
    switch (t.kind) {
    case KComp: for (auto& f : t.fields) v.kids.push_back(zero_value(*f.type)); break;
    case KArr: for (size_t i = 0; i < t.dim; ++i) v.kids.push_back(zero_value(*t.elem)); break;
    case KVec: case KStr: break;
    default: v.raw.resize(t.size);
    }
    return v;
}
static void storage_rec(TD const& t, char const* p, std::vector<std::pair<char const*, char const*>>& out)
{
    switch (t.kind) {
    case KComp: for (auto& f : t.fields) storage_rec(*f.type, p + f.off, out); break;
    case KArr: for (size_t i = 0; i < t.dim; ++i) storage_rec(*t.elem, p + i * t.elem->size, out); break;
    case KVec: {
        Bytes const& b = vec((void const*)p);
        if (b.capacity()) out.push_back({(char const*)b.data(), (char const*)b.data() + b.capacity()});
        for (size_t i = 0; i + t.elem->size <= b.size(); i += t.elem->size) storage_rec(*t.elem, (char const*)&b[i], out);
        break;
    }
    case KStr: { std::string const& s = *(std::string const*)p; out.push_back({s.data(), s.data() + s.capacity() + 1}); break; }
    default: break;
    }
}
void n_storage(TD const& t, void const* p, std::vector<std::pair<char const*, char const*>>& out) { NoScope s; storage_rec(t, (char const*)p, out); }
void n_padding(TD const& t, size_t off, std::vector<char>& m)
{
    if (t.kind == KArr) { for (size_t i = 0; i < t.dim; ++i) n_padding(*t.elem, off + i * t.elem->size, m); return; }
    if (t.kind != KComp) { for (size_t i = 0; i < t.size; ++i) m[off + i] = 0; return; }
    for (size_t i = 0; i < t.size; ++i) m[off + i] = 1;
    for (auto& f : t.fields) n_padding(*f.type, off + f.off, m);
}

// ---- reference image -------------------------------------------------------------------------------
static void put(Image& im, uint8_t const* p, size_t n, bool care) { im.bytes.insert(im.bytes.end(), p, p + n); im.care.insert(im.care.end(), n, care); }
static void pad(Image& im, size_t n) { if (im.packed) return; im.bytes.insert(im.bytes.end(), n, 0); im.care.insert(im.care.end(), n, 0); }
static void image_rec(TD const& t, VT const& v, Image& im)
{
    switch (t.kind) {
    case KComp: {
        size_t cur = 0;
        for (size_t i = 0; i < t.fields.size(); ++i) {
            pad(im, t.fields[i].off - cur);
            image_rec(*t.fields[i].type, v.kids[i], im);
            cur = t.fields[i].off + t.fields[i].type->size;
        }
        pad(im, t.size - cur);
        break;
    }
    case KArr: for (auto& k : v.kids) image_rec(*t.elem, k, im); break;
    case KVec: {
        uint64_t n = v.kids.size();
        im.counts.push_back({im.bytes.size(), t.elem->size});
        put(im, (uint8_t*)&n, 8, true);
        for (auto& k : v.kids) image_rec(*t.elem, k, im);
        break;
    }
    case KStr: { uint64_t n = v.raw.size(); im.counts.push_back({im.bytes.size(), 1}); put(im, (uint8_t*)&n, 8, true); put(im, v.raw.data(), n, true); break; }
    default: put(im, v.raw.data(), v.raw.size(), true);
    }
}
Image image_of(TD const& t, VT const& v, bool packed)
{
    Image im; im.packed = packed;
    image_rec(t, v, im);
    if (packed) return im;
    size_t d = t.deep_trailing();
    im.bytes.resize(im.bytes.size() - d); im.care.resize(im.bytes.size());
    return im;
}
bool image_prefix(Image const& im, uint8_t const* p, size_t n)
{
    if (n > im.bytes.size()) return false;
    for (size_t i = 0; i < n; ++i) if (im.care[i] && im.bytes[i] != p[i]) return false;
    return true;
}
bool image_matches(Image const& im, uint8_t const* p, size_t n) { return n == im.bytes.size() && image_prefix(im, p, n); }
bool has_data(TD const& t) { return t.size > 0; }
}

namespace sim {
int enum_int(TD const& t, void const* p)
{
    int64_t x = 0;
    memcpy(&x, p, t.size);                      // this is a little-endian machine
    bool sg = false;
    for (auto& y : t.syms) sg |= y.second < 0;
    if (t.size == 1) return sg ? (int8_t)x : (uint8_t)x;
    if (t.size == 2) return sg ? (int16_t)x : (uint16_t)x;
    return (int)x;
}
}
