// Reference model of types and values, independent of the library: type descriptions (TD), value
// trees (VT), native construction/reading/writing of typed memory, reference marshalled image.
#ifndef SIM_WORLD_HH
#define SIM_WORLD_HH
#include "core.hh"
#include <typelib/registry.hh>
#include <typelib/registryiterator.hh>
#include <typelib/typemodel.hh>
#include <typelib/value.hh>
#include <typelib/value_ops.hh>
#include <typelib/memory_layout.hh>
#include <deque>
#include <memory>

namespace sim {
enum Kind { KNum, KEnum, KComp, KArr, KVec, KStr, KPtr, KOpq };
struct TD;
struct FD { std::string name; TD* type; size_t off; };
struct TD {
    Kind kind; std::string name; size_t size = 0, align = 1;
    int cat = 0;                                   // numeric category (Typelib::Numeric::...)
    std::vector<std::pair<std::string, int>> syms; // in insertion order
    std::vector<FD> fields;
    TD* elem = 0; size_t dim = 0;
    bool has_container = false, has_ptr = false, has_opq = false;
    size_t trailing() const;                       // bytes after the last field (top level only)
    size_t deep_trailing() const;                  // recursively through last fields
};

// Value tree
struct VT {
    std::vector<uint8_t> raw;      // scalars
    std::vector<VT> kids;          // fields, elements
    bool operator==(VT const& o) const { return raw == o.raw && kids == o.kids; }
    bool operator!=(VT const& o) const { return !(*this == o); }
};
std::string show(TD const& t, VT const& v, size_t max = 400);
std::string show(TD const& t);

struct Image {
    bool packed = false;          // without padding (a layout that does not merge padding with data)
    std::vector<uint8_t> bytes; std::vector<uint8_t> care;
    std::vector<std::pair<size_t, size_t>> counts;   // offset of each element count, element size
};

// what a visitor sees of an enumeration
int enum_int(TD const& t, void const* p);
struct GenOpts {
    bool containers = true, pointers = false, opaques = false, enums = true;
    bool odd_enums = true;        // enum sizes other than 4
    int max_depth = 4;
    bool small = true;            // keep values small
    bool plain_top = false;
};

struct World {
    Ctx& cx;
    GenOpts opt;
    std::deque<TD> tds;
    std::vector<TD*> order;        // creation order
    Typelib::Registry* reg = 0;
    int counter = 0;
    std::map<std::string, TD*> by_name;

    World(Ctx& cx, GenOpts const& o = GenOpts()) : cx(cx), opt(o) {}
    ~World();

    TD* gen_type(int depth = 0);
    TD* gen_compound(int depth);
    TD* num(size_t size, int cat);
    TD* array_of(TD* e, size_t dim);
    TD* vector_of(TD* e);
    TD* string_t();
    TD* ptr_of(TD* e);
    TD* add(TD const& t);

    void make_registry();                                   // creates all types in `order`
    static void define(Typelib::Registry& r, TD const& t);  // requires dependencies to be defined
    Typelib::Type const& type(TD const& t) { Typelib::Type const* p = reg->get(t.name); if (!p) violate("harness", "type %s not in the registry", t.name.c_str()); return *p; }

    VT gen_value(TD const& t, int depth = 0, size_t budget = 0);
    VT mutate(TD const& t, VT const& v);                    // a value that differs in one datum
    size_t budget = 0;
};

// native operations (never call the library); contents live in the simulated heap
void* raw_alloc(size_t n, int fillbyte);     // exact size block in the simulated heap
void raw_free(void* p);
void n_construct(TD const& t, void* p);      // containers constructed, other bytes untouched
void n_destroy(TD const& t, void* p);
void n_write(TD const& t, void* p, VT const& v);   // into a constructed value
VT n_read(TD const& t, void const* p);
VT zero_value(TD const& t);
// collects the [begin,end) data pointers of all container storage
void n_storage(TD const& t, void const* p, std::vector<std::pair<char const*, char const*>>& out);
void n_padding(TD const& t, size_t off, std::vector<char>& mask);   // 1 = padding byte
bool has_data(TD const& t);

Image image_of(TD const& t, VT const& v, bool packed = false);
bool image_matches(Image const& im, uint8_t const* p, size_t n);        // exact size
bool image_prefix(Image const& im, uint8_t const* p, size_t n);

struct Val {                    // a value of the simulated program
    TD const* t; void* p; bool live = false;
    Val(TD const& t, int fillbyte = 0xCD) : t(&t), p(raw_alloc(t.size, fillbyte)) {}
    ~Val() { if (live) n_destroy(*t, p); raw_free(p); }
    Val(Val const&) = delete;
    void make(VT const& v) { if (!live) { n_construct(*t, p); live = true; } n_write(*t, p, v); }
    VT read() const { return n_read(*t, p); }
};
}
#endif
