// Helpers of the demonstration: builds types, values and images by hand.
#include <typelib/registry.hh>
#include <typelib/registryiterator.hh>
#include <typelib/typemodel.hh>
#include <typelib/typebuilder.hh>
#include <typelib/typedisplay.hh>
#include <typelib/value.hh>
#include <typelib/value_ops.hh>
#include <typelib/memory_layout.hh>
#include <typelib/pluginmanager.hh>
#include <typelib/importer.hh>
#include <typelib/exporter.hh>
#include <typelib/utilmm/configset.hh>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
using namespace Typelib;
using std::string;
using std::vector;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "line %d: %s does not hold\n", __LINE__, #c); _exit(1); } } while (0)
#include <unistd.h>
// adds a numeric type
static inline Type const& num(Registry& r, string const& n, size_t s, Numeric::NumericCategory c = Numeric::SInt)
{
    if (!r.has(n, false)) r.add(new Numeric(n, s, c));
    return *r.get(n);
}
static inline Type const& vec(Registry& r, Type const& t) { return Container::createContainer(r, "/std/vector", t); }
static inline Type const& str(Registry& r) { return *r.get("/std/string"); }
// a registry with the usual scalar types and /std/string
struct Std : Registry
{
    Std()
    {
        num(*this, "/int8_t", 1); num(*this, "/int16_t", 2); num(*this, "/int32_t", 4); num(*this, "/int64_t", 8);
        num(*this, "/uint8_t", 1, Numeric::UInt); num(*this, "/uint16_t", 2, Numeric::UInt); num(*this, "/uint32_t", 4, Numeric::UInt);
        num(*this, "/float", 4, Numeric::Float); num(*this, "/double", 8, Numeric::Float);
        Container::createContainer(*this, "/std/string", *get("/int8_t"));
    }
};
template<typename F> static bool throws(F f) { try { f(); } catch (std::exception const&) { return true; } return false; }
