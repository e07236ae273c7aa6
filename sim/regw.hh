// Registry worlds: a universe of type definitions, snapshots, consistency scan, operations.
#ifndef SIM_REGW_HH
#define SIM_REGW_HH
#include "core.hh"
#include <typelib/registry.hh>
#include <typelib/registryiterator.hh>
#include <typelib/typemodel.hh>
#include <typelib/typebuilder.hh>
#include <typelib/pluginmanager.hh>
#include <map>
#include <set>
#include <memory>

namespace sim {
// ---- the universe: names and, for each, two alternative definitions ---------------------------------
enum Mod { M_NONE, M_ARR, M_PTR, M_VEC, M_STR, M_ARR2 };
struct UField { std::string name; int of; int mod; size_t dim; size_t gap; };
enum UKind { U_NUM, U_ENUM, U_OPQ, U_COMP, U_NULL };
struct UDef {
    UKind kind; size_t size = 4; int cat = 0; std::vector<std::pair<std::string, int>> syms;
    std::vector<UField> fields; size_t pad = 0; bool rec = false;
};
struct UType { std::string name; UDef def[2]; };
struct Universe {
    std::vector<UType> types;
    std::vector<std::string> alias_names;     // names used for aliases only
    bool ptrs = true, recs = true, conts = true, nulls = false, odd = false, multi = true, tmpl = false;
    void gen(Ctx& cx, int n);
    std::string any_name(Ctx& cx) const;
};
std::string mod_name(std::string const& base, int mod, size_t dim);

// ---- observation -------------------------------------------------------------------------------------
struct RName { Typelib::Type const* t; bool alias, persistent; std::string source; };
struct Snap {
    std::map<std::string, RName> names;
    std::map<Typelib::Type const*, std::string> defs;    // shallow definition
    std::map<Typelib::Type const*, std::string> meta;    // metadata
};
std::string def_of(Typelib::Type const& t);
std::string meta_of(Typelib::Type const& t);
Snap snap(Typelib::Registry const& r);
std::string snap_diff(Snap const& a, Snap const& b, bool with_meta = true);   // empty when equal (same objects too)
std::string content_of(Typelib::Registry const& r, bool with_meta = true, bool persistent_only = false);   // address independent description
// every name designates one live type registered under its own name, and so do all its dependencies
void scan(Typelib::Registry const& r, std::set<std::string> const& used, char const* after);
bool ref_name_less(std::string const& a, std::string const& b);
// independent structural comparison; path of the first difference in *why
bool same_struct(Typelib::Type const& a, Typelib::Type const& b, std::string* why = 0);
std::string strip_mods(std::string const& name, std::string* mods = 0);
std::string resolve(std::map<std::string, RName> const& names, std::string const& ns, std::string const& name);   // reference name lookup: absolute name or ""
std::set<std::string> alias_closure(Snap const& s, std::set<std::string> names);   // adds the derived names implied by aliases

// ---- operations --------------------------------------------------------------------------------------
struct Reg1 {
    Typelib::Registry* r = 0;
    Reg1();
    ~Reg1();
    Reg1(Reg1 const&) = delete;
    Typelib::Registry& operator*() { return *r; }
    Typelib::Registry* operator->() { return r; }
};
// defines type i of the universe (variant v) and, without faults, what it needs
Out define_one(Universe const& u, Typelib::Registry& r, int i, int v, bool persistent_default = true, std::string const& source = "", long ak = 0, int burst = 1, std::string const& as = "");
void define_deep(Universe const& u, Typelib::Registry& r, Ctx& cx, int i, int v, unsigned other_den, int depth = 0);   // with dependencies
Out derive(Typelib::Registry& r, std::string const& base, int mod, size_t dim, long ak = 0, int burst = 1);
void populate(Universe const& u, Typelib::Registry& r, Ctx& cx, int steps, unsigned other_den, bool aliases, bool metadata = false);
// recreates the types, aliases, metadata and sources of a registry in another order
void rebuild(Typelib::Registry const& src, Typelib::Registry& dst, Ctx& cx);
void gen_metadata(Ctx& cx, Typelib::Registry& r, bool fields);
std::string weird_text(Ctx& cx, int maxlen, bool xml_ok = true);
}
#endif
