#include <typelib/pluginmanager.hh>
#include <typelib/plugins.hh>
#include <typelib/importer.hh>
#include <typelib/exporter.hh>
#include <typelib/registry.hh>
#include <typelib/typemodel.hh>
#include <iostream>
#include <memory>
template<int N> struct Imp : public Typelib::Importer {
    void load(std::istream&, utilmm::config_set const&, Typelib::Registry& r) { r.add(new Typelib::Numeric("/imported" + std::string(1, '0' + N), N, Typelib::Numeric::UInt)); }
    void load(std::string const&, utilmm::config_set const&, Typelib::Registry&) {}
};
template<int N> struct Exp : public Typelib::Exporter {
    bool save(std::ostream& s, Typelib::RegistryIterator const& t) { return true; }
    void save(std::ostream& s, utilmm::config_set const&, Typelib::Registry const&) { s << "exported by " << N; }
};
template<int N> struct Def : public Typelib::TypeDefinitionPlugin {
    void registerTypes(Typelib::Registry& r) { r.add(new Typelib::Numeric("/plug/T" + std::string(1, '0' + N), N, Typelib::Numeric::SInt)); }
};
template<typename D> void give(Typelib::PluginManager& m) { std::unique_ptr<D> d(new D); m.add(d.get()); d.release(); }
