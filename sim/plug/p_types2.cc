#include "common.hh"
extern "C" void registerPlugins(Typelib::PluginManager& m) { give<Def<2>>(m); give<Def<4>>(m); }
