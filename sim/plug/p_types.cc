#include "common.hh"
extern "C" void registerPlugins(Typelib::PluginManager& m) { give<Def<1>>(m); }
