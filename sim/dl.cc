// Loading of shared objects from simulated directories (the thread simulator has its own in sched.cc).
#include "io.hh"
#include <dlfcn.h>
extern "C" void* dlopen(char const* f, int fl)
{
    static auto real = (void* (*)(char const*, int))dlsym(RTLD_NEXT, "dlopen");
    if (!f) return real(f, fl);
    std::string t;
    { sim::NoScope ns; t = sim::sim_lib(f); }
    // the loader's own memory and that of static constructors does not belong to the run
    sim::NoScope ns;
    return real(t.c_str(), fl);
}
