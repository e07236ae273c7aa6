#include "i_c14.hh"
#include "core.hh"
#include <typelib/utilmm/singleton/use.hh>
#include <typelib/pluginmanager.hh>
#include <typelib/importer.hh>
#include <typelib/exporter.hh>
#include <new>
SvcCfg g_svc[NSVC];
template<int N> struct Service;
typedef void* (*Fn1)(); typedef void* (*Fn2)(void const*); typedef void (*Fn3)(void*); typedef void* (*Fn4)(void*); typedef uint64_t (*Fn5)(void*);
struct Guard { int n; bool done; Guard(int n) : n(n), done(false) {} ~Guard() { if (!done) bk_unwound(n); } };
template<int N> struct Service {
    uint64_t data[4]; void* held; int dep, on; char* mem;
    Service() : held(0), mem(0)
    {
        bk_ctor(N, this);
        Guard g(N);
        dep = g_svc[N].dep; on = g_svc[N].on;
        for (int i = 0; i < 2; ++i) data[i] = svc_value(N) + i;
        mem = new char[24];                          // may fail
        struct Del { char*& m; bool go; Del(char*& m) : m(m), go(true) {} ~Del() { if (go) delete[] m; } } del(mem);
        if (dep == D_HELD) held = svc_acquire(on);
        struct Rel { void*& h; int on; bool go; ~Rel() { if (go && h) svc_release(on, h); } } rel = {held, on, true};
        if (dep == D_CTOR) { void* h = svc_acquire(on); if (svc_read(on, h) != svc_value(on)) data[0] = 0; svc_release(on, h); }
        if (bk_fails(N)) throw sim::SimFault{N};
        for (int i = 2; i < 4; ++i) data[i] = svc_value(N) + i;
        if (dep == D_HELD_LATE) held = svc_acquire(on);
        for (int i = 0; i < g_svc[N].steps; ++i) { volatile int x = 0; x = x + i; }
        rel.go = del.go = false; g.done = true;
        bk_ready(N, this);
    }
    ~Service()
    {
        bk_dtor(N, this);
        if (dep == D_DTOR) { void* h = svc_acquire(on); if (svc_read(on, h) != svc_value(on)) sim::record_violation("half-built-service", "a service acquired from the destructor of another is not fully constructed"); svc_release(on, h); }
        for (int i = 3; i >= 0; --i) data[i] = 0xdead;
        if (held) svc_release(on, held);
        delete[] mem;
        bk_gone(N, this);
    }
    uint64_t read() const { for (int i = 0; i < 4; ++i) if (data[i] != svc_value(N) + i) return 0xbad0000 + i; return held ? svc_read(on, held) == svc_value(on) ? svc_value(N) : 0xbad1000 : svc_value(N); }
};
using utilmm::singleton::use;
template<int N> struct Ops {
    static void* acquire() { return new use<Service<N> >; }
    static void* copy(void const* h) { return new use<Service<N> >(*(use<Service<N> > const*)h); }
    static void release(void* h) { delete (use<Service<N> >*)h; }
    static void* instance(void* h) { return &((use<Service<N> >*)h)->instance(); }
    static uint64_t read(void* h) { return (*(use<Service<N> >*)h)->read(); }
};
#define ALL(f) { Ops<0>::f, Ops<1>::f, Ops<2>::f, Ops<3>::f }
static Fn1 const f_acquire[] = ALL(acquire);
static Fn2 const f_copy[] = ALL(copy);
static Fn3 const f_release[] = ALL(release);
static Fn4 const f_instance[] = ALL(instance);
static Fn5 const f_read[] = ALL(read);
uint64_t svc_value(int n) { return 0x5e40000 + n * 0x100; }
void* svc_acquire(int n) { return f_acquire[n](); }
void* svc_copy(int n, void const* h) { return f_copy[n](h); }
void svc_release(int n, void* h) { f_release[n](h); }
void* svc_instance(int n, void* h) { return f_instance[n](h); }
uint64_t svc_read(int n, void* h) { return f_read[n](h); }

typedef Typelib::PluginManager::self PM;
void pm_acquire(void* mem) { new (mem) PM; }
void pm_copy(void* mem, void const* f) { new (mem) PM(*(PM const*)f); }
void pm_release(void* mem) { ((PM*)mem)->~PM(); }
void* pm_instance(void* mem) { return &**(PM*)mem; }
int pm_use(void* mem, int what)
{
    PM& m = *(PM*)mem;
    if (what == 0) { Typelib::Importer* i = m->importer("tlb"); int r = !i; delete i; return r; }
    if (what == 1) { Typelib::Exporter* e = m->exporter("idl"); int r = !e; delete e; return r; }
    if (what == 2) { Typelib::Exporter* e = m->exporter("tlb"); int r = !e; delete e; return r; }
    try { delete m->importer("nonesuch"); } catch (Typelib::PluginNotFound&) { return 0; }
    return 2;
}
