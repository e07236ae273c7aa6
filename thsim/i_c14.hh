// Services used by the C14 scenario.  i_c14.cc is instrumented like the library; the bookkeeping
// (functions bk_*, in p_c14.cc) is not, and runs as one step.
#ifndef I_C14_HH
#define I_C14_HH
#include <cstdint>
static const int NSVC = 4;
enum Dep { D_NONE, D_HELD, D_CTOR, D_DTOR, D_HELD_LATE };
struct SvcCfg { int dep = D_NONE; int on = 0; int steps = 1; int throw_at = 0; };     // throw_at: this construction (1..) fails
extern SvcCfg g_svc[NSVC];
void bk_ctor(int n, void* self);
bool bk_fails(int n);
void bk_ready(int n, void* self);
void bk_unwound(int n);
void bk_dtor(int n, void* self);
void bk_gone(int n, void* self);
// instrumented
void* svc_acquire(int n);                    // a new handle
void* svc_copy(int n, void const* handle);
void svc_release(int n, void* handle);       // destroys it
void* svc_instance(int n, void* handle);     // through the handle
uint64_t svc_read(int n, void* handle);      // reads the instance's data
uint64_t svc_value(int n);                   // what it must be
void pm_acquire(void* mem);                  // PluginManager::self at mem
void pm_copy(void* mem, void const* from);
void pm_release(void* mem);
void* pm_instance(void* mem);
int pm_use(void* mem, int what);             // creates an importer or exporter; 0: as expected
#endif
