// Seeded scheduler of simulated threads.  The library is compiled with -fsanitize=thread but linked
// with the run-time below instead of the sanitizer's: every memory access, atomic operation, lock and
// static-initialisation guard of the library becomes a point at which the scheduler may switch to
// another thread.  Threads are real threads of which exactly one runs at any time.
#ifndef THSIM_SCHED_HH
#define THSIM_SCHED_HH
#include "core.hh"
#include <functional>
#include <vector>

namespace th {
static const int MAXT = 8;
// runs the functions as threads, under a schedule decided by the context's choices; returns when all ended
void run_threads(sim::Ctx& cx, std::vector<std::function<void()>> const& fns);
bool in_thread();
int self();                 // 0: no simulated thread, 1.. otherwise
// for use by instrumented services of the harness: switch off the instrumentation
struct Quiet { Quiet(); ~Quiet(); };
uint64_t schedule_hash();
uint64_t switches();
uint64_t accesses();
void die(char const* cls, std::string const& detail) __attribute__((noreturn));
}
#endif
