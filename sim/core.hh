// Core of the sequential simulator: choice sequence, event log, arena allocator with fault
// injection, violation reporting.  Everything nondeterministic goes through Choices::draw.
#ifndef SIM_CORE_HH
#define SIM_CORE_HH
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <exception>
#include <typeinfo>

namespace sim {

struct Rng {
    uint64_t s[4];
    void seed(uint64_t x);
    uint64_t next();
};

struct Span { uint32_t b, e; };

// The choice sequence: in generation mode values come from the PRNG and are recorded; in replay
// mode they come from the given sequence (0 once it is exhausted).
struct Choices {
    std::vector<uint64_t> seq;   // recorded / replayed
    std::vector<Span> spans;
    std::vector<uint32_t> open;
    size_t pos = 0;
    bool replay = false;
    bool overrun = false;
    bool mirrored = false;                      // the run's own sequence
    std::vector<uint64_t> const* feed = 0;      // taken from numbers drawn before (0 once exhausted)
    Rng rng;
    uint64_t raw(uint64_t n);    // uniform in [0, n)
};

struct Violation { std::string cls, detail; };

// ---- event log -------------------------------------------------------------------------------
extern int g_verbose_fd;         // >= 0: the text of the log is written there
void log_reset();
void logf(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
void tracef(char const* fmt, ...) __attribute__((format(printf, 1, 2)));     // only in the text, not in the hash
void log_bytes(char const* tag, void const* p, size_t n);
uint64_t log_hash();
uint64_t hash_bytes(void const* p, size_t n, uint64_t h = 1469598103934665603ull);

// ---- counters (fault kinds fired, rare-condition probes) --------------------------------------
void count(char const* name, uint64_t n = 1);
std::map<std::string, uint64_t>& counters();
void state(uint64_t h);          // a distinct-state measure
extern uint64_t* g_state_table; extern size_t g_state_cap;   // shared between the workers
extern uint64_t* g_choice_mirror;                             // [0] = length, then the choices
void nontrivial();               // marks the current run as non-trivial
bool is_nontrivial();

// ---- arena --------------------------------------------------------------------------------------
// Allocations made while a Scope is alive come from the simulated heap.
struct Scope { Scope(); ~Scope(); int saved; };
struct NoScope { NoScope(); ~NoScope(); int saved; };
void arena_init();
void arena_begin_run(uint64_t addr_seed, bool reuse);
void arena_set_layout(uint64_t addr_seed, bool reuse);
size_t arena_live_blocks();
size_t arena_live_bytes();
std::string arena_live_report();
extern size_t g_alloc_cap;       // single allocation limit (simulated finite memory)
void arm_alloc(long k, int burst = 1);   // k-th allocation from now fails (k>=1)
bool disarm_alloc();                      // true if it fired
long allocs_seen();                       // allocations in the simulated heap since arm_alloc
// the state of the call in progress, swapped when simulated threads are switched
struct CallState { int scope = 0; long k = 0, seen = 0; int burst = 0; bool fired = false, capped = false; };
void call_state_save(CallState& c);
void call_state_load(CallState const& c);
bool arena_contains(void const* p);
void arena_bounds(char** b, char** e);      // of the current run
void set_alloc_hooks(void (*on_alloc)(void*, size_t), void (*on_free)(void*, size_t));
bool alloc_cap_hit();                     // the cap refused an allocation since arm_alloc

// ---- a run ------------------------------------------------------------------------------------
struct Ctx {
    Choices ch;
    bool thorough = false;
    uint64_t draw(uint64_t n) { return n <= 1 ? 0 : ch.raw(n); }
    // value in [lo, hi], biased to the low end when skew
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }   // 0 => false
    uint64_t small(uint64_t max);        // geometric-like small number in [0, max]
    void begin() { ch.open.push_back(ch.pos); }
    void end() { ch.spans.push_back(Span{ch.open.back(), (uint32_t)ch.pos}); ch.open.pop_back(); }
};
struct SpanGuard { Ctx& c; SpanGuard(Ctx& c) : c(c) { c.begin(); } ~SpanGuard() { c.end(); } };

void violate(std::string const& cls, char const* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
// for use inside callbacks invoked by the code under test
void record_violation(std::string const& cls, std::string const& detail);
void check_pending();

// outcome of one call into the library
struct Out {
    bool ok = false;          // returned normally
    bool injected = false;    // an injected allocation failure fired during the call
    bool capped = false;      // the memory cap refused an allocation during the call
    bool bad_alloc = false;   // ended with bad_alloc/length_error
    bool ours = false;        // ended with SimFault (thrown by a harness callback)
    std::string type, what;
};
struct SimFault { int id; };
struct SimStdFault : public std::exception { char const* what() const noexcept { return "simulated fault"; } };
Out call_impl(std::function<void()> const& f, long alloc_k, int burst);
template<typename F> Out call(F f, long alloc_k = 0, int burst = 1)
{ return call_impl(std::function<void()>(std::ref(f)), alloc_k, burst); }
// must succeed (no fault armed)
void expect_ok(Out const& o, char const* what, char const* cls = "unexpected-error");

typedef void (*ScenarioFn)(Ctx&);
struct Scenario { char const* id; char const* name; ScenarioFn fn; bool no_persistent_manager; bool check_leaks; bool cold; };
void add_scenario(char const* id, ScenarioFn fn, bool no_persistent_manager = false, bool check_leaks = true, bool cold = false);
std::map<std::string, Scenario>& scenarios();
struct Reg { Reg(char const* id, ScenarioFn fn, bool npm = false, bool leaks = true, bool cold = false) { add_scenario(id, fn, npm, leaks, cold); } };

std::string hex(void const* p, size_t n, size_t max = 64);
std::string strf(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
}
#endif
