#include <fcntl.h>
#include <execinfo.h>
#include "core.hh"
#include <sys/mman.h>
#include <cstring>
#include <cstdlib>
#include <new>
#include <stdexcept>
#include <cxxabi.h>
#include <algorithm>
#include <set>
#include <unistd.h>
#include <sys/syscall.h>

extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
extern "C" void* __asan_get_report_address();
#ifdef VERIF_COV        // tools/cov.sh builds without the sanitizer
extern "C" void __asan_poison_memory_region(void const volatile*, size_t) {}
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t) {}
extern "C" void* __asan_get_report_address() { return 0; }
#endif
#define NOSAN __attribute__((no_sanitize("address"))) __attribute__((noinline))

namespace sim {

void Rng::seed(uint64_t x)
{
    for (int i = 0; i < 4; ++i) {
        x += 0x9e3779b97f4a7c15ull;
        uint64_t z = x;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        s[i] = z ^ (z >> 31);
    }
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Rng::next()
{
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}

uint64_t Choices::raw(uint64_t n)
{
    NoScope ns;
    uint64_t v;
    if (feed) { v = pos < feed->size() ? (*feed)[pos] % n : 0; if (++pos > 400000) violate("harness-runaway", "more than 400000 choices in one program"); return v; }
    if (replay) {
        if (pos < seq.size()) { v = seq[pos]; if (v >= n) { v = n - 1; seq[pos] = v; } }
        else { v = 0; overrun = true; seq.push_back(0); }
    } else {
        v = rng.next() % n;
        seq.push_back(v);
    }
    ++pos;
    if (mirrored && g_choice_mirror && pos <= 400000) { g_choice_mirror[pos] = v; g_choice_mirror[0] = pos; }
    if (pos > 400000) violate("harness-runaway", "more than 400000 choices in one run");
    return v;
}

uint64_t Ctx::small(uint64_t max)
{
    // 0 half of the time a smaller bound
    uint64_t m = max;
    switch (draw(4)) { case 0: m = max / 8; break; case 1: m = max / 3; break; default: break; }
    return draw(m + 1);
}

// ---- log ----------------------------------------------------------------------------------------
int g_verbose_fd = -1;
uint64_t* g_state_table; size_t g_state_cap; uint64_t* g_choice_mirror;
static uint64_t g_loghash;
static void vout(std::string const& s) { if (syscall(SYS_write, g_verbose_fd, s.data(), s.size())) {} }
uint64_t hash_bytes(void const* p, size_t n, uint64_t h)
{
    unsigned char const* c = (unsigned char const*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
void log_reset() { g_loghash = 1469598103934665603ull; }
void logf(char const* fmt, ...)
{
    NoScope ns;
    char buf[1024];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
    g_loghash = hash_bytes(buf, n, g_loghash);
    if (g_verbose_fd >= 0) vout(std::string(buf, n) + "\n");
}
void tracef(char const* fmt, ...)
{
    if (g_verbose_fd < 0) return;
    NoScope ns;
    char buf[1024];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
    vout(std::string(buf, n) + "\n");
}
void log_bytes(char const* tag, void const* p, size_t n)
{
    NoScope ns;
    g_loghash = hash_bytes(p, n, hash_bytes(tag, strlen(tag), g_loghash));
    if (g_verbose_fd >= 0) vout(std::string(tag) + " " + hex(p, n, 96) + "\n");
}
uint64_t log_hash() { return g_loghash; }

std::map<std::string, uint64_t>& counters() { static auto* m = new std::map<std::string, uint64_t>; return *m; }
void count(char const* name, uint64_t n) { NoScope ns; counters()[name] += n; }
static bool g_nontrivial;
void nontrivial() { g_nontrivial = true; }
bool is_nontrivial() { return g_nontrivial; }
void state(uint64_t h)
{
    g_loghash = hash_bytes(&h, 8, g_loghash);
    if (!g_state_table) return;
    if (!h) h = 1;
    for (size_t i = 0, k = h % g_state_cap; i < 64; ++i, k = (k + 1) % g_state_cap) {
        uint64_t cur = __atomic_load_n(&g_state_table[k], __ATOMIC_RELAXED);
        if (cur == h) return;
        if (!cur) { uint64_t z = 0; if (__atomic_compare_exchange_n(&g_state_table[k], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED) || z == h) return; }
    }
}

std::string hex(void const* p, size_t n, size_t max)
{
    std::string r; char b[4];
    for (size_t i = 0; i < n && i < max; ++i) { snprintf(b, 4, "%02x", ((unsigned char const*)p)[i]); r += b; }
    if (n > max) r += strf("..(%zu bytes)", n);
    return r;
}
std::string strf(char const* fmt, ...)
{
    char buf[4096];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}

// ---- arena ---------------------------------------------------------------------------------------
static const size_t REGION = size_t(1) << 38;         // 256 GB, reserved only
static const size_t STRIDE = size_t(1) << 29;         // per run
static const int LANES = 16;
static const size_t LANE = STRIDE / LANES;             // 32 MB
static const size_t RZ = 32;
static char* g_base, *g_end, *g_run;
static char* g_lane[LANES];
static uint64_t g_addr_seed; static bool g_reuse;
static int g_in_scope;
// for debugging: SIM_STACK_OF=N writes the stack of allocation N to /tmp/sim_stack
static long g_stack_of = getenv("SIM_STACK_OF") ? atol(getenv("SIM_STACK_OF")) : -1;
static uint64_t g_seq; static size_t g_live, g_live_bytes;
static long g_k, g_seen; static int g_burst; static bool g_fired, g_capped;
size_t g_alloc_cap = size_t(1) << 22;
static void (*g_on_alloc)(void*, size_t), (*g_on_free)(void*, size_t);
struct Hdr { uint64_t magic; uint64_t size; uint64_t seq; uint64_t total; };
static const uint64_t LIVE = 0x4c49564542304c4bull, DEAD = 0x4445414442304c4bull;
static std::vector<void*>* g_free[64];

Scope::Scope() : saved(g_in_scope) { g_in_scope = 1; }
Scope::~Scope() { g_in_scope = saved; }
NoScope::NoScope() : saved(g_in_scope) { g_in_scope = 0; }
NoScope::~NoScope() { g_in_scope = saved; }

void arena_init()
{
    if (g_base) return;
    void* want = (void*)0x300000000000ull;
    void* p = mmap(want, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap arena"); _exit(3); }
    g_base = (char*)p; g_end = g_base + REGION; g_run = g_base - STRIDE;
    for (int i = 0; i < 64; ++i) g_free[i] = new std::vector<void*>;
}
void arena_set_layout(uint64_t addr_seed, bool reuse) { g_addr_seed = addr_seed; g_reuse = reuse; }
void arena_begin_run(uint64_t addr_seed, bool reuse)
{
    g_run += STRIDE;
    if (g_run + STRIDE > g_end) { fprintf(stderr, "arena exhausted\n"); _exit(3); }
    for (int i = 0; i < LANES; ++i) g_lane[i] = g_run + i * LANE;
    for (int i = 0; i < 64; ++i) g_free[i]->clear();
    g_addr_seed = addr_seed; g_reuse = reuse; g_seq = 0; g_live = g_live_bytes = 0;
    g_alloc_cap = size_t(1) << 22;
    g_k = 0; g_burst = 0; g_fired = g_capped = false; g_nontrivial = false;
}
static inline bool in_arena(void const* p) { return (char const*)p >= g_base && (char const*)p < g_end; }
static inline int size_class(size_t total) { int c = 0; while ((size_t(64) << c) < total && c < 63) ++c; return c; }

NOSAN static void* arena_alloc(size_t size)
{
    ++g_seen;
    if (g_k > 0 && g_seen >= g_k && g_seen < g_k + g_burst) { g_fired = true; return 0; }
    if (size > g_alloc_cap) { g_capped = true; return 0; }
    size_t total = RZ + ((size + 15) & ~size_t(15)) + RZ;
    char* b = 0;
    if (g_reuse) {
        int sc = size_class(total);
        total = size_t(64) << sc;
        if (!g_free[sc]->empty()) { b = (char*)g_free[sc]->back(); g_free[sc]->pop_back(); }
    }
    if (!b) {
        int lane = 0;
        if (g_addr_seed) { uint64_t h = (g_addr_seed + g_seq) * 0x9e3779b97f4a7c15ull; lane = (h >> 40) % LANES; }
        if (g_lane[lane] + total > g_run + (lane + 1) * LANE) {
            int i = 0; for (; i < LANES; ++i) if (g_lane[i] + total <= g_run + (i + 1) * LANE) break;
            if (i == LANES) { g_capped = true; return 0; }
            lane = i;
        }
        b = g_lane[lane]; g_lane[lane] += total;
    }
    Hdr* h = (Hdr*)b;
    __asan_poison_memory_region(b, total);
    __asan_unpoison_memory_region(b + RZ, size);
    if (g_stack_of == (long)g_seq ) { void* st[24]; int fd = open("/tmp/sim_stack", O_WRONLY | O_CREAT | O_TRUNC, 0600); backtrace_symbols_fd(st, backtrace(st, 24), fd); close(fd); }
    h->magic = LIVE; h->size = size; h->seq = g_seq++; h->total = total;
    // deterministic garbage, so that use of uninitialised memory is deterministic too
    memset(b + RZ, 0xA5, size < 256 ? size : 256);
    ++g_live; g_live_bytes += size;
    if (g_on_alloc) g_on_alloc(b + RZ, size);
    return b + RZ;
}
NOSAN static void arena_free(void* p)
{
    Hdr* h = (Hdr*)((char*)p - RZ);
    if (h->magic != LIVE) {
        char const* m = h->magic == DEAD ? "ARENA: double free\n" : "ARENA: invalid free\n";
        if (write(2, m, strlen(m))) {}
        _exit(78);
    }
    if (g_on_free) g_on_free(p, h->size);
    h->magic = DEAD;
    __asan_poison_memory_region(p, h->size);
    if ((char*)p >= g_run) {
        --g_live; g_live_bytes -= h->size;
        if (g_reuse) { size_t t = h->total; int c = size_class(t); int s = g_in_scope; g_in_scope = 0; g_free[c]->push_back((char*)p - RZ); g_in_scope = s; }
    }
}
size_t arena_live_blocks() { return g_live; }
size_t arena_live_bytes() { return g_live_bytes; }
NOSAN std::string arena_live_report()
{
    std::string r; int n = 0;
    for (int i = 0; i < LANES; ++i)
        for (char* b = g_run + i * LANE; b < g_lane[i]; b += ((Hdr*)b)->total)
            if (((Hdr*)b)->magic == LIVE && n++ < 8)
                r += strf("[block %zu bytes, allocation %zu] ", (size_t)((Hdr*)b)->size, (size_t)((Hdr*)b)->seq);
    return r;
}
void call_state_save(CallState& c) { c.scope = g_in_scope; c.k = g_k; c.seen = g_seen; c.burst = g_burst; c.fired = g_fired; c.capped = g_capped; }
void call_state_load(CallState const& c) { g_in_scope = c.scope; g_k = c.k; g_seen = c.seen; g_burst = c.burst; g_fired = c.fired; g_capped = c.capped; }
bool arena_contains(void const* p) { return in_arena(p); }
void arena_bounds(char** b, char** e) { *b = g_run; *e = g_run + STRIDE; }
void set_alloc_hooks(void (*a)(void*, size_t), void (*f)(void*, size_t)) { g_on_alloc = a; g_on_free = f; }
void arm_alloc(long k, int burst) { g_k = k; g_burst = burst; g_seen = 0; g_fired = g_capped = false; }
bool disarm_alloc() { g_k = 0; return g_fired; }
long allocs_seen() { return g_seen; }
bool alloc_cap_hit() { return g_capped; }

// ---- violations -----------------------------------------------------------------------------------
static Violation* g_pending;
void violate(std::string const& cls, char const* fmt, ...)
{
    NoScope ns;
    char buf[3000];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Violation{cls, buf};
}
void record_violation(std::string const& cls, std::string const& d)
{ NoScope ns; if (!g_pending) g_pending = new Violation{cls, d}; }
void check_pending()
{
    if (g_pending) { Violation v = *g_pending; delete g_pending; g_pending = 0; throw v; }
}

Out call_impl(std::function<void()> const& f, long alloc_k, int burst)
{
    Out o;
    arm_alloc(alloc_k, burst);
    g_in_scope = 1;
    try { f(); g_in_scope = 0; o.ok = true; }
    catch (Violation&) { g_in_scope = 0; disarm_alloc(); throw; }
    catch (SimFault&) { g_in_scope = 0; o.ours = true; o.type = "SimFault"; }
    catch (SimStdFault&) { g_in_scope = 0; o.ours = true; o.type = "SimStdFault"; }
    catch (std::exception& e) {
        g_in_scope = 0;
        if (dynamic_cast<std::bad_alloc*>(&e) || dynamic_cast<std::length_error*>(&e)) o.bad_alloc = true;
        int st; char* n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
        o.type = n ? n : "?"; free(n);
        o.what = e.what();
    }
    catch (...) { g_in_scope = 0; o.type = "unknown"; }
    o.injected = disarm_alloc();
    o.capped = alloc_cap_hit();
    if (o.injected) { counters()["fault.alloc"]++; nontrivial(); }
    check_pending();
    return o;
}
void expect_ok(Out const& o, char const* what, char const* cls)
{
    if (!o.ok) violate(cls, "%s failed without a fault: %s: %s", what, o.type.c_str(), o.what.c_str());
}

std::map<std::string, Scenario>& scenarios() { static auto* m = new std::map<std::string, Scenario>; return *m; }
void add_scenario(char const* id, ScenarioFn fn, bool npm, bool leaks, bool cold) { scenarios()[id] = Scenario{id, id, fn, npm, leaks, cold}; }
}

// ---- global allocation functions ------------------------------------------------------------------
using namespace sim;
static inline void* do_new(size_t n)
{
    if (g_in_scope) return arena_alloc(n);
    return malloc(n ? n : 1);
}
void* operator new(size_t n) { void* p = do_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = do_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return do_new(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return do_new(n); }
static inline void do_delete(void* p) { if (!p) return; if (in_arena(p)) arena_free(p); else free(p); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { do_delete(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { do_delete(p); }

extern "C" NOSAN void __asan_on_error()
{
    char* a = (char*)__asan_get_report_address();
    char const* m = "ARENA: report outside the simulated heap\n";
    if (a >= g_base && a < g_end) {
        // find the block: scan back for a header at 16-byte steps
        m = "ARENA: access outside of an allocated block\n";
        char* q = (char*)((uintptr_t)a & ~uintptr_t(15));
        for (int i = 0; i < 100000 && q >= g_base; ++i, q -= 16) {
            uint64_t mg = ((Hdr*)q)->magic;
            if (mg == LIVE) break;
            if (mg == DEAD) { if (a < q + RZ + ((Hdr*)q)->size) m = "ARENA: use of a freed block\n"; break; }
        }
    }
    if (write(2, m, strlen(m))) {}
}
