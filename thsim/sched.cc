#include "sched.hh"
#include "io.hh"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <cstring>
#include <cstdlib>
#include <climits>
#include <map>
#include <list>
#include <unordered_map>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <cxxabi.h>
#include <algorithm>

// the sequential simulator's heap poisons memory for AddressSanitizer: not used here
extern "C" void __asan_poison_memory_region(void const volatile*, size_t) {}
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t) {}
extern "C" void* __asan_get_report_address() { return 0; }

namespace th {
using sim::Ctx;
using sim::strf;

enum State { READY, BLOCKED, DONE };
struct Thread {
    int id; State st = READY; std::function<void()> fn; pthread_t pt;
    void* wait = 0; int how = 0; bool timed_out = false;
    uint32_t vc[MAXT];
    int go = 0;                           // futex
    sim::CallState cs;
    int nopre = 0, quiet = 0;
    char* lo = 0, *hi = 0;                // stack
    void* pcs[512]; int depth = 0;
    uint64_t prio = 0;
    void* spin_at = 0; int spin = 0;
};
static thread_local Thread* t_me __attribute__((tls_model("initial-exec")));
static std::vector<Thread*> g_t;
static Ctx* g_cx;
static int g_main_go;
static bool g_active;
static uint64_t g_hash, g_switches, g_events, g_acc, g_draws;
uint64_t schedule_hash() { return g_hash; }
uint64_t switches() { return g_switches; }
uint64_t accesses() { return g_acc; }
bool in_thread() { return t_me; }
int self() { return t_me ? t_me->id : 0; }
Quiet::Quiet() { if (t_me) ++t_me->quiet; }
Quiet::~Quiet() { if (t_me) --t_me->quiet; }

void die(char const* cls, std::string const& detail)
{
    std::string m = std::string("SCHED: ") + cls + "|" + detail + "\n";
    if (syscall(SYS_write, 2, m.data(), m.size())) {}
    _exit(79);
}

static void fwait(int* f) { while (!__atomic_load_n(f, __ATOMIC_ACQUIRE)) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
static void fwake(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

// ---- strategy ------------------------------------------------------------------------------------
enum { S_SYNC, S_RANDOM, S_SHARED, S_PCT };
static int g_strat; static uint64_t g_left; static int g_gapmag; static int g_syncden;
static std::vector<uint64_t> g_change; static uint64_t g_low;
static uint64_t draw(uint64_t n) { if (g_draws > 100000) return 0; ++g_draws; return g_cx->draw(n); }

static uint64_t gap()
{
    // 0: never again
    uint64_t d = draw(1 + (uint64_t(1) << g_gapmag));
    return d ? d : UINT64_MAX;
}
static void note(char const* kind, void* obj)
{
    if (sim::g_verbose_fd < 0 || !t_me) return;
    static int budget = 400;
    if (budget-- <= 0) return;
    sim::NoScope ns;
    std::string at;
    for (int i = std::min(t_me->depth, 512) - 1, k = 0; i >= 0 && k < 2; --i) {
        Dl_info inf;
        if (!dladdr(t_me->pcs[i], &inf)) continue;
        at += k ? " < " : " in ";
        if (inf.dli_sname) {
            int st; char* d = abi::__cxa_demangle(inf.dli_sname, 0, 0, &st);
            std::string n = d ? d : inf.dli_sname; free(d);
            at += n.substr(0, n.find('('));
        } else at += "?";
        ++k;
    }
    sim::tracef("    thread %d: %s%s", t_me->id, kind, at.c_str());
}

static void switch_to(Thread* n)
{
    Thread* me = t_me;
    if (n == me) return;
    ++g_switches;
    { int v[2] = {me ? me->id : 0, n->id}; g_hash = sim::hash_bytes(v, sizeof v, g_hash); g_hash = sim::hash_bytes(&g_events, 8, g_hash); }
    if (me) sim::call_state_save(me->cs);
    sim::call_state_load(n->cs);
    fwake(&n->go);
    if (me && me->st != DONE) fwait(&me->go);
}
static Thread* pick(bool forced)
{
    std::vector<Thread*> c;
    if (!forced && t_me && t_me->st == READY) c.push_back(t_me);
    for (auto t : g_t) if (t != t_me && t->st == READY) c.push_back(t);
    if (c.empty()) return 0;
    if (g_strat == S_PCT) return *std::max_element(c.begin(), c.end(), [](Thread* a, Thread* b) { return a->prio < b->prio; });
    return c[draw(c.size())];
}
static void yield_now(bool forced) { sim::NoScope ns; Thread* n = pick(forced); if (n && n != t_me) switch_to(n); }
enum Point { P_ACCESS, P_SHARED, P_SYNC };
static inline void point(Point k)
{
    Thread* me = t_me;
    if (me->nopre || me->quiet) return;
    ++g_events;
    if (g_strat == S_PCT) {
        if (!g_change.empty() && g_events >= g_change.back()) { g_change.pop_back(); me->prio = g_low--; note("is preempted", 0); yield_now(false); }
        return;
    }
    if (k == P_SYNC) {
        if (g_syncden && draw(g_syncden) == 1) { note("may be preempted", 0); yield_now(false); }
        return;
    }
    if (g_strat == S_SYNC || (g_strat == S_SHARED && k != P_SHARED)) return;
    if (--g_left == 0) { note("is preempted", 0); yield_now(false); g_left = gap(); }
}
static void block(void* on, char const* what)
{
    Thread* me = t_me;
    me->st = BLOCKED; me->wait = on;
    note(what, on);
    sim::NoScope ns;
    Thread* n = pick(true);
    if (!n) {
        std::string d;
        for (auto t : g_t) if (t->st == BLOCKED) {
            d += strf("thread %d waits, called from", t->id);
            for (int i = std::min(t->depth, 512) - 1, k = 0; i >= 0 && k < 5; --i, ++k) { Dl_info inf; if (dladdr(t->pcs[i], &inf) && inf.dli_sname) { int st; char* dm = abi::__cxa_demangle(inf.dli_sname, 0, 0, &st); std::string nm = dm ? dm : inf.dli_sname; free(dm); d += " " + nm.substr(0, nm.find('(')); } }
            d += "; ";
        }
        die("deadlock", d);
    }
    switch_to(n);
}
static void wake(Thread* t) { t->st = READY; t->wait = 0; }

// ---- vector clocks -------------------------------------------------------------------------------
struct Sync { uint32_t vc[MAXT]; };
static std::unordered_map<void*, Sync>* g_sync;
static void acquire(void* a)
{
    auto it = g_sync->find(a);
    if (it == g_sync->end()) return;
    for (int i = 0; i < MAXT; ++i) t_me->vc[i] = std::max(t_me->vc[i], it->second.vc[i]);
}
static void release(void* a)
{
    Sync& s = (*g_sync)[a];
    for (int i = 0; i < MAXT; ++i) s.vc[i] = std::max(s.vc[i], t_me->vc[i]);
    ++t_me->vc[t_me->id];
}

// ---- shadow memory -------------------------------------------------------------------------------
struct Cell { uint32_t clock; uint8_t tid, mask, w, fl; void* pc; };   // fl: 1 atomic, 2 freed
struct Granule { Cell c[4]; };
struct Region { char* b; char* e; Granule* s; };
static Region g_reg[64]; static int g_nreg; static int g_rr;

static void add_region(char* b, char* e)
{
    for (int i = 0; i < g_nreg; ++i) if (g_reg[i].b == b) return;
    if (g_nreg == 64) return;
    size_t n = (e - b + 7) / 8 * sizeof(Granule);
    void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap shadow"); _exit(3); }
    g_reg[g_nreg++] = Region{b, e, (Granule*)p};
}
static int phdr_cb(struct dl_phdr_info* i, size_t, void*)
{
    std::string n = i->dlpi_name ? i->dlpi_name : "";
    bool mine = n.empty() || n.find("typeLang") != std::string::npos || n.find("typeLib") != std::string::npos || n.find("/plugins/") != std::string::npos;
    if (!mine) return 0;
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W)) {
            char* b = (char*)((i->dlpi_addr + i->dlpi_phdr[k].p_vaddr) & ~uintptr_t(15));
            add_region(b, (char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz));
        }
    return 0;
}
static void modules() { sim::NoScope ns; dl_iterate_phdr(phdr_cb, 0); }
static void arena_regions(char* b, char* e)
{
    // the arena of this run comes first
    if (g_nreg && g_reg[0].b == b) return;
    size_t n = size_t(e - b) / 8 * sizeof(Granule);
    void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap shadow"); _exit(3); }
    Region r{b, e, (Granule*)p};
    if (!g_nreg) g_nreg = 1;
    else munmap(g_reg[0].s, size_t(g_reg[0].e - g_reg[0].b) / 8 * sizeof(Granule));
    g_reg[0] = r;
}
static inline Granule* shadow(char* a)
{
    for (int i = 0; i < g_nreg; ++i) if (a >= g_reg[i].b && a < g_reg[i].e) return g_reg[i].s + ((a - g_reg[i].b) >> 3);
    return 0;
}
static std::string sym(void* pc)
{
    Dl_info inf;
    if (!pc || !dladdr(pc, &inf)) return "?";
    char const* f = inf.dli_fname ? strrchr(inf.dli_fname, '/') : 0;
    std::string r;
    if (inf.dli_sname) { int st; char* d = abi::__cxa_demangle(inf.dli_sname, 0, 0, &st); r = d ? d : inf.dli_sname; free(d); r += strf("+0x%zx", (size_t)((char*)pc - (char*)inf.dli_saddr)); }
    else r = strf("%s+0x%zx", f ? f + 1 : "?", (size_t)((char*)pc - (char*)inf.dli_fbase));
    return r;
}
static std::string what_is(char* a)
{
    Dl_info inf;
    if (sim::arena_contains(a)) return "memory allocated by the library";
    if (dladdr(a, &inf) && inf.dli_sname) { int st; char* d = abi::__cxa_demangle(inf.dli_sname, 0, 0, &st); std::string r = d ? d : inf.dli_sname; free(d); return r; }
    if (dladdr(a, &inf) && inf.dli_fname) { char const* f = strrchr(inf.dli_fname, '/'); return std::string("static data of ") + (f ? f + 1 : inf.dli_fname); }
    return "static data";
}
static std::string stack_of(Thread* t)
{
    std::string r;
    for (int i = std::min(t->depth, 512) - 1, k = 0; i >= 0 && k < 4; --i, ++k) { std::string s = sym(t->pcs[i]); r += (k ? " < " : "") + s.substr(0, s.find('(')); }
    return r;
}
static bool g_raced;
static void race(char* a, Cell const& o, bool w, bool atomic, void* pc)
{
    if (g_raced) return;
    g_raced = true;
    sim::NoScope ns;
    std::string d = strf("thread %d %s %s at ", t_me->id, w ? "writes" : "reads", what_is(a).c_str()) + sym(pc) + " (called from " + stack_of(t_me) + strf(") without synchronisation with the %s by thread %d at ", o.w ? "write" : "read", o.tid) + sym(o.pc);
    (void)atomic;
    sim::logf("%s", d.c_str());
    sim::record_violation("data-race", d);
}
// one access within a granule
static inline bool granule(Granule* g, char* a, uint8_t mask, bool w, bool atomic, void* pc)
{
    Thread* me = t_me;
    bool shared = false;
    int slot = -1;
    for (int i = 0; i < 4; ++i) {
        Cell& c = g->c[i];
        if (!c.mask) { if (slot < 0) slot = i; continue; }
        if (c.fl & 2) {
            if (!(c.mask & mask)) continue;
            sim::NoScope ns;
            die("use-of-destroyed", strf("thread %d %s freed memory at ", me->id, w ? "writes" : "reads") + sym(pc) + " (called from " + stack_of(me) + strf("), freed by thread %d at ", c.tid) + sym(c.pc));
        }
        if (c.tid == me->id) {
            if (c.mask == mask && c.w == w && (c.fl & 1) == atomic) slot = i;
            continue;
        }
        shared = true;
        if (!(c.mask & mask) || !(w || c.w) || (atomic && (c.fl & 1))) continue;
        if (c.clock > me->vc[c.tid]) race(a, c, w, atomic, pc);
        else if (w && slot < 0 && (c.mask & ~mask) == 0) slot = i;     // ordered before, and covered by this write
    }
    if (slot < 0) slot = g_rr++ & 3;
    g->c[slot] = Cell{me->vc[me->id], (uint8_t)me->id, mask, w, (uint8_t)atomic, pc};
    return shared;
}
static inline void access(void* addr, size_t n, bool w, bool atomic, void* pc, bool may_yield = true)
{
    Thread* me = t_me;
    if (!me || me->quiet) return;
    char* a = (char*)addr;
    if (a >= me->lo && a < me->hi) return;
    Granule* g = shadow(a);
    if (!g) return;
    ++g_acc;
    bool global = !sim::arena_contains(a);
    // decide first, then perform: the access itself happens when the thread is scheduled again
    if (may_yield) {
        bool sh = global;
        for (int i = 0; i < 4 && !sh; ++i) sh = g->c[i].mask && g->c[i].tid != me->id && g->c[i].tid;
        point(sh ? P_SHARED : P_ACCESS);
    }
    size_t off = (uintptr_t)a & 7;
    while (n) {
        size_t k = std::min(n, 8 - off);
        granule(g, a, (uint8_t)(((1u << k) - 1) << off), w, atomic, pc);
        n -= k; a += k; off = 0; ++g;
    }
}
// hooks of the simulated heap
static void on_alloc(void* p, size_t n)
{
    Granule* g = shadow((char*)p);
    if (g) memset((void*)g, 0, (n + 7) / 8 * sizeof(Granule));
}
static void on_free(void* p, size_t n)
{
    if (!t_me) return;
    Granule* g = shadow((char*)p);
    if (!g) return;
    void* pc = t_me->depth > 0 ? t_me->pcs[std::min(t_me->depth, 512) - 1] : 0;
    for (size_t i = 0; i < n; i += 8, ++g) {
        uint8_t mask = n - i >= 8 ? 0xff : (uint8_t)((1u << (n - i)) - 1);
        granule(g, (char*)p + i, mask, true, false, pc);
        memset((void*)g, 0, sizeof *g);
        g->c[0] = Cell{t_me->vc[t_me->id], (uint8_t)t_me->id, mask, 1, 2, pc};
    }
}

// ---- running -------------------------------------------------------------------------------------
static void* thread_main(void* a)
{
    Thread* t = (Thread*)a;
    pthread_attr_t at; void* sa; size_t ss;
    pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &sa, &ss); pthread_attr_destroy(&at);
    t->lo = (char*)sa; t->hi = (char*)sa + ss;
    fwait(&t->go);
    t_me = t;
    t->fn();
    t->st = DONE;
    note("ends", 0);
    t->quiet = 1;
    Thread* n;
    { sim::NoScope ns; n = pick(true); }
    // from here on another thread may run: nothing of the simulation may be touched any more
    if (n) { switch_to(n); t_me = 0; return 0; }
    sim::NoScope ns;
    for (auto x : g_t) if (x->st == BLOCKED) { t->quiet = 0; block(t, ""); }   // reports the deadlock
    t_me = 0;
    fwake(&g_main_go);
    return 0;
}
struct Mutex { Thread* owner = 0; int count = 0; int readers = 0; };
static std::unordered_map<void*, Mutex>* g_mutex;

void run_threads(Ctx& cx, std::vector<std::function<void()>> const& fns)
{
    g_cx = &cx; g_draws = 0; g_hash = 1469598103934665603ull; g_switches = g_events = g_acc = 0; g_raced = false; g_rr = 0;
    if (!g_sync) { g_sync = new std::unordered_map<void*, Sync>; g_mutex = new std::unordered_map<void*, Mutex>; }
    g_sync->clear(); g_mutex->clear();
    // shadow memory of this run's heap and of the modules' data
    char* ab, *ae; sim::arena_bounds(&ab, &ae);
    arena_regions(ab, ae);
    modules();
    for (int i = 1; i < g_nreg; ++i) madvise(g_reg[i].s, size_t(g_reg[i].e - g_reg[i].b + 7) / 8 * sizeof(Granule), MADV_DONTNEED);
    madvise(g_reg[0].s, size_t(g_reg[0].e - g_reg[0].b) / 8 * sizeof(Granule), MADV_DONTNEED);
    // strategy
    g_strat = cx.draw(4); g_gapmag = 0; g_syncden = 0; g_change.clear(); g_low = 1000; g_left = UINT64_MAX;
    static char const* sn[] = {"at synchronisation", "anywhere", "at shared data", "by priorities"};
    switch (g_strat) {
    case S_SYNC: g_syncden = 2 + cx.draw(3); break;
    case S_RANDOM: g_gapmag = 1 + cx.draw(14); g_syncden = cx.draw(3) ? 0 : 4; g_left = gap(); break;
    case S_SHARED: g_gapmag = cx.draw(8); g_syncden = cx.draw(3) ? 0 : 4; g_left = gap(); break;
    case S_PCT: {
        static uint64_t len[] = {50, 400, 3000, 20000, 100000};
        uint64_t L = len[cx.draw(5)]; int d = cx.draw(4);
        for (int i = 0; i < d; ++i) g_change.push_back(1 + cx.draw(L));
        std::sort(g_change.rbegin(), g_change.rend());
        break;
    }
    }
    sim::logf("schedule: %zu threads, switches %s", fns.size(), sn[g_strat]);
    std::vector<Thread*> ts;
    for (size_t i = 0; i < fns.size(); ++i) {
        Thread* t = new Thread; t->id = i + 1; t->fn = fns[i];
        memset(t->vc, 0, sizeof t->vc); t->vc[t->id] = 1;
        t->prio = g_strat == S_PCT ? 2000 + cx.draw(1000) * 8 + i : 0;
        ts.push_back(t);
    }
    g_t = ts;
    sim::set_alloc_hooks(on_alloc, on_free);
    g_active = true;
    for (auto t : ts) { pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20); if (pthread_create(&t->pt, &at, thread_main, t)) { perror("pthread_create"); _exit(3); } pthread_attr_destroy(&at); }
    sim::CallState cs; sim::call_state_save(cs);
    g_main_go = 0;
    Thread* first = pick(true);
    switch_to(first);
    fwait(&g_main_go);
    for (auto t : ts) pthread_join(t->pt, 0);
    sim::call_state_load(cs);
    g_active = false;
    sim::set_alloc_hooks(0, 0);
    g_t.clear();
    for (auto t : ts) delete t;
    sim::count("switches", g_switches);
    sim::count("accesses", g_acc);
    sim::state(g_hash);
}

// ---- locks ---------------------------------------------------------------------------------------
static Mutex& mtx(void* m) { return (*g_mutex)[m]; }
static void wake_waiters(void* on) { for (auto t : g_t) if (t->st == BLOCKED && t->wait == on) wake(t); }
static int kind_of(pthread_mutex_t* m) { return m->__data.__kind & 3; }
static int lock(pthread_mutex_t* m, bool try_only)
{
    sim::NoScope ns;
    point(P_SYNC);
    for (;;) {
        Mutex& x = mtx(m);
        if (!x.owner) { x.owner = t_me; x.count = 1; break; }
        if (x.owner == t_me && kind_of(m) == PTHREAD_MUTEX_RECURSIVE) { ++x.count; return 0; }
        if (try_only) return EBUSY;
        if (x.owner == t_me && kind_of(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        sim::count("lock-contention");
        block(m, "waits for a lock");
    }
    acquire(m);
    return 0;
}
static int unlock(pthread_mutex_t* m)
{
    sim::NoScope ns;
    Mutex& x = mtx(m);
    if (x.owner != t_me) {
        if (kind_of(m) == PTHREAD_MUTEX_NORMAL) sim::record_violation("bad-unlock", strf("thread %d releases a lock it does not hold (called from ", t_me->id) + stack_of(t_me) + ")");
        return EPERM;
    }
    if (--x.count) return 0;
    release(m);
    x.owner = 0;
    wake_waiters(m);
    point(P_SYNC);
    return 0;
}
}
using namespace th;
#define REAL(name) ((decltype(&name))th_real(#name))
static void* th_real(char const* n)
{
    void* p = dlsym(RTLD_NEXT, n);
    if (!p) { fprintf(stderr, "no %s\n", n); _exit(3); }
    return p;
}
#define FWD(ret, name, params, args) static decltype(&name) r_##name; if (!r_##name) r_##name = REAL(name); if (!t_me) return r_##name args;
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { FWD(int, pthread_mutex_lock, , (m)) return lock(m, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { FWD(int, pthread_mutex_trylock, , (m)) return lock(m, true); }
int pthread_mutex_timedlock(pthread_mutex_t* m, struct timespec const* ts) { FWD(int, pthread_mutex_timedlock, , (m, ts)) int r = lock(m, true); if (!r) return 0; yield_now(true); r = lock(m, true); return r ? ETIMEDOUT : 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { FWD(int, pthread_mutex_unlock, , (m)) return unlock(m); }
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    FWD(int, pthread_mutex_destroy, , (m))
    sim::NoScope ns;
    if (mtx(m).owner) sim::record_violation("bad-unlock", "a lock that is held is destroyed");
    g_mutex->erase(m); g_sync->erase(m);
    return r_pthread_mutex_destroy(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    FWD(int, pthread_rwlock_rdlock, , (m))
    sim::NoScope ns;
    point(P_SYNC);
    while (mtx(m).owner) block(m, "waits for a lock");
    ++mtx(m).readers;
    acquire(m);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    FWD(int, pthread_rwlock_wrlock, , (m))
    sim::NoScope ns;
    point(P_SYNC);
    while (mtx(m).owner || mtx(m).readers) block(m, "waits for a lock");
    mtx(m).owner = t_me; acquire(m); acquire((char*)m + 1);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    FWD(int, pthread_rwlock_tryrdlock, , (m))
    sim::NoScope ns;
    point(P_SYNC);
    if (mtx(m).owner) return EBUSY;
    ++mtx(m).readers; acquire(m);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    FWD(int, pthread_rwlock_trywrlock, , (m))
    sim::NoScope ns;
    point(P_SYNC);
    if (mtx(m).owner || mtx(m).readers) return EBUSY;
    mtx(m).owner = t_me; acquire(m); acquire((char*)m + 1);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    FWD(int, pthread_rwlock_unlock, , (m))
    sim::NoScope ns;
    Mutex& x = mtx(m);
    if (x.owner == t_me) { release(m); x.owner = 0; }
    else if (x.readers > 0) { release((char*)m + 1); --x.readers; }
    else { sim::record_violation("bad-unlock", "a lock that is not held is released"); return EPERM; }
    wake_waiters(m);
    point(P_SYNC);
    return 0;
}
// condition variables
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    sim::NoScope ns;
    Mutex& x = mtx(m);
    int saved = x.count;
    release(m); x.owner = 0; x.count = 0;
    wake_waiters(m);
    int r = 0;
    if (timed && draw(2) == 1) { yield_now(true); r = ETIMEDOUT; }     // virtual time passed
    else if (timed) { t_me->timed_out = false; bool others = false; for (auto t : g_t) others |= t != t_me && t->st == READY; if (!others) r = ETIMEDOUT; else block(c, "waits for a condition"); }
    else block(c, "waits for a condition");
    while (mtx(m).owner) block(m, "waits for a lock");
    Mutex& y = mtx(m);
    y.owner = t_me; y.count = saved;
    acquire(m);
    if (!r) acquire(c);
    return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { FWD(int, pthread_cond_wait, , (c, m)) return cond_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, struct timespec const* ts) { FWD(int, pthread_cond_timedwait, , (c, m, ts)) return cond_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, struct timespec const* ts) { FWD(int, pthread_cond_clockwait, , (c, m, k, ts)) return cond_wait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c)
{
    FWD(int, pthread_cond_signal, , (c))
    sim::NoScope ns;
    release(c);
    std::vector<Thread*> w; for (auto t : g_t) if (t->st == BLOCKED && t->wait == c) w.push_back(t);
    if (!w.empty()) wake(w[draw(w.size())]);
    point(P_SYNC);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    FWD(int, pthread_cond_broadcast, , (c))
    sim::NoScope ns;
    release(c); wake_waiters(c); point(P_SYNC);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void))
{
    FWD(int, pthread_once, , (o, f))
    point(P_SYNC);
    if (*(int volatile*)o == 2) { acquire(o); return 0; }
    while (*(int volatile*)o == 1000001) { sim::NoScope ns; block(o, "waits for a once-initialisation"); }
    if (*(int volatile*)o == 2) { acquire(o); return 0; }
    *(int volatile*)o = 1000001;
    try { f(); } catch (...) { *(int volatile*)o = 0; sim::NoScope ns; wake_waiters(o); throw; }
    sim::NoScope ns;
    *(int volatile*)o = 2;     // glibc's "done"
    release(o); wake_waiters(o);
    return 0;
}
int sched_yield(void) { FWD(int, sched_yield, , ()) if (!t_me->nopre) { note("yields", 0); yield_now(true); } return 0; }
int usleep(useconds_t u) { FWD(int, usleep, , (u)) if (!t_me->nopre) yield_now(true); return 0; }
int nanosleep(struct timespec const* a, struct timespec* b) { FWD(int, nanosleep, , (a, b)) if (!t_me->nopre) yield_now(true); return 0; }
int clock_nanosleep(clockid_t c, int fl, struct timespec const* a, struct timespec* b) { FWD(int, clock_nanosleep, , (c, fl, a, b)) if (!t_me->nopre) yield_now(true); return 0; }
unsigned sleep(unsigned s) { FWD(unsigned, sleep, , (s)) if (!t_me->nopre) yield_now(true); return 0; }

// ---- initialisation of function-local statics: guard byte 0 = initialised, byte 1 = in progress -----
int __cxa_guard_acquire(uint64_t* g)
{
    char* b = (char*)g;
    if (!t_me) { if (b[0]) return 0; b[1] = 1; return 1; }
    sim::NoScope ns;
    point(P_SYNC);
    while (b[1] && !b[0]) block(g, "waits for a static initialisation");
    if (b[0]) { acquire(g); return 0; }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g)
{
    char* b = (char*)g;
    b[0] = 1; b[1] = 0;
    if (!t_me) return;
    sim::NoScope ns;
    release(g); wake_waiters(g); point(P_SYNC);
}
void __cxa_guard_abort(uint64_t* g)
{
    char* b = (char*)g;
    b[1] = 0;
    if (!t_me) return;
    sim::NoScope ns;
    wake_waiters(g);
}
// loading a library runs its static constructors with the loader's own lock held: one step
void* dlopen(char const* f, int fl)
{
    static decltype(&dlopen) r; if (!r) r = REAL(dlopen);
    std::string t;
    sim::NoScope ns;
    if (f) { t = sim::sim_lib(f); f = t.c_str(); }
    if (!t_me) { void* h = r(f, fl); return h; }
    ++t_me->nopre;
    void* h = r(f, fl);
    modules();
    --t_me->nopre;
    return h;
}

// ---- the instrumentation's interface -------------------------------------------------------------
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void* pc) { Thread* t = t_me; if (!t) return; if (t->depth < 512) t->pcs[t->depth] = pc; ++t->depth; }
void __tsan_func_exit() { Thread* t = t_me; if (t && t->depth > 0) --t->depth; }
#define RW(n) \
void __tsan_read##n(void* a) { access(a, n, false, false, PC); } \
void __tsan_write##n(void* a) { access(a, n, true, false, PC); } \
void __tsan_unaligned_read##n(void* a) { access(a, n, false, false, PC); } \
void __tsan_unaligned_write##n(void* a) { access(a, n, true, false, PC); } \
void __tsan_volatile_read##n(void* a) { access(a, n, false, false, PC); } \
void __tsan_volatile_write##n(void* a) { access(a, n, true, false, PC); } \
void __tsan_unaligned_volatile_read##n(void* a) { access(a, n, false, false, PC); } \
void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false, false, PC); }
void __tsan_write_range(void* a, size_t n) { access(a, n, true, false, PC); }
// setting the virtual table pointer to what it is already (destructors of leaf classes) is no conflict
void __tsan_vptr_update(void** a, void* v) { access(a, 8, *a != v, false, PC); }
void __tsan_vptr_read(void** a) { access(a, 8, false, false, PC); }
}
template<typename T> static T* at_begin(volatile T* a, bool w, int mo, void* pc)
{
    T* p = const_cast<T*>(a);
    if (!t_me || t_me->quiet) return p;
    access(p, sizeof(T), w, true, pc, false);
    sim::NoScope ns;
    // a thread spinning on a value gives way after a while
    if (!w && t_me->spin_at == p) { if (++t_me->spin > 50) { t_me->spin = 0; if (!t_me->nopre) { if (g_strat == S_PCT) t_me->prio = g_low--; yield_now(true); } } }
    else { t_me->spin_at = w ? 0 : p; t_me->spin = 0; }
    point(P_SYNC);
    bool acq = mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE, rel = w && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME;
    if (acq) acquire(p);
    if (rel) release(p);
    return p;
}
#define AT(bits, T) extern "C" { \
T __tsan_atomic##bits##_load(const volatile T* a, int mo) { return *at_begin(const_cast<volatile T*>(a), false, mo, PC); } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { *at_begin(a, true, mo == __ATOMIC_SEQ_CST ? __ATOMIC_RELEASE : mo, PC) = v; } \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { T* p = at_begin(a, true, mo, PC); T o = *p; *p = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { T* p = at_begin(a, true, mo, PC); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { T* p = at_begin(a, true, mo, PC); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { T* p = at_begin(a, true, mo, PC); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { T* p = at_begin(a, true, mo, PC); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { T* p = at_begin(a, true, mo, PC); T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { T* p = at_begin(a, true, mo, PC); T o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { T* p = at_begin(a, true, mo, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { T* p = at_begin(a, true, mo, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { T* p = at_begin(a, true, mo, PC); T o = *p; if (o == e) *p = v; return o; } }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, unsigned __int128)
extern "C" void __tsan_atomic_thread_fence(int) { if (t_me && !t_me->quiet) { sim::NoScope ns; static int fence; acquire(&fence); release(&fence); point(P_SYNC); } }
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---- tree and list surgery done inside the C++ library -------------------------------------------
namespace th { void touch(void* p, size_t n, bool w, void* pc) { access(p, n, w, false, pc, false); } }
namespace std {
typedef _Rb_tree_node_base NB;
void _Rb_tree_insert_and_rebalance(const bool left, NB* x, NB* p, NB& h) throw()
{
    typedef void (*F)(bool, NB*, NB*, NB&);
    static F f; if (!f) f = (F)th_real("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
    void* pc = __builtin_return_address(0);
    th::touch(x, sizeof(NB), true, pc); th::touch(p, sizeof(NB), true, pc); th::touch(&h, sizeof(NB), true, pc);
    f(left, x, p, h);
}
NB* _Rb_tree_rebalance_for_erase(NB* const z, NB& h) throw()
{
    typedef NB* (*F)(NB*, NB&);
    static F f; if (!f) f = (F)th_real("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
    void* pc = __builtin_return_address(0);
    th::touch(z, sizeof(NB), true, pc); th::touch(&h, sizeof(NB), true, pc);
    return f(z, h);
}
NB* _Rb_tree_increment(NB* x) throw()
{
    typedef NB* (*F)(NB*);
    static F f; if (!f) f = (F)th_real("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
    th::touch(x, sizeof(NB), false, __builtin_return_address(0));
    return f(x);
}
NB const* _Rb_tree_increment(NB const* x) throw() { return _Rb_tree_increment(const_cast<NB*>(x)); }
NB* _Rb_tree_decrement(NB* x) throw()
{
    typedef NB* (*F)(NB*);
    static F f; if (!f) f = (F)th_real("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
    th::touch(x, sizeof(NB), false, __builtin_return_address(0));
    return f(x);
}
NB const* _Rb_tree_decrement(NB const* x) throw() { return _Rb_tree_decrement(const_cast<NB*>(x)); }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
    void* pc = __builtin_return_address(0);
    th::touch(this, 16, true, pc); th::touch(p, 16, true, pc); th::touch(p->_M_prev, 16, true, pc);
    _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    void* pc = __builtin_return_address(0);
    th::touch(this, 16, true, pc); th::touch(_M_next, 16, true, pc); th::touch(_M_prev, 16, true, pc);
    _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev;
}
}
}
