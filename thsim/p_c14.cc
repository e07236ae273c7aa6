// C14: services exist exactly while they have clients, on any schedule.
#include "sched.hh"
#include "i_c14.hh"
#include <typelib/registry.hh>
#include <pthread.h>
#include <cstring>
#include <memory>
using namespace sim;

namespace {
struct Bk { int built = 0, ready_n = 0, gone = 0, tries = 0, alive = 0; void* inst = 0; int holders = 0; };
Bk g_bk[NSVC];
int holders_of(int n) { return g_bk[n].holders; }
}
void bk_ctor(int n, void* self)
{
    th::Quiet q; NoScope ns;
    Bk& b = g_bk[n];
    ++b.tries;
    logf("    thread %d: service %d: construction %d begins", th::self(), n, b.tries);
    if (b.alive) record_violation("two-instances", strf("a second instance of service %d is created while the first one exists", n));
    if (holders_of(n)) record_violation("instance-lost", strf("a new instance of service %d is created although %d client(s) still hold the previous one", n, holders_of(n)));
    ++b.alive;
}
bool bk_fails(int n) { th::Quiet q; NoScope ns; if (g_svc[n].throw_at && g_bk[n].tries == g_svc[n].throw_at) { count("fault.service-constructor"); nontrivial(); return true; } return false; }
void bk_ready(int n, void* self)
{
    th::Quiet q; NoScope ns;
    ++g_bk[n].built; g_bk[n].inst = self;
    logf("    thread %d: service %d: constructed", th::self(), n);
}
void bk_unwound(int n) { th::Quiet q; NoScope ns; --g_bk[n].alive; logf("    thread %d: service %d: construction failed", th::self(), n); }
void bk_dtor(int n, void* self)
{
    th::Quiet q; NoScope ns;
    Bk& b = g_bk[n];
    logf("    thread %d: service %d: destruction begins", th::self(), n);
    if (b.inst != self) record_violation("destroyed-twice", strf("an instance of service %d that is not the current one is destroyed", n));
    if (holders_of(n)) record_violation("destroyed-in-use", strf("service %d is destroyed while %d client(s) hold it", n, holders_of(n)));
    b.inst = 0;
}
void bk_gone(int n, void*)
{
    th::Quiet q; NoScope ns;
    --g_bk[n].alive; ++g_bk[n].gone;
    logf("    thread %d: service %d: destroyed", th::self(), n);
}

namespace {
enum OpK { ACQ, COPY, COPY_SHARED, TOUCH, REL, PUT, TAKE, YIELD };
struct Op { int k, slot, n, what; long ak; };
struct Slot { int n = -1; void* h = 0; void* inst = 0; char pm[8]; };
static const int PM_N = NSVC;
struct Mailbox { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; Slot s; };
struct Plan { std::vector<Op> ops; };
Mailbox g_box;
Slot g_shared[NSVC + 1];
int g_pm_holders; void* g_pm_inst;

bool out_ok(Out const& o, char const* what)
{
    if (o.ok) return true;
    if (o.injected || o.ours || o.capped) return false;
    // a failure that hit another construction in progress on behalf of this call was counted there
    violate("acquire-failed", "%s failed without a fault: %s %s", what, o.type.c_str(), o.what.c_str());
}
void after_acquire(Slot& s)
{
    // the client now holds it
    th::Quiet q; NoScope ns;
    s.inst = 0;
    if (s.n == PM_N) return;
    Bk& b = g_bk[s.n];
    if (!b.inst) violate("no-instance", "service %d was acquired but no fully constructed instance exists", s.n);
    ++b.holders;
    s.inst = b.inst;
}
void touch(Slot& s, int what, long ak)
{
    void* p = 0; uint64_t v = 0; int r = 0;
    Out o = call([&] {
        if (s.n == PM_N) { p = pm_instance(s.pm); r = pm_use(s.pm, what); }
        else { p = svc_instance(s.n, s.h); v = svc_read(s.n, s.h); }
    }, ak);
    if (!o.ok && !o.injected) violate("use-failed", "using service %d failed: %s %s", s.n, o.type.c_str(), o.what.c_str());
    if (!o.ok) return;
    if (s.n == PM_N) {
        if (r) violate("wrong-plugins", "the plugin manager answered request %d differently than alone (%d)", what, r);
        if (s.inst && p != s.inst) violate("instance-changed", "a client that holds the plugin manager sees another instance of it");
        s.inst = p;
        return;
    }
    if (p != s.inst) violate("instance-changed", "a client of service %d sees another instance than the one it acquired", s.n);
    if (v != svc_value(s.n)) violate("half-built-service", "a client of service %d reads %zx from it instead of %zx", s.n, (size_t)v, (size_t)svc_value(s.n));
}
void release(Slot& s, long ak)
{
    int n = s.n;
    { th::Quiet q; if (n != PM_N) --g_bk[n].holders; }
    s.n = -1; s.inst = 0;
    Out o = call([&] { if (n == PM_N) pm_release(s.pm); else svc_release(n, s.h); }, ak);
    if (!o.ok) violate("release-failed", "releasing service %d failed: %s %s", n, o.type.c_str(), o.what.c_str());
}
void run_plan(Plan const& p, std::vector<Slot>& slots)
{
    for (auto& op : p.ops) {
        Slot& s = slots[op.slot];
        switch (op.k) {
        case ACQ: {
            if (s.n >= 0) break;
            Out o = call([&] { if (op.n == PM_N) pm_acquire(s.pm); else s.h = svc_acquire(op.n); }, op.ak);
            { NoScope ns; logf("  thread %d: acquire %d: %s", th::self(), op.n, o.ok ? "done" : o.type.c_str()); }
            if (out_ok(o, "acquiring a service")) { s.n = op.n; after_acquire(s); }
            break;
        }
        case COPY: case COPY_SHARED: {
            if (s.n >= 0) break;
            Slot& f = op.k == COPY ? slots[op.what % slots.size()] : g_shared[op.n];
            if (f.n < 0) break;
            int n = f.n;
            Out o = call([&] { if (n == PM_N) pm_copy(s.pm, f.pm); else s.h = svc_copy(n, f.h); }, op.ak);
            logf("  thread %d: copy a handle of %d: %s", th::self(), n, o.ok ? "done" : o.type.c_str());
            if (out_ok(o, "copying a handle")) { s.n = n; after_acquire(s); if (f.inst && s.inst && s.inst != f.inst) violate("instance-changed", "a copied handle of service %d designates another instance", n); }
            break;
        }
        case TOUCH: if (s.n >= 0) { touch(s, op.what % 4, op.ak); logf("  thread %d: used %d", th::self(), s.n); } break;
        case REL: if (s.n >= 0) { int n = s.n; release(s, op.ak); logf("  thread %d: released %d", th::self(), n); } break;
        case PUT:
            if (s.n < 0) break;
            pthread_mutex_lock(&g_box.m);
            if (g_box.s.n < 0 && s.n != PM_N) { g_box.s = s; s.n = -1; logf("  thread %d: hands over its handle of %d", th::self(), g_box.s.n); }
            pthread_mutex_unlock(&g_box.m);
            break;
        case TAKE:
            if (s.n >= 0) break;
            pthread_mutex_lock(&g_box.m);
            if (g_box.s.n >= 0) { s = g_box.s; g_box.s.n = -1; logf("  thread %d: takes the handle of %d", th::self(), s.n); }
            pthread_mutex_unlock(&g_box.m);
            break;
        case YIELD: sched_yield(); break;
        }
    }
}
void scenario(Ctx& cx)
{
    for (auto& b : g_bk) b = Bk();
    for (auto& s : g_shared) s = Slot();
    g_box.s = Slot();
    g_pm_holders = 0; g_pm_inst = 0;
    int nt = 2 + cx.draw(3), nsvc = 1 + cx.draw(NSVC);
    bool with_pm = cx.chance(1, 3), faults = cx.chance(1, 2), shared = cx.chance(1, 3), boxed = cx.chance(1, 3);
    bool dtor_dep = false;
    for (int n = 0; n < NSVC; ++n) {
        g_svc[n] = SvcCfg();
        if (n + 1 < nsvc && cx.chance(1, 2)) { g_svc[n].dep = 1 + cx.draw(4); g_svc[n].on = n + 1 + cx.draw(nsvc - n - 1); }
        dtor_dep |= g_svc[n].dep == D_DTOR;
        g_svc[n].steps = cx.draw(4);
    }
    if (faults) for (int n = 0; n < nsvc; ++n) if (cx.chance(1, 3)) {
        // a service other services acquire in their destructor does not fail
        bool in_dtor = false; for (int k = 0; k < n; ++k) in_dtor |= g_svc[k].dep == D_DTOR;
        if (!in_dtor) g_svc[n].throw_at = 1 + cx.draw(4);
    }
    std::vector<Plan> plans(nt);
    int total = 0;
    for (auto& p : plans) {
        SpanGuard g(cx);
        int k = 1 + cx.draw(cx.thorough ? 14 : 9);
        total += k;
        for (int i = 0; i < k; ++i) {
            SpanGuard g2(cx);
            Op op;
            static const int kinds[] = {ACQ, REL, ACQ, REL, TOUCH, TOUCH, COPY, COPY_SHARED, PUT, TAKE, YIELD};
            op.k = kinds[cx.draw(boxed ? 11 : shared ? 8 : 7)];
            op.slot = cx.draw(2);
            op.n = with_pm && cx.chance(1, 3) ? PM_N : (int)cx.draw(nsvc);
            op.what = cx.draw(4);
            op.ak = faults && cx.chance(1, 4) ? 1 + cx.draw(12) : 0;
            // the plugin manager's own constructor is the subject of C17; a service that acquires others in its destructor (possibly while another is constructed) may not be interrupted there
            if (with_pm || dtor_dep) op.ak = 0;
            p.ops.push_back(op);
        }
    }
    if (shared) {
        int n = with_pm && cx.chance(1, 2) ? PM_N : (int)cx.draw(nsvc);
        g_svc[n < NSVC ? n : 0].throw_at = 0;
        for (int k = 0; k < NSVC; ++k) if (g_svc[k].throw_at == 1) g_svc[k].throw_at = 2;
        Slot& s = g_shared[n];
        Out o = call([&] { if (n == PM_N) pm_acquire(s.pm); else s.h = svc_acquire(n); });
        if (out_ok(o, "acquiring a service")) { s.n = n; after_acquire(s); touch(s, 0, 0); logf("main holds service %d", n); }
    }
    logf("%d threads, %d services, %d operations%s%s%s", nt, nsvc, total, with_pm ? ", plugin manager" : "", shared ? ", shared handle" : "", faults ? ", faults" : "");
    std::vector<std::vector<Slot>> slots(nt, std::vector<Slot>(2));
    std::vector<std::function<void()>> fns;
    for (int i = 0; i < nt; ++i)
        fns.push_back([&, i] {
            try {
                run_plan(plans[i], slots[i]);
                for (auto& s : slots[i]) if (s.n >= 0) { touch(s, 0, 0); release(s, 0); }
            } catch (Violation& v) { NoScope ns; record_violation(v.cls, v.detail); }
        });
    th::run_threads(cx, fns);
    check_pending();
    if (g_box.s.n >= 0) { touch(g_box.s, 0, 0); release(g_box.s, 0); }
    for (auto& s : g_shared) if (s.n >= 0) { touch(s, 0, 0); release(s, 0); }
    for (int n = 0; n < nsvc; ++n) {
        Bk& b = g_bk[n];
        if (b.alive) violate("instance-kept", "an instance of service %d still exists after its last client is gone", n);
        if (b.built != b.gone) violate("destroyed-count", "service %d was constructed %d times and destroyed %d times", n, b.built, b.gone);
        if (b.built > 1) count("service-recreated");
    }
    // a later client gets a fresh one, and everything is released with it
    for (auto& s : g_svc) s.throw_at = 0;
    for (int n = 0; n < nsvc; ++n) {
        Slot s; int before = g_bk[n].built;
        Out o = call([&] { s.h = svc_acquire(n); });
        expect_ok(o, "acquiring a service afterwards");
        s.n = n; after_acquire(s); touch(s, 0, 0);
        if (g_bk[n].built != before + 1) violate("not-fresh", "a client that came after the last one did not get a fresh instance of service %d", n);
        release(s, 0);
        if (g_bk[n].alive) violate("instance-kept", "an instance of service %d still exists after its last client is gone", n);
    }
    if (th::switches() > (uint64_t)nt) nontrivial();
}
sim::Reg r("C14", scenario, true, true, true);
}
