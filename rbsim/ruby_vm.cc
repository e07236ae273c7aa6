// The Ruby bindings under the simulator: the interpreter runs inside this process, its garbage
// collector is switched off and runs only where the seed says (at any call of the extension into
// the interpreter, at any line of Ruby code, or at explicit points), and the memory of the
// extension comes from the simulated heap.
#include "../sim/core.hh"
#include "../sim/io.hh"
#include <map>
#include <typelib/pluginmanager.hh>
#include <typelib/registry.hh>
#include <ruby.h>
#include <ruby/debug.h>
#include <sys/personality.h>
#include <sys/mman.h>
#include <unistd.h>
#include <signal.h>
#include <cstring>
#include <cstdlib>
#include <new>

using namespace sim;

extern "C" void Init_typelib_ruby();
extern "C" void* __libc_stack_end;
// the interpreter's only source of randomness
extern "C" int getentropy(void* p, size_t n) { memset(p, 0x5a, n); return 0; }

static Ctx* g_cx;
static VALUE mSim, eViolation;
static Violation g_viol;
static bool g_violated;

// ---- garbage collections at seeded points -------------------------------------------------------
static long g_gc_left = -1;         // points until the armed collection
static int g_gc_kind;
static bool g_gc_busy, g_gc_live;   // g_gc_live: a run is executing
static uint64_t g_points, g_gcs;

static char const* const KIND[] = { "full", "lazy", "minor", "lazy-minor", "compact" };
static void do_gc(int kind)
{
    if (g_gc_busy) return;
    g_gc_busy = true;
    ++g_gcs;
    int saved_errno = errno;
    NoScope ns;
    VALUE err = rb_errinfo();
    if (kind == 4) rb_funcall(rb_mGC, rb_intern("compact"), 0);
    else {
        VALUE opt = rb_hash_new();
        rb_hash_aset(opt, ID2SYM(rb_intern("full_mark")), kind == 2 || kind == 3 ? Qfalse : Qtrue);
        rb_hash_aset(opt, ID2SYM(rb_intern("immediate_sweep")), kind == 1 || kind == 3 ? Qfalse : Qtrue);
        VALUE argv[1] = { opt };
        rb_funcallv_kw(rb_mGC, rb_intern("start"), 1, argv, RB_PASS_KEYWORDS);
    }
    rb_set_errinfo(err);
    errno = saved_errno;
    count((std::string("gc ") + KIND[kind]).c_str());
    g_gc_busy = false;
}
// ---- failures inside an operation ---------------------------------------------------------------
static long g_fail_left = -1;       // calls into the interpreter until one runs out of memory
static bool g_alloc_armed, g_failed;
static void fail_point(char const* where)
{
    if (!g_gc_live || g_gc_busy || g_fail_left < 0 || g_fail_left-- > 0) return;
    g_failed = true;
    tracef("  -- out of memory %s", where);
    count("fault.out of memory in the interpreter");
    rb_raise(rb_eNoMemError, "failed to allocate memory");
}
static void gc_point(char const* where)
{
    if (!g_gc_live || g_gc_busy || g_gc_left < 0) return;
    ++g_points;
    if (g_gc_left-- > 0) return;
    g_gc_left = -1;
    tracef("  -- %s collection %s", KIND[g_gc_kind], where);
    count("fault.collection inside an operation");
    do_gc(g_gc_kind);
}
static long g_line_left = -1;       // lines of the bindings until the thread loses the processor
static void on_line(rb_event_flag_t, VALUE, VALUE, ID, VALUE)
{
    gc_point("at a line of Ruby code");
    if (g_line_left < 0) return;
    char const* f = rb_sourcefile();
    if (!f || strncmp(f, VERIF_RUBY_LIB, strlen(VERIF_RUBY_LIB)) || g_line_left-- > 0) return;
    g_line_left = -1;
    rb_funcall(rb_const_get(mSim, rb_intern("Sched")), rb_intern("preempt"), 0);
}

#define POINT(name) gc_point("at " #name)
#define ALLOC_POINT(name) do { gc_point("at " #name); fail_point("at " #name); } while (0)    // one that allocates
extern "C" {
VALUE __real_rb_data_object_wrap(VALUE, void*, RUBY_DATA_FUNC, RUBY_DATA_FUNC);
VALUE __wrap_rb_data_object_wrap(VALUE k, void* p, RUBY_DATA_FUNC m, RUBY_DATA_FUNC f) { ALLOC_POINT(rb_data_object_wrap); return __real_rb_data_object_wrap(k, p, m, f); }
VALUE __real_rb_ary_new(); VALUE __wrap_rb_ary_new() { ALLOC_POINT(rb_ary_new); return __real_rb_ary_new(); }
VALUE __real_rb_ary_new_capa(long n); VALUE __wrap_rb_ary_new_capa(long n) { ALLOC_POINT(rb_ary_new_capa); return __real_rb_ary_new_capa(n); }
VALUE __real_rb_ary_push(VALUE a, VALUE v); VALUE __wrap_rb_ary_push(VALUE a, VALUE v) { ALLOC_POINT(rb_ary_push); return __real_rb_ary_push(a, v); }
VALUE __real_rb_hash_new(); VALUE __wrap_rb_hash_new() { ALLOC_POINT(rb_hash_new); return __real_rb_hash_new(); }
VALUE __real_rb_hash_aset(VALUE h, VALUE k, VALUE v); VALUE __wrap_rb_hash_aset(VALUE h, VALUE k, VALUE v) { ALLOC_POINT(rb_hash_aset); return __real_rb_hash_aset(h, k, v); }
VALUE __real_rb_str_new(char const* p, long n); VALUE __wrap_rb_str_new(char const* p, long n) { ALLOC_POINT(rb_str_new); return __real_rb_str_new(p, n); }
VALUE __real_rb_str_new_cstr(char const* p); VALUE __wrap_rb_str_new_cstr(char const* p) { ALLOC_POINT(rb_str_new_cstr); return __real_rb_str_new_cstr(p); }
VALUE __real_rb_funcallv(VALUE o, ID m, int n, VALUE const* a); VALUE __wrap_rb_funcallv(VALUE o, ID m, int n, VALUE const* a) { POINT(rb_funcallv); return __real_rb_funcallv(o, m, n, a); }
VALUE __real_rb_iv_set(VALUE o, char const* n, VALUE v); VALUE __wrap_rb_iv_set(VALUE o, char const* n, VALUE v) { POINT(rb_iv_set); return __real_rb_iv_set(o, n, v); }
VALUE __real_rb_yield(VALUE v); VALUE __wrap_rb_yield(VALUE v) { POINT(rb_yield); return __real_rb_yield(v); }
VALUE __real_rb_yield_values2(int n, VALUE const* a); VALUE __wrap_rb_yield_values2(int n, VALUE const* a) { POINT(rb_yield_values2); return __real_rb_yield_values2(n, a); }
// the memory of the values comes from the simulated heap
void* __real_ruby_xmalloc(size_t n);
void* __wrap_ruby_xmalloc(size_t n)
{
    ALLOC_POINT(ruby_xmalloc);
    if (!g_gc_live) return ::operator new(n ? n : 1);
    void* p;
    {
        Scope s;
        p = ::operator new(n ? n : 1, std::nothrow);
    }
    if (!p) rb_raise(rb_eNoMemError, "failed to allocate memory");
    return p;
}
void __wrap_ruby_xfree(void* p) { ::operator delete(p); }
}

// ---- the module Sim of the scenarios -------------------------------------------------------------
static VALUE s_draw(VALUE, VALUE n) { NoScope ns; return ULL2NUM(g_cx->draw(NUM2ULL(n))); }
static VALUE s_small(VALUE, VALUE n) { NoScope ns; return ULL2NUM(g_cx->small(NUM2ULL(n))); }
static VALUE s_begin(VALUE) { NoScope ns; g_cx->begin(); return Qnil; }
static VALUE s_end(VALUE) { NoScope ns; if (!g_cx->ch.open.empty()) g_cx->end(); return Qnil; }
static VALUE s_log(VALUE, VALUE s) { NoScope ns; logf("%s", StringValueCStr(s)); return Qnil; }
static VALUE s_trace(VALUE, VALUE s) { NoScope ns; tracef("%s", StringValueCStr(s)); return Qnil; }
static VALUE s_count(VALUE, VALUE s) { NoScope ns; count(StringValueCStr(s)); return Qnil; }
static VALUE s_state(VALUE, VALUE s) { NoScope ns; state(hash_bytes(RSTRING_PTR(s), RSTRING_LEN(s))); return Qnil; }
static VALUE s_arm_line(VALUE, VALUE n) { g_line_left = NUM2LONG(n); return Qnil; }
static VALUE s_set_status(VALUE, VALUE st) { rb_last_status_set(NUM2INT(st), 4242); return Qnil; }
static VALUE s_nontrivial(VALUE) { nontrivial(); return Qnil; }
static VALUE s_violate(VALUE, VALUE c, VALUE d)
{
    { NoScope ns; g_viol.cls = StringValueCStr(c); g_viol.detail = StringValueCStr(d); g_violated = true; }
    rb_raise(eViolation, "%s", "violation");
}
static VALUE s_gc(VALUE, VALUE k) { tracef("%s collection", KIND[NUM2INT(k)]); do_gc(NUM2INT(k)); return Qnil; }
static VALUE s_arm(VALUE, VALUE k, VALUE n) { g_gc_kind = NUM2INT(k); g_gc_left = NUM2LONG(n); return Qnil; }
static VALUE s_disarm(VALUE) { bool fired = g_gc_left < 0; g_gc_left = -1; return fired ? Qtrue : Qfalse; }
// kind 0: the n-th allocation fails (or a few in a row); kind 1: the n-th call into the interpreter runs out of memory
static VALUE s_arm_fault(VALUE, VALUE kind, VALUE n, VALUE burst)
{
    g_failed = false;
    if (NUM2INT(kind)) g_fail_left = NUM2LONG(n);
    else { g_alloc_armed = true; arm_alloc(NUM2LONG(n) + 1, NUM2INT(burst)); }
    return Qnil;
}
static VALUE s_disarm_fault(VALUE)
{
    if (g_alloc_armed) { if (disarm_alloc()) { g_failed = true; NoScope ns; count("fault.alloc"); } }
    g_alloc_armed = false; g_fail_left = -1;
    bool f = g_failed;
    g_failed = false;
    return f ? Qtrue : Qfalse;
}
// a file below /sim/ (nil: it is gone): content, bytes per read, error at opening, offset of a read error
static std::map<std::string, SimFile>* g_sim_files;
static VALUE s_file(VALUE, VALUE path, VALUE text, VALUE chunk, VALUE open_err, VALUE err_at)
{
    NoScope ns;
    if (!g_sim_files) g_sim_files = new std::map<std::string, SimFile>;
    std::string p(RSTRING_PTR(path), RSTRING_LEN(path));
    io_file(p, 0);
    g_sim_files->erase(p);
    if (NIL_P(text)) return Qnil;
    SimFile& f = (*g_sim_files)[p];
    f.content.assign(RSTRING_PTR(text), RSTRING_LEN(text));
    f.chunk = NUM2ULL(chunk);
    f.open_err = NUM2INT(open_err);
    if (NUM2LONG(err_at) >= 0) f.read_err_at = NUM2LONG(err_at);
    io_file(p, &f);
    return Qnil;
}
static __attribute__((noinline)) void scrub_stack() { volatile char b[256 * 1024]; for (size_t i = 0; i < sizeof b; ++i) b[i] = 0; }
static VALUE s_scrub(VALUE) { scrub_stack(); return Qnil; }
static VALUE s_live(VALUE) { return ULL2NUM(arena_live_blocks()); }
static VALUE s_live_report(VALUE) { std::string r; { NoScope ns; r = arena_live_report(); } return rb_str_new(r.c_str(), r.size()); }

#define DEF(name, fn, n) rb_define_singleton_method(mSim, name, RUBY_METHOD_FUNC(fn), n)
static VALUE require_ext(VALUE) { Init_typelib_ruby(); return Qnil; }
static VALUE load_boot(VALUE)
{
    mSim = rb_define_module("Sim");
    eViolation = rb_define_class_under(mSim, "Violation", rb_eException);
    DEF("draw", s_draw, 1); DEF("small", s_small, 1); DEF("begin", s_begin, 0); DEF("end", s_end, 0);
    DEF("log", s_log, 1); DEF("trace", s_trace, 1); DEF("count", s_count, 1); DEF("state", s_state, 1);
    DEF("nontrivial", s_nontrivial, 0); DEF("violate", s_violate, 2); DEF("gc", s_gc, 1); DEF("arm", s_arm, 2);
    DEF("disarm", s_disarm, 0); DEF("arm_fault", s_arm_fault, 3); DEF("disarm_fault", s_disarm_fault, 0); DEF("scrub", s_scrub, 0); DEF("live", s_live, 0); DEF("live_report", s_live_report, 0);
    DEF("arm_line", s_arm_line, 1); DEF("set_status", s_set_status, 1); DEF("file", s_file, 5);
    DEF("init_extension", require_ext, 0);
    rb_gv_set("$typelib_lib", rb_str_new_cstr(VERIF_RUBY_LIB));
    rb_gv_set("$rbsim_dir", rb_str_new_cstr(VERIF_RBSIM_DIR));
    rb_require(VERIF_RBSIM_DIR "/boot.rb");
    rb_require(VERIF_RBSIM_DIR "/scen.rb");
    rb_require(VERIF_RBSIM_DIR "/refuse.rb");
    for (char const* f : { "/sched.rb", "/headers.rb", "/import.rb", "/api.rb" }) rb_require((std::string(VERIF_RBSIM_DIR) + f).c_str());
    return Qnil;
}
static void print_error(char const* what)
{
    VALUE e = rb_errinfo();
    VALUE m = rb_funcall(e, rb_intern("full_message"), 0);
    fprintf(stderr, "%s: %s\n", what, StringValueCStr(m));
}
static Typelib::PluginManager::self* g_pm;

void sim_warm_up()
{
    static char a0[] = "rbsim", a1[] = "--disable=gems,did_you_mean,error_highlight,syntax_suggest", a2[] = "-e", a3[] = "";
    static char* av[] = { a0, a1, a2, a3, 0 };
    int ac = 4; char** avp = av;
    ruby_sysinit(&ac, &avp);
    ruby_init_stack((VALUE*)__libc_stack_end);
    if (ruby_setup()) { fprintf(stderr, "ruby_setup failed\n"); exit(3); }
    ruby_options(ac, av);
    rb_gc_disable();
    g_pm = new Typelib::PluginManager::self;
    // the type of the uninitialised elements is made once for the process
    Typelib::Registry::null();
    int st = 0;
    rb_protect(load_boot, Qnil, &st);
    if (st) { print_error("boot"); exit(3); }
    for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT }) signal(s, SIG_DFL);
    rb_gc_start(); rb_gc_start();
}
// without address randomisation the interpreter's (conservative) collector sees the same words
__attribute__((constructor)) static void no_aslr()
{
    int p = personality(0xffffffff);
    if (p == -1 || (p & ADDR_NO_RANDOMIZE) || getenv("RBSIM_REEXEC")) return;
    if (personality(p | ADDR_NO_RANDOMIZE) == -1) return;
    setenv("RBSIM_REEXEC", "1", 1);
    char buf[65536]; size_t n = 0;
    FILE* f = fopen("/proc/self/cmdline", "r");
    if (!f) return;
    n = fread(buf, 1, sizeof buf - 1, f); fclose(f);
    static char* av[256]; int c = 0;
    for (size_t i = 0; i < n && c < 255; i += strlen(buf + i) + 1) av[c++] = buf + i;
    av[c] = 0;
    execv("/proc/self/exe", av);
}

static char const* g_entry;
static VALUE run_entry(VALUE) { return rb_funcall(mSim, rb_intern(g_entry), 0); }
static void ruby_scenario(Ctx& cx, char const* entry)
{
    g_cx = &cx; g_entry = entry; g_violated = false; g_gc_left = -1; g_fail_left = -1; g_alloc_armed = g_failed = false; g_line_left = -1; g_points = g_gcs = 0;
    g_gc_live = true;
    int st = 0;
    rb_add_event_hook((rb_event_hook_func_t)on_line, RUBY_EVENT_LINE, Qnil);
    std::string cls, what;
    {
        Scope s;
        rb_protect(run_entry, Qnil, &st);
    }
    g_gc_live = false;
    if (g_violated) throw g_viol;
    if (st) {
        VALUE e = rb_errinfo();
        cls = std::string("ruby-error:") + rb_obj_classname(e);
        int s2 = 0;
        VALUE m = rb_protect([](VALUE e) { VALUE m = rb_funcall(e, rb_intern("message"), 0); VALUE b = rb_funcall(e, rb_intern("backtrace"), 0);
            if (!NIL_P(b)) { m = rb_str_plus(m, rb_str_new_cstr(" | ")); m = rb_str_plus(m, rb_ary_join(rb_funcall(b, rb_intern("first"), 1, INT2FIX(12)), rb_str_new_cstr(" < "))); }
            return m; }, e, &s2);
        if (!s2) what = std::string(RSTRING_PTR(m), RSTRING_LEN(m));
        size_t p;
        while ((p = what.find(VERIF_RUBY_LIB)) != std::string::npos) what.erase(p, strlen(VERIF_RUBY_LIB));
        throw Violation{cls, what};
    }
    count("gc points passed while one was armed", g_points);
}
static void c36(Ctx& cx) { ruby_scenario(cx, "c36"); }
static void c37(Ctx& cx) { ruby_scenario(cx, "c37"); }
static void c39(Ctx& cx) { ruby_scenario(cx, "c39"); }
static void c35(Ctx& cx) { ruby_scenario(cx, "c35"); }
static void c38(Ctx& cx) { ruby_scenario(cx, "c38"); }
static Reg r35("C35", c35, true, false, true), r38("C38", c38, true, false, true);
static Reg r39("C39", c39, true, false, true);
static Reg r36("C36", c36, true, false, true), r37("C37", c37, true, false, true);
