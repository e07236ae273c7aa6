// Driver of the sequential simulator: campaigns over seeds, crash attribution, minimisation, replay.
#include "core.hh"
#include "io.hh"
#include <typelib/pluginmanager.hh>
#include <typelib/registry.hh>
#include <libxml/parser.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <poll.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <cstring>
#include <cstdlib>
#include <set>
#include <deque>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <iostream>
#include <memory>

extern "C" char const* __asan_default_options()
{ return "detect_leaks=0:exitcode=77:alloc_dealloc_mismatch=0:allocator_may_return_null=1:symbolize=0:detect_stack_use_after_return=0:handle_segv=1:handle_abort=0:color=never:print_legend=0:print_full_thread_history=0:malloc_context_size=4:fast_unwind_on_malloc=1"; }

using namespace sim;
typedef std::vector<uint64_t> Seq;

static bool g_thorough;
static Scenario* g_scn;
static int g_cpu_limit = 10;

struct RunResult { bool bad = false; std::string cls, detail; uint64_t hash = 0; bool nontriv = false; size_t nchoices = 0; };

static void exec_scenario(Ctx& cx, RunResult& r)
{
    log_reset();
    io_reset();
    cx.ch.mirrored = true;
    arena_begin_run(0, false);
    uint64_t as = cx.draw(2) ? 1 + cx.draw(1 << 16) : 0;
    bool reuse = cx.draw(2);
    arena_set_layout(as, reuse);
    try { g_scn->fn(cx); check_pending(); }
    catch (Violation& v) { r.bad = true; r.cls = v.cls; r.detail = v.detail; }
    catch (std::exception& e) { r.bad = true; r.cls = "harness-exception"; r.detail = e.what(); }
    io_reset();
    r.hash = log_hash();
    r.nontriv = is_nontrivial();
    r.nchoices = cx.ch.seq.size();
}
static RunResult run_once(Ctx& cx)
{
    RunResult r;
    exec_scenario(cx, r);
    if (!r.bad && g_scn->check_leaks && arena_live_blocks()) {
        // allocated once and kept (a lazily initialised static) or a leak?  Execute it again.
        Ctx c2; c2.thorough = cx.thorough; c2.ch.replay = true; c2.ch.seq = cx.ch.seq;
        RunResult r2;
        int fd = g_verbose_fd; g_verbose_fd = -1;
        exec_scenario(c2, r2);
        g_verbose_fd = fd;
        if (r2.bad) { r.bad = true; r.cls = r2.cls; r.detail = "on the second execution of the same run: " + r2.detail; }
        else if (arena_live_blocks()) {
            r.bad = true; r.cls = "leak";
            r.detail = strf("%zu blocks (%zu bytes) still allocated after everything was destroyed: ", arena_live_blocks(), arena_live_bytes()) + arena_live_report();
        }
    }
    return r;
}

static void set_cpu_limit(int s)
{
    struct itimerval t = {{0, 0}, {s, 0}};
    setitimer(ITIMER_PROF, &t, 0);
}

static uint64_t mix(uint64_t a, uint64_t b) { Rng r; r.seed(a ^ (b * 0x9e3779b97f4a7c15ull)); r.next(); return r.next(); }
static uint64_t seed_of(uint64_t base, std::string const& id, uint64_t idx) { return mix(mix(base, hash_bytes(id.data(), id.size())), idx); }

// Does a process wait for something that never comes?  All its threads sleep, and it used no processor time
// for BLOCKED seconds.  (A process that does not get the processor is runnable, not asleep.)
static const double BLOCKED = 5;
static double now();
struct Watch { double since = 0, last = 0; unsigned long long cpu = 0; };
static bool blocked(pid_t pid, Watch& w)
{
    double t = now();
    if (t - w.last < 0.5) return false;
    w.last = t;
    std::string d = strf("/proc/%d/task", (int)pid);
    DIR* dir = opendir(d.c_str());
    if (!dir) { w.since = 0; return false; }
    unsigned long long cpu = 0; bool asleep = true; bool any = false;
    while (struct dirent* e = readdir(dir)) {
        if (e->d_name[0] == '.') continue;
        FILE* f = fopen((d + "/" + e->d_name + "/stat").c_str(), "r");
        if (!f) continue;
        char b[1024]; size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; fclose(f);
        char* q = strrchr(b, ')'); char st = 0; unsigned long long u = 0, k = 0;
        if (!q || sscanf(q + 1, " %c %*s %*s %*s %*s %*s %*s %*s %*s %*s %*s %llu %llu", &st, &u, &k) != 3) continue;
        any = true; cpu += u + k; asleep = asleep && st == 'S';
    }
    closedir(dir);
    if (!any || !asleep || !w.since || cpu > w.cpu + 1) { w.since = any && asleep ? t : 0; w.cpu = cpu; return false; }
    return t - w.since >= BLOCKED;
}

// ---- worker plumbing --------------------------------------------------------------------------------
struct Worker {
    pid_t pid = -1; int fd = -1, err = -1; std::string buf;
    uint64_t cur = 0, end = 0; uint64_t* mirror = 0; bool started = false; Watch watch;
};
static const size_t MIRROR = 400064;
static uint64_t* new_mirror()
{
    void* p = mmap(0, MIRROR * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (uint64_t*)p;
}
static Seq mirror_seq(uint64_t* m) { return Seq(m + 1, m + 1 + std::min<uint64_t>(m[0], MIRROR - 2)); }
static void child_setup(int errfd)
{
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1); close(n);
    if (errfd >= 0) { dup2(errfd, 2); }
}
static std::string one_line(std::string s) { for (auto& c : s) if (c == '\n' || c == '\r') c = ' '; return s; }

static std::string read_fd(int fd)
{
    std::string r; char b[4096]; ssize_t n; off_t o = 0;
    while ((n = pread(fd, b, sizeof b, o)) > 0) { r.append(b, n); o += n; }
    return r;
}
static RunResult classify_death(int status, int errfd)
{
    RunResult r; r.bad = true;
    std::string e = read_fd(errfd);
    std::string arena, kind;
    size_t p = e.find("ARENA: ");
    if (p != std::string::npos) arena = e.substr(p + 7, e.find('\n', p) - p - 7);
    p = e.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos) { kind = e.substr(p + 25); kind = kind.substr(0, kind.find_first_of(" \n")); }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 78) { r.cls = "memory:" + arena; r.detail = arena; }
    else if (WIFEXITED(status) && WEXITSTATUS(status) == 79) {
        p = e.find("SCHED: ");
        std::string m = p == std::string::npos ? "?|?" : e.substr(p + 7, e.find('\n', p) - p - 7);
        r.cls = m.substr(0, m.find('|')); r.detail = m.substr(m.find('|') + 1);
    }
    else if (WIFEXITED(status) && WEXITSTATUS(status) == 77) {
        r.cls = "memory:" + (arena.find("outside the simulated") == std::string::npos && !arena.empty() ? arena : kind);
        r.detail = "AddressSanitizer: " + kind + " (" + arena + ")";
        if (kind.empty() && arena.empty()) r.detail = one_line(e.size() > 1500 ? e.substr(e.size() - 1500) : e);
    }
    else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF) { r.cls = "hang"; r.detail = strf("no end after %d s of processor time", g_cpu_limit); }
    else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGXCPU) { r.cls = "blocked"; r.detail = "it waits forever, for a lock that no one will release or for something else that never comes"; }
    else if (WIFSIGNALED(status)) { r.cls = strf("crash:signal %d", WTERMSIG(status)); r.detail = one_line(e.size() > 300 ? e.substr(e.size() - 300) : e); }
    else { r.cls = strf("crash:exit %d", WEXITSTATUS(status)); r.detail = one_line(e.size() > 300 ? e.substr(e.size() - 300) : e); }
    for (auto& c : r.cls) if (c == ' ') c = '-';
    return r;
}

// one execution of a given choice sequence (or seed) in a fresh child
static std::vector<uint64_t> g_hist; // runs (seeds) executed before it in the same process
static RunResult run_child(Seq* seq, uint64_t seed, int verbose_fd = -1)
{
    static uint64_t* mirror = new_mirror();
    int pfd[2]; if (pipe(pfd)) exit(3);
    int err = memfd_create("err", 0);
    mirror[0] = 0;
    fflush(stdout); std::cout.flush();
    pid_t pid = fork();
    if (pid == 0) {
        close(pfd[0]);
        child_setup(err);
        for (uint64_t hs : g_hist) {
            Ctx hx; hx.thorough = g_thorough; hx.ch.rng.seed(hs);
            set_cpu_limit(g_cpu_limit);
            run_once(hx);
        }
        g_choice_mirror = mirror; g_verbose_fd = verbose_fd;
        Ctx cx; cx.thorough = g_thorough;
        if (seq) { cx.ch.replay = true; cx.ch.seq = *seq; } else cx.ch.rng.seed(seed);
        set_cpu_limit(g_cpu_limit);
        RunResult r = run_once(cx);
        std::string s = strf("%d %llu %d\n", r.bad, (unsigned long long)r.hash, r.nontriv) + one_line(r.cls) + "\n" + one_line(r.detail) + "\n";
        if (write(pfd[1], s.data(), s.size())) {}
        _exit(0);
    }
    close(pfd[1]);
    std::string buf; char b[4096]; ssize_t n;
    Watch watch;
    for (;;) {
        struct pollfd pf = {pfd[0], POLLIN, 0};
        if (poll(&pf, 1, 1000) <= 0) { if (blocked(pid, watch)) kill(pid, SIGXCPU); continue; }
        n = read(pfd[0], b, sizeof b);
        if (n > 0) buf.append(b, n);
        else if (n == 0 || errno != EINTR) break;
    }
    close(pfd[0]);
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    RunResult r;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !buf.empty()) {
        std::istringstream in(buf);
        int bad, nt; unsigned long long h;
        in >> bad >> h >> nt; in.ignore();
        std::getline(in, r.cls); std::getline(in, r.detail);
        r.bad = bad; r.hash = h; r.nontriv = nt;
    } else r = classify_death(st, err);
    close(err);
    if (seq) *seq = mirror_seq(mirror);
    return r;
}

static Seq g_out_seq;
static bool try_seq(Seq const& cand, std::string const& cls, Seq& best)
{
    Seq s = cand;
    RunResult r = run_child(&s, 0);
    if (!r.bad || r.cls != cls) return false;
    while (!s.empty() && s.back() == 0) s.pop_back();
    if (s.size() < best.size() || (s.size() == best.size() && s < best)) { best = s; return true; }
    return false;
}
static double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }

static Seq minimise(Seq s, std::string const& cls, double budget)
{
    double t0 = now();
    while (!s.empty() && s.back() == 0) s.pop_back();
    bool progress = true;
    while (progress && now() - t0 < budget) {
        progress = false;
        for (size_t len = std::max<size_t>(1, s.size() / 2); len >= 1 && now() - t0 < budget; len /= 2) {
            for (size_t i = 0; i < s.size() && now() - t0 < budget; ) {
                Seq c = s; size_t e = std::min(c.size(), i + len);
                c.erase(c.begin() + i, c.begin() + e);
                if (try_seq(c, cls, s)) { progress = true; continue; }
                c = s; bool nz = false;
                for (size_t k = i; k < e && k < c.size(); ++k) { nz |= c[k] != 0; c[k] = 0; }
                if (nz && len > 1 && try_seq(c, cls, s)) progress = true;
                i += len;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < s.size() && now() - t0 < budget; ++i) {
            if (!s[i]) continue;
            Seq c = s; c[i] = 0;
            if (try_seq(c, cls, s)) { progress = true; continue; }
            for (int k = 0; k < 12 && i < s.size() && s[i] > 1; ++k) {
                c = s; c[i] = k % 2 ? s[i] - 1 : s[i] / 2;
                if (c[i] == s[i]) break;
                if (try_seq(c, cls, s)) progress = true; else if (k % 2) break;
                if (now() - t0 > budget) break;
            }
        }
    }
    return s;
}

static std::string json_str(std::string const& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) r += strf("\\u%04x", c);
        else r += c;
    }
    return r + "\"";
}
static std::string trace_of(Seq seq, RunResult& r)
{
    int fd = memfd_create("trace", 0);
    r = run_child(&seq, 0, fd);
    std::string t = read_fd(fd);
    close(fd);
    return t;
}

static void warm_up();

int main(int argc, char** argv)
{
    if (argc < 3) { fprintf(stderr, "usage: tsim campaign PROP [options] | tsim replay FILE | tsim list x\n"); return 2; }
    std::string cmd = argv[1];
    std::map<std::string, std::string> opt;
    for (int i = 3; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
    auto geti = [&](char const* k, uint64_t d) { return opt.count(k) ? strtoull(opt[k].c_str(), 0, 10) : d; };
    signal(SIGPIPE, SIG_IGN);
    setenv("TYPELIB_PLUGIN_PATH", VERIF_PLUGIN_DIRS, 1);
    arena_init();

    if (cmd == "list") { for (auto& s : scenarios()) printf("%s\n", s.first.c_str()); return 0; }

    std::string prop; Seq replay_seq; std::string want_cls; unsigned long long want_hash = 0;
    if (cmd == "replay") {
        std::ifstream in(argv[2]); std::string line;
        while (std::getline(in, line)) {
            std::istringstream ls(line); std::string k; ls >> k;
            if (k == "property") ls >> prop;
            else if (k == "class") ls >> want_cls;
            else if (k == "hash") ls >> want_hash;
            else if (k == "thorough") ls >> g_thorough;
            else if (k == "history") { size_t n; ls >> n; g_hist.resize(n); for (auto& v : g_hist) ls >> v; }
            else if (k == "choices") { size_t n; ls >> n; replay_seq.resize(n); for (auto& v : replay_seq) ls >> v; }
            else if (k == "trace") break;
        }
    } else prop = argv[2];
    if (!scenarios().count(prop)) { fprintf(stderr, "no scenario for '%s'\n", prop.c_str()); return 2; }
    g_scn = &scenarios()[prop];
    if (opt.count("--thorough")) g_thorough = true;
    warm_up();

    if (cmd == "replay") {
        RunResult r;
        std::string t = trace_of(replay_seq, r);
        printf("%s", t.c_str());
        printf("RESULT class=%s hash=%llu\nDETAIL %s\n", r.bad ? r.cls.c_str() : "none", (unsigned long long)r.hash, r.detail.c_str());
        if (!r.bad) return 0;
        return 1;
    }
    if (cmd == "one") {
        int fd = memfd_create("trace", 0);
        RunResult r = run_child(0, seed_of(geti("--seed", 1), prop, geti("--idx", 0)), fd);
        printf("%sRESULT class=%s hash=%llu\nDETAIL %s\n", read_fd(fd).c_str(), r.bad ? r.cls.c_str() : "none", (unsigned long long)r.hash, r.detail.c_str());
        return r.bad;
    }

    uint64_t base = geti("--seed", 1), runs = geti("--runs", 2000), batch = geti("--batch", 64), jobs = geti("--jobs", 8);
    if (g_scn->cold) batch = 1;          // every run starts from a process in which nothing is initialised yet
    double tlimit = geti("--time", 120), mintime = geti("--mintime", 20);
    std::string out = opt.count("--out") ? opt["--out"] : ".";
    g_state_cap = size_t(1) << 22;
    g_state_table = (uint64_t*)mmap(0, g_state_cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);

    struct Cand { uint64_t idx; RunResult r; Seq seq; uint64_t batch_start; };
    std::map<std::string, Cand> cands; std::map<std::string, uint64_t> cand_count;
    std::set<uint64_t> hashes, nthashes; uint64_t done = 0, nontriv = 0, choices = 0, hangs = 0; uint64_t allhash = 0;
    std::map<std::string, uint64_t> cnt;
    std::deque<std::pair<uint64_t, uint64_t>> todo;
    uint64_t next = 0;
    std::vector<Worker> W(jobs);
    for (auto& w : W) w.mirror = new_mirror();
    double t0 = now();
    auto spawn = [&](Worker& w, uint64_t b, uint64_t e) {
        int pfd[2]; if (pipe(pfd)) exit(3);
        w.err = memfd_create("err", 0);
        w.cur = b; w.end = e; w.buf.clear(); w.mirror[0] = 0; w.started = false;
        pid_t pid = fork();
        if (pid == 0) {
            for (auto& x : W) if (x.fd >= 0) close(x.fd);
            close(pfd[0]);
            child_setup(w.err);
            g_choice_mirror = w.mirror;
            counters().clear();
            FILE* o = fdopen(pfd[1], "w");
            for (uint64_t i = b; i < e; ++i) {
                fprintf(o, "S %llu\n", (unsigned long long)i); fflush(o);
                w.mirror[0] = 0;
                Ctx cx; cx.thorough = g_thorough;
                cx.ch.rng.seed(seed_of(base, prop, i));
                set_cpu_limit(g_cpu_limit);
                if (opt.count("--trace") && i == geti("--trace", 0)) g_verbose_fd = open((out + strf("/trace.%d", (int)getpid())).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
                RunResult r = run_once(cx);
                if (r.bad) {
                    fprintf(o, "V %s\nD %s\nQ %zu", one_line(r.cls).c_str(), one_line(r.detail).c_str(), cx.ch.seq.size());
                    for (auto v : cx.ch.seq) fprintf(o, " %llu", (unsigned long long)v);
                    fprintf(o, "\n");
                }
                fprintf(o, "R %llu %d %zu\n", (unsigned long long)r.hash, r.nontriv, r.nchoices);
            }
            for (auto& c : counters()) fprintf(o, "C %llu %s\n", (unsigned long long)c.second, c.first.c_str());
            fprintf(o, "E\n"); fflush(o);
#ifdef VERIF_COV
            fclose(o); set_cpu_limit(0); exit(0);       // writes the coverage counters (tools/cov.sh)
#endif
            _exit(0);
        }
        close(pfd[1]);
        w.pid = pid; w.fd = pfd[0]; w.watch = Watch();
    };
    auto add_cand = [&](uint64_t idx, RunResult const& r, Seq const& s, uint64_t bs) {
        cand_count[r.cls]++;
        if (r.cls == "hang" || r.cls == "blocked") ++hangs;
        auto it = cands.find(r.cls);
        if (it == cands.end() || idx < it->second.idx) cands[r.cls] = Cand{idx, r, s, bs};
    };
    bool stopping = false;
    std::ofstream hf;
    if (opt.count("--hashes")) hf.open(opt["--hashes"]);
    for (;;) {
        stopping = stopping || now() - t0 > tlimit || hangs >= 8;
        bool any = false;
        for (auto& w : W) {
            if (w.pid < 0 && !stopping) {
                if (!todo.empty()) { auto p = todo.front(); todo.pop_front(); spawn(w, p.first, p.second); }
                else if (next < runs) { uint64_t e = std::min(runs, next + batch); spawn(w, next, e); next = e; }
            }
            any |= w.pid >= 0;
        }
        if (!any) break;
        std::vector<struct pollfd> pf; std::vector<Worker*> pw;
        for (auto& w : W) if (w.pid >= 0) { pf.push_back({w.fd, POLLIN, 0}); pw.push_back(&w); }
        poll(pf.data(), pf.size(), 1000);
        for (size_t k = 0; k < pf.size(); ++k) {
            Worker& w = *pw[k];
            if (!pf[k].revents) { if (blocked(w.pid, w.watch)) kill(w.pid, SIGXCPU); continue; }
            char b[65536]; ssize_t n = read(w.fd, b, sizeof b);
            if (n > 0) { w.buf.append(b, n); continue; }
            if (n < 0 && errno == EINTR) continue;
            close(w.fd); w.fd = -1;
            int st; while (waitpid(w.pid, &st, 0) < 0 && errno == EINTR) { }
            w.pid = -1;
            std::istringstream in(w.buf); std::string line; bool ended = false; uint64_t idx = 0, bs = w.cur; bool open_run = false;
            RunResult vr; Seq vs;
            while (std::getline(in, line)) {
                if (line[0] == 'S') { idx = strtoull(line.c_str() + 2, 0, 10); open_run = true; }
                else if (line[0] == 'R') {
                    unsigned long long h; int nt; size_t nc;
                    sscanf(line.c_str() + 2, "%llu %d %zu", &h, &nt, &nc);
                    ++done; nontriv += nt; choices += nc; hashes.insert(h); if (nt) nthashes.insert(h);
                    allhash += mix(h, idx);
                    if (hf.is_open()) hf << idx << " " << h << "\n";
                    open_run = false;
                }
                else if (line[0] == 'V') { vr = RunResult(); vr.bad = true; vr.cls = line.substr(2); }
                else if (line[0] == 'D') vr.detail = line.size() > 2 ? line.substr(2) : "";
                else if (line[0] == 'Q') {
                    std::istringstream ls(line.substr(2)); size_t nn; ls >> nn; vs.resize(nn); for (auto& v : vs) ls >> v;
                    add_cand(idx, vr, vs, bs);
                }
                else if (line[0] == 'C') { char* e; unsigned long long v = strtoull(line.c_str() + 2, &e, 10); cnt[e + 1] += v; }
                else if (line[0] == 'E') ended = true;
            }
            if (!ended) {
                if (!open_run) { fprintf(stderr, "worker died between runs (status %x)\n%s\n", st, read_fd(w.err).c_str()); return 3; }
                ++done;
                RunResult r = classify_death(st, w.err);
                add_cand(idx, r, mirror_seq(w.mirror), bs);
                if (idx + 1 < w.end) todo.push_back({idx + 1, w.end});
            }
            close(w.err);
        }
    }
    double wall = now() - t0;

    // ---- report ---------------------------------------------------------------------------------------
    std::string vj;
    std::vector<std::pair<uint64_t, std::string>> byidx;
    for (auto& c : cands) byidx.push_back({c.second.idx, c.first});
    std::sort(byidx.begin(), byidx.end());
    int nv = 0; int unrepro = 0;
    for (auto& bi : byidx) {
        Cand& c = cands[bi.second];
        if (nv >= 5) break;
        Seq s = c.seq;
        RunResult r = run_child(&s, 0);
        bool repro = r.bad && r.cls == c.r.cls;
        std::string path, trace;
        RunResult first = r;
        if (!repro && c.batch_start < c.idx) {
            // it depends on what the same process executed before: take these runs in, then drop those not needed
            for (uint64_t i = c.batch_start; i < c.idx; ++i) g_hist.push_back(seed_of(base, prop, i));
            s = c.seq; r = run_child(&s, 0);
            repro = r.bad && r.cls == c.r.cls;
            double h0 = now();
            if (repro)
                for (size_t len = (g_hist.size() + 1) / 2; len >= 1 && now() - h0 < mintime + 2; len /= 2) {
                    for (size_t i = 0; i < g_hist.size() && now() - h0 < mintime + 2; ) {
                        std::vector<uint64_t> keep = g_hist;
                        g_hist.erase(g_hist.begin() + i, g_hist.begin() + std::min(keep.size(), i + len));
                        Seq t = s; RunResult r2 = run_child(&t, 0);
                        if (!(r2.bad && r2.cls == c.r.cls)) { g_hist = keep; i += len; }
                    }
                    if (len == 1) break;
                }
        }
        if (repro) {
            Seq m = c.r.cls == "hang" || c.r.cls == "blocked" ? s : minimise(s, c.r.cls, mintime);
            trace = trace_of(m, r);
            Seq m2 = m; RunResult r2 = run_child(&m2, 0);
            repro = r.bad && r2.bad && r.cls == r2.cls && r.hash == r2.hash;
            path = out + "/" + prop + "-" + strf("%016llx", (unsigned long long)hash_bytes(c.r.cls.data(), c.r.cls.size(), seed_of(base, prop, c.idx))) + ".replay";
            std::ofstream f(path);
            if (!g_hist.empty()) trace = strf("(after %zu earlier simulated runs in the same process)\n", g_hist.size()) + trace;
            f << "# tsim replay file: run 'tsim replay <this file>' (or python3 run.py --replay <this file>)\n";
            f << "property " << prop << "\nclass " << r.cls << "\nseed " << base << " run " << c.idx << "\nthorough " << g_thorough << "\nhash " << r.hash << "\ndetail " << r.detail << "\nhistory " << g_hist.size();
            for (auto v : g_hist) f << " " << v;
            f << "\nchoices " << m.size();
            for (auto v : m) f << " " << v;
            f << "\ntrace (simulated operations, faults and results, in order)\n" << trace;
        }
        g_hist.clear();
        if (!repro) {
            ++unrepro;
            if (!path.empty()) rename(path.c_str(), (out + strf("/%s-not-reproduced-%llu.replay", prop.c_str(), (unsigned long long)c.idx)).c_str());
            fprintf(stderr, "NOT REPRODUCED in a fresh process: %s run %llu: %s: %s (alone: %s %s)\n", prop.c_str(), (unsigned long long)c.idx, c.r.cls.c_str(), c.r.detail.c_str(), first.cls.c_str(), first.detail.c_str());
            continue;
        }
        ++nv;
        if (!vj.empty()) vj += ",\n";
        vj += "{\"class\":" + json_str(r.cls) + ",\"detail\":" + json_str(r.detail) + ",\"replay\":" + json_str(path) + strf(",\"run\":%llu,\"count\":%llu}", (unsigned long long)c.idx, (unsigned long long)cand_count[c.r.cls]);
    }
    size_t states = 0;
    for (size_t i = 0; i < g_state_cap; ++i) states += g_state_table[i] != 0;
    std::string sj;
    for (uint64_t i = 0, k = 0; i < runs && k < 3; i += std::max<uint64_t>(1, runs / 7)) {
        int fd = memfd_create("trace", 0);
        RunResult r = run_child(0, seed_of(base, prop, i), fd);
        std::string t = read_fd(fd); close(fd);
        if (!r.nontriv && i + 1 < runs / 2) continue;
        if (t.size() > 2500) t = t.substr(0, 2500) + "...";
        if (!sj.empty()) sj += ",\n";
        sj += "{\"run\":" + strf("%llu", (unsigned long long)i) + ",\"trace\":" + json_str(t) + "}";
        ++k;
    }
    std::ofstream f(out + "/" + prop + ".result.json");
    f << "{\"runs\":" << done << ",\"nontrivial\":" << nontriv << ",\"distinct_runs\":" << hashes.size() << ",\"distinct_nontrivial\":" << nthashes.size()
      << ",\"states\":" << states << ",\"choices\":" << choices << ",\"wall\":" << wall << ",\"total_wall\":" << (now() - t0) << ",\"unreproduced\":" << unrepro
      << ",\"planned\":" << runs << ",\"history_hash\":\"" << std::hex << allhash << std::dec << "\"";
    f << ",\n\"counters\":{";
    bool first = true;
    for (auto& c : cnt) { if (!first) f << ","; first = false; f << json_str(c.first) << ":" << c.second; }
    f << "},\n\"violations\":[" << vj << "],\n\"samples\":[" << sj << "]}\n";
    return nv ? 1 : unrepro ? 4 : 0;
}

static Typelib::PluginManager::self* g_manager;
void sim_warm_up() __attribute__((weak));     // of simulators built on top of this one
static void warm_up()
{
    // one-time initialisations of the runtime happen before the simulation starts
    int so = dup(1), se = dup(2), n = open("/dev/null", O_WRONLY);
    dup2(n, 1); dup2(n, 2); close(n);
    xml_accounting();
    LIBXML_TEST_VERSION
    xmlInitParser();
    if (!g_scn->cold) {
        Typelib::PluginManager::self m;
        std::unique_ptr<Typelib::Registry> r(new Typelib::Registry);
        Typelib::Registry::null();
        { std::ostringstream o; o << 1.5 << std::endl; }
    }
    if (!g_scn->no_persistent_manager && !g_scn->cold) g_manager = new Typelib::PluginManager::self;
    std::cout.flush();
    if (sim_warm_up) { dup2(se, 2); sim_warm_up(); }
    dup2(so, 1); dup2(se, 2); close(so); close(se);
}
