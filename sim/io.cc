#include "io.hh"
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
#include <cstring>
#include <cstdlib>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/vfs.h>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <algorithm>
#include <libxml/parser.h>
#include <libxml/xmlmemory.h>
#include <libxml/xmlerror.h>

namespace sim {
static Sink* g_fd_sink;
static std::map<std::string, SimFile*>* g_files;
static std::map<int, SimFile*>* g_fds;
static long g_xml_live;
static std::map<std::string, SimDir*>* g_dirs;
static std::map<int, std::pair<SimDir*, std::string>>* g_dirfds;
struct DirStream { SimDir* d; int fd; size_t pos; long calls; struct dirent64 e; };
static std::vector<DirStream*>* g_streams;
static int g_next_dirfd = 5000;
int io_open_dirs() { return g_dirfds ? g_dirfds->size() : 0; }
static void reset_dirs()
{
    if (!g_dirs) return;
    g_dirs->clear(); g_dirfds->clear();
    for (auto s : *g_streams) free(s);
    g_streams->clear(); g_next_dirfd = 5000;
}
void io_dir(std::string const& path, SimDir* d)
{
    NoScope ns;
    if (!g_dirs) { g_dirs = new std::map<std::string, SimDir*>; g_dirfds = new std::map<int, std::pair<SimDir*, std::string>>; g_streams = new std::vector<DirStream*>; }
    if (d) (*g_dirs)[path] = d; else g_dirs->erase(path);
}
static std::string norm(char const* path)
{
    std::string r;
    for (char const* p = path; *p; ++p) if (*p != '/' || r.empty() || r.back() != '/') r += *p;
    while (r.size() > 1 && r.back() == '/') r.pop_back();
    return r;
}
static bool mine(char const* path) { return path && !strncmp(path, "/sim/", 5) && g_dirs; }
// 0: nothing, 1: directory, 2: entry
static int find(std::string const& path, SimDir** d, SimEntry** e)
{
    auto it = g_dirs->find(path);
    if (it != g_dirs->end()) { *d = it->second; return 1; }
    size_t p = path.rfind('/');
    it = g_dirs->find(path.substr(0, p));
    if (it == g_dirs->end() || !it->second->is_dir) return 0;
    for (auto& x : it->second->entries) if (x.name == path.substr(p + 1)) { *d = it->second; *e = &x; return 2; }
    return 0;
}
static int dir_mode(char const* path, unsigned* mode, bool follow = true)       // stat: errno or 0
{
    NoScope ns;
    SimDir* d; SimEntry* e;
    int k = find(norm(path), &d, &e);
    if (!k) return ENOENT;
    if (k == 1) { if (d->no_stat) { count("fault.stat-error"); nontrivial(); return EACCES; } *mode = d->is_dir ? 0040755 : 0100644; return 0; }
    *mode = e->type == 4 ? 0040755 : e->type == 10 && !follow ? 0120777 : 0100755;
    return 0;
}
static int dir_open(char const* path, int flags)
{
    NoScope ns;
    SimDir* d; SimEntry* e;
    int k = find(norm(path), &d, &e);
    if (k != 1) { errno = !k ? ENOENT : ENOTDIR; return -1; }
    if (d->open_err) { count("fault.opendir-error"); nontrivial(); errno = d->open_err; return -1; }
    if (!d->is_dir) { errno = ENOTDIR; return -1; }
    int fd = g_next_dirfd++;
    (*g_dirfds)[fd] = {d, norm(path)};
    return fd;
}
static DirStream* stream_of(void* p)
{
    if (!g_streams) return 0;
    for (auto s : *g_streams) if (s == p) return s;
    return 0;
}
static DirStream* dir_stream(int fd)
{
    NoScope ns;
    DirStream* s = (DirStream*)calloc(1, sizeof(DirStream));
    s->d = (*g_dirfds)[fd].first; s->fd = fd;
    g_streams->push_back(s);
    return s;
}
static struct dirent64* dir_read(DirStream* s)
{
    NoScope ns;
    if (s->calls++ == s->d->err_at) { count("fault.readdir-error"); nontrivial(); errno = s->d->read_err; return 0; }
    size_t n = s->d->entries.size() + 2;
    if (s->pos >= n) return 0;
    size_t i = s->pos++;
    std::string name = i == 0 ? "." : i == 1 ? ".." : s->d->entries[i - 2].name;
    s->e.d_ino = i + 1; s->e.d_off = i + 1; s->e.d_reclen = sizeof s->e;
    s->e.d_type = s->d->no_types ? 0 : i < 2 ? 4 : s->d->entries[i - 2].type;
    snprintf(s->e.d_name, sizeof s->e.d_name, "%s", name.c_str());
    return &s->e;
}
static int dir_close(int fd)
{
    NoScope ns;
    g_dirfds->erase(fd);
    for (size_t i = 0; i < g_streams->size(); ++i) if ((*g_streams)[i]->fd == fd) { free((*g_streams)[i]); g_streams->erase(g_streams->begin() + i); break; }
    return 0;
}
std::string sim_lib(char const* path)
{
    NoScope ns;
    if (!mine(path)) return path ? path : "";
    SimDir* d; SimEntry* e = 0;
    int k = find(norm(path), &d, &e);
    if (k != 2 || e->target.empty()) return path;                  // fails like the real one
    if (e->dlfail) { count("fault.dlopen-error"); nontrivial(); return path; }
    return e->target;
}
void io_reset() { reset_dirs(); g_fd_sink = 0; if (g_files) g_files->clear(); if (g_fds) g_fds->clear(); }
void io_file(std::string const& path, SimFile* f)
{
    NoScope ns;
    if (!g_files) { g_files = new std::map<std::string, SimFile*>; g_fds = new std::map<int, SimFile*>; }
    if (f) (*g_files)[path] = f; else g_files->erase(path);
}
static SimFile* file_of(int fd)
{
    if (!g_fds || g_fds->empty()) return 0;
    auto it = g_fds->find(fd);
    return it == g_fds->end() ? 0 : it->second;
}
SourceBuf::int_type SourceBuf::underflow()
{
    if (pos >= fail_at) { NoScope ns; fired = true; count("fault.read-error"); nontrivial(); throw SimStdFault(); }
    size_t n = std::min(chunk, std::min(d.size() - pos, fail_at - pos));
    if (!n) return traits_type::eof();
    memcpy(buf, d.data() + pos, n); pos += n;
    setg(buf, buf, buf + n);
    return traits_type::to_int_type(buf[0]);
}
static void* xm(size_t n) { ++g_xml_live; return malloc(n ? n : 1); }
static void xf(void* p) { if (p) { --g_xml_live; free(p); } }
static void* xr(void* p, size_t n) { if (!p) return xm(n); return realloc(p, n ? n : 1); }
static char* xs(char const* s) { ++g_xml_live; return strdup(s); }
static void quiet(void*, char const*, ...) {}
void xml_accounting() { xmlMemSetup(xf, xm, xr, xs); xmlSetGenericErrorFunc(0, quiet); }
long xml_live() { return g_xml_live; }
char const* wfault_name(int f) { static char const* n[] = {"none", "short-write", "error", "full", "transient", "zero"}; return n[f]; }

long Sink::write(char const* p, size_t n, int* e)
{
    NoScope ns;
    long c = calls++;
    *e = 0;
    if (fault == W_FULL) {
        size_t room = cap > data.size() ? cap - data.size() : 0;
        if (n > room) {
            fired = true; count("fault.sink-full"); nontrivial();
            if (room == 0) { *e = err; return -1; }
            data.append(p, room);
            return room;
        }
    } else if (fault == W_ERROR ? (at_call >= 0 && c >= at_call) : c == at_call) {
        switch (fault) {
        case W_SHORT:
            if (n > 1) { size_t m = 1 + (n - 1) * (cap % 97) / 97; if (m >= n) m = n - 1; data.append(p, m); fired = true; count("fault.short-write"); nontrivial(); return m; }
            break;
        case W_ERROR: fired = true; count("fault.write-error"); nontrivial(); *e = err; return -1;
        case W_TRANSIENT: fired = true; count("fault.write-transient"); nontrivial(); *e = err; return -1;
        case W_ZERO: fired = true; count("fault.write-zero"); nontrivial(); return 0;
        }
    }
    data.append(p, n);
    return n;
}
void io_fake_fd(Sink* s) { g_fd_sink = s; }

static ssize_t cookie_write(void* c, char const* p, size_t n)
{
    int e; long r = ((Sink*)c)->write(p, n, &e);
    if (r < 0) { errno = e; return 0; }     // stdio: 0 means error for a cookie stream
    return r;
}
FILE* io_fake_file(Sink* s)
{
    cookie_io_functions_t f; memset(&f, 0, sizeof f); f.write = cookie_write;
    return fopencookie(s, "w", f);
}

bool SinkBuf::push(char const* p, size_t n, size_t& done)
{
    int e; long r = s.write(p, n, &e);
    done = r < 0 ? 0 : r;
    if (done == n) return true;
    if (throws) throw SimStdFault();
    return false;
}
std::streamsize SinkBuf::xsputn(char const* p, std::streamsize n)
{
    if (n <= 0) return 0;
    if (buffered) { NoScope ns; buf.append(p, n); if (buf.size() >= 64) { if (sync()) return 0; } return n; }
    size_t d; push(p, n, d); return d;
}
SinkBuf::int_type SinkBuf::overflow(int_type c)
{
    if (c == traits_type::eof()) return 0;
    char x = c; return xsputn(&x, 1) == 1 ? c : traits_type::eof();
}
int SinkBuf::sync()
{
    NoScope ns;
    if (buf.empty()) return 0;
    std::string b; b.swap(buf);
    size_t d; return push(b.data(), b.size(), d) ? 0 : -1;
}
}

using namespace sim;
template<typename F> static F real_fn(char const* name, F) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(name) static auto real = real_fn(#name, &::name)

static ssize_t sim_write(SimFile* f, char const* p, size_t n)
{
    NoScope ns;
    if (f->calls++ == f->eintr_at) { count("fault.interrupted-write"); f->fired = true; nontrivial(); errno = EINTR; return -1; }
    int e; long r = f->w.write(p, n, &e);
    if (f->w.fired) f->fired = true;
    if (r < 0) errno = e;
    return r;
}
extern "C" ssize_t write(int fd, void const* p, size_t n)
{
    REAL(write);
    if (fd == FAKE_FD && g_fd_sink) {
        int e; long r = g_fd_sink->write((char const*)p, n, &e);
        if (r < 0) errno = e;
        return r;
    }
    if (SimFile* f = file_of(fd)) return sim_write(f, (char const*)p, n);
    return real(fd, p, n);
}
extern "C" ssize_t writev(int fd, struct iovec const* v, int n)
{
    REAL(writev);
    SimFile* f = file_of(fd);
    if (!f) return real(fd, v, n);
    NoScope ns;
    std::string all;
    for (int i = 0; i < n; ++i) all.append((char const*)v[i].iov_base, v[i].iov_len);
    return sim_write(f, all.data(), all.size());
}
extern "C" ssize_t read(int fd, void* p, size_t n)
{
    REAL(read);
    SimFile* f = file_of(fd);
    if (!f) return real(fd, p, n);
    NoScope ns;
    if (f->calls++ == f->eintr_at) { count("fault.interrupted-read"); f->fired = true; nontrivial(); errno = EINTR; return -1; }
    if (f->pos >= f->read_err_at) { count("fault.read-error"); f->fired = true; nontrivial(); errno = f->read_err; return -1; }
    size_t m = std::min(n, std::min(f->content.size() - f->pos, f->read_err_at - f->pos));
    if (f->chunk) m = std::min(m, f->chunk);
    memcpy(p, f->content.data() + f->pos, m); f->pos += m;
    return m;
}
static FILE* sim_fopen(char const* path, char const* mode, FILE* (*real)(char const*, char const*), bool& mine)
{
    NoScope ns;
    mine = false;
    if (!path || strncmp(path, "/sim/", 5) || !g_files) return 0;
    mine = true;
    auto it = g_files->find(path);
    bool wr = strchr(mode, 'w') || strchr(mode, 'a');
    if (it == g_files->end()) { errno = ENOENT; return 0; }
    SimFile* f = it->second;
    if (f->open_err) { count("fault.open-error"); f->fired = true; nontrivial(); errno = f->open_err; return 0; }
    FILE* r = real("/dev/null", mode);
    if (!r) return 0;
    if (wr && !strchr(mode, 'a')) f->w.data.clear();
    f->pos = 0; f->opened = true; f->closed = false;
    (*g_fds)[fileno(r)] = f;
    return r;
}
extern "C" FILE* fopen(char const* path, char const* mode)
{
    static auto real = (FILE* (*)(char const*, char const*))dlsym(RTLD_NEXT, "fopen");
    bool mine; FILE* f = sim_fopen(path, mode, real, mine);
    return mine ? f : real(path, mode);
}
extern "C" FILE* fopen64(char const* path, char const* mode)
{
    static auto real = (FILE* (*)(char const*, char const*))dlsym(RTLD_NEXT, "fopen64");
    bool mine; FILE* f = sim_fopen(path, mode, real, mine);
    return mine ? f : real(path, mode);
}
extern "C" int fclose(FILE* fp)
{
    static auto real = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
    SimFile* f = fp && g_fds && !g_fds->empty() ? file_of(fileno(fp)) : 0;
    if (!f) return real(fp);
    NoScope ns;
    g_fds->erase(fileno(fp));
    int r = real(fp);
    f->closed = true;
    if (f->close_err) { count("fault.close-error"); f->fired = true; nontrivial(); errno = f->close_err; return EOF; }
    return r;
}

// ---- directories ---------------------------------------------------------------------------------
#define OPEN_MODE(last) int m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, last); m = va_arg(a, int); va_end(a); }
#define NEXT(type, name) static auto real = (type)dlsym(RTLD_NEXT, name)
extern "C" {
int open(char const* p, int fl, ...) { NEXT(int (*)(char const*, int, ...), "open"); OPEN_MODE(fl) if (mine(p)) return dir_open(p, fl); return real(p, fl, m); }
int open64(char const* p, int fl, ...) { NEXT(int (*)(char const*, int, ...), "open64"); OPEN_MODE(fl) if (mine(p)) return dir_open(p, fl); return real(p, fl, m); }
int __open_2(char const* p, int fl) { NEXT(int (*)(char const*, int), "__open_2"); if (mine(p)) return dir_open(p, fl); return real(p, fl); }
int __open64_2(char const* p, int fl) { NEXT(int (*)(char const*, int), "__open64_2"); if (mine(p)) return dir_open(p, fl); return real(p, fl); }
int openat(int d, char const* p, int fl, ...) { NEXT(int (*)(int, char const*, int, ...), "openat"); OPEN_MODE(fl) if (mine(p)) return dir_open(p, fl); return real(d, p, fl, m); }
int openat64(int d, char const* p, int fl, ...) { NEXT(int (*)(int, char const*, int, ...), "openat64"); OPEN_MODE(fl) if (mine(p)) return dir_open(p, fl); return real(d, p, fl, m); }
int __openat_2(int d, char const* p, int fl) { NEXT(int (*)(int, char const*, int), "__openat_2"); if (mine(p)) return dir_open(p, fl); return real(d, p, fl); }
int __openat64_2(int d, char const* p, int fl) { NEXT(int (*)(int, char const*, int), "__openat64_2"); if (mine(p)) return dir_open(p, fl); return real(d, p, fl); }
int close(int fd) { NEXT(int (*)(int), "close"); if (g_dirfds && g_dirfds->count(fd)) return dir_close(fd); return real(fd); }
DIR* fdopendir(int fd) { NEXT(DIR* (*)(int), "fdopendir"); if (g_dirfds && g_dirfds->count(fd)) return (DIR*)dir_stream(fd); return real(fd); }
DIR* opendir(char const* p) { NEXT(DIR* (*)(char const*), "opendir"); if (!mine(p)) return real(p); int fd = dir_open(p, 0); return fd < 0 ? 0 : (DIR*)dir_stream(fd); }
struct dirent* readdir(DIR* d) { NEXT(struct dirent* (*)(DIR*), "readdir"); if (DirStream* s = stream_of(d)) return (struct dirent*)dir_read(s); return real(d); }
struct dirent64* readdir64(DIR* d) { NEXT(struct dirent64* (*)(DIR*), "readdir64"); if (DirStream* s = stream_of(d)) return dir_read(s); return real(d); }
int closedir(DIR* d) { NEXT(int (*)(DIR*), "closedir"); if (DirStream* s = stream_of(d)) return dir_close(s->fd); return real(d); }
int dirfd(DIR* d) { NEXT(int (*)(DIR*), "dirfd"); if (DirStream* s = stream_of(d)) return s->fd; return real(d); }
#define STAT(name, st, follow) int name(char const* p, struct st* b) { NEXT(int (*)(char const*, struct st*), #name); if (!mine(p)) return real(p, b); unsigned m; int e = dir_mode(p, &m, follow); if (e) { errno = e; return -1; } memset(b, 0, sizeof *b); b->st_mode = m; b->st_nlink = 1; return 0; }
STAT(stat, stat, true) STAT(lstat, stat, false) STAT(stat64, stat64, true) STAT(lstat64, stat64, false)
static int of_fd(int fd, unsigned* m) { if (!g_dirfds || !g_dirfds->count(fd)) return 0; *m = 0040755; return 1; }
#define FSTAT(name, st) int name(int fd, struct st* b) { NEXT(int (*)(int, struct st*), #name); unsigned m; if (!of_fd(fd, &m)) return real(fd, b); memset(b, 0, sizeof *b); b->st_mode = m; b->st_nlink = 1; return 0; }
FSTAT(fstat, stat) FSTAT(fstat64, stat64)
static int at_mode(int d, char const* p, unsigned* m, int flags)      // -1: not simulated
{
    bool follow = !(flags & AT_SYMLINK_NOFOLLOW);
    if (mine(p)) return dir_mode(p, m, follow);
    if (!g_dirfds || !g_dirfds->count(d) || !p) return -1;
    if (!*p) { *m = 0040755; return 0; }
    NoScope ns;
    return dir_mode(((*g_dirfds)[d].second + "/" + p).c_str(), m, follow);
}
#define FSTATAT(name, st) int name(int d, char const* p, struct st* b, int fl) { NEXT(int (*)(int, char const*, struct st*, int), #name); unsigned m; int e = at_mode(d, p, &m, fl); if (e < 0) return real(d, p, b, fl); if (e) { errno = e; return -1; } memset(b, 0, sizeof *b); b->st_mode = m; b->st_nlink = 1; return 0; }
FSTATAT(fstatat, stat) FSTATAT(fstatat64, stat64)
int statx(int d, char const* p, int fl, unsigned mask, struct statx* b)
{
    NEXT(int (*)(int, char const*, int, unsigned, struct statx*), "statx");
    unsigned m; int e = at_mode(d, p, &m, fl);
    if (e < 0) return real(d, p, fl, mask, b);
    if (e) { errno = e; return -1; }
    memset(b, 0, sizeof *b); b->stx_mask = STATX_BASIC_STATS; b->stx_mode = m; b->stx_nlink = 1;
    return 0;
}
int fstatfs(int fd, struct statfs* b) { NEXT(int (*)(int, struct statfs*), "fstatfs"); if (g_dirfds && g_dirfds->count(fd)) { memset(b, 0, sizeof *b); b->f_type = 0xef53; return 0; } return real(fd, b); }
int fstatfs64(int fd, struct statfs64* b) { NEXT(int (*)(int, struct statfs64*), "fstatfs64"); if (g_dirfds && g_dirfds->count(fd)) { memset(b, 0, sizeof *b); b->f_type = 0xef53; return 0; } return real(fd, b); }
int access(char const* p, int mode) { NEXT(int (*)(char const*, int), "access"); if (!mine(p)) return real(p, mode); unsigned m; int e = dir_mode(p, &m); if (e) { errno = e; return -1; } return 0; }
}
