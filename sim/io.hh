// Simulated I/O: descriptors, streams, files and directories whose results the simulator decides.
#ifndef SIM_IO_HH
#define SIM_IO_HH
#include "core.hh"
#include <cstdio>
#include <streambuf>
#include <typelib/value_ops.hh>

namespace sim {
void io_reset();

// ---- a fault plan for a sequence of writes: the data that got through is collected ---------------
enum WFault { W_NONE, W_SHORT, W_ERROR, W_FULL, W_TRANSIENT, W_ZERO };
char const* wfault_name(int f);
struct Sink {
    std::string data;
    int fault = W_NONE;
    long at_call = -1;        // fault on this write call (0-based), for W_SHORT/W_ERROR/W_TRANSIENT/W_ZERO
    size_t cap = SIZE_MAX;    // capacity, for W_FULL
    int err = 28;
    long calls = 0; bool fired = false; bool failed_before = false;
    // returns bytes accepted, or -1 with errno semantics in *e
    long write(char const* p, size_t n, int* e);
};
static const int FAKE_FD = 1000;
void io_fake_fd(Sink* s);          // write(FAKE_FD) goes to the sink
FILE* io_fake_file(Sink* s);       // stdio stream on the sink (fopencookie)

// ---- files: paths below /sim/ exist only in the simulation ---------------------------------------
struct SimFile {
    Sink w;                    // what is written
    std::string content;       // what is read
    int open_err = 0, close_err = 0;
    size_t chunk = 0;          // at most that many bytes per read
    size_t read_err_at = SIZE_MAX; int read_err = 5;
    long eintr_at = -1;        // this read/write call is interrupted
    long calls = 0; size_t pos = 0; bool opened = false, closed = false, fired = false;
};
void io_file(std::string const& path, SimFile* f);      // 0 removes it

// input stream buffer: chunked delivery, failing at an offset
struct SourceBuf : public std::streambuf {
    std::string const& d; size_t chunk, fail_at, pos = 0; bool fired = false; char buf[64];
    SourceBuf(std::string const& d, size_t chunk, size_t fail_at = SIZE_MAX) : d(d), chunk(chunk ? chunk > 64 ? 64 : chunk : 64), fail_at(fail_at) {}
    int_type underflow() override;
};

struct SinkBuf : public std::streambuf {
    Sink& s; bool throws; bool buffered; std::string buf;
    SinkBuf(Sink& s, bool throws, bool buffered) : s(s), throws(throws), buffered(buffered) {}
    std::streamsize xsputn(char const* p, std::streamsize n) override;
    int_type overflow(int_type c) override;
    int sync() override;
    bool push(char const* p, size_t n, size_t& done);
};

// ---- directories and shared objects: entries of simulated directories -----------------------------
// target: the real shared object behind it; type: DT_REG, DT_DIR, DT_LNK
struct SimEntry { std::string name; std::string target; bool dlfail = false; int type = 8; };
struct SimDir { std::vector<SimEntry> entries; int open_err = 0; long err_at = -1; int read_err = 5; bool is_dir = true, no_stat = false, no_types = false; };
void io_dir(std::string const& path, SimDir* d);     // path without '/' at the end; 0 removes it
std::string sim_lib(char const* path);               // what dlopen opens for it
int io_open_dirs();                                  // directories that are open
void xml_accounting();             // call before libxml2 is used
long xml_live();
}
#endif
