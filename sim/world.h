// The simulated world around libcligen: terminal, descriptors, signals, processes, files, allocator, clock.
#pragma once
#include "core.h"
#include <stdio.h>
#include <termios.h>
#include <sys/types.h>
#include <sys/select.h>
#include <signal.h>

void world_init();          // once, in the pristine zygote
void world_reset();         // at the beginning of every run
void world_child_abort();

// ---------------------------------------------------------------- events and clock
void ev_at(uint64_t delay_us, std::function<void()> fn);  // schedule
bool ev_empty();
extern bool g_interrupted;                                 // set by deliver_signal: the blocking call gets EINTR

// ---------------------------------------------------------------- screen
struct VT {
    int w = 80, maxrows = 0; std::vector<std::string> rows; int r = 0, c = 0; bool pend = false; int bells = 0, unknown = 0; std::string pendesc; int escst = 0;
    void reset(int width) { w = width; rows.assign(1, std::string(w, ' ')); r = c = 0; pend = false; escst = 0; pendesc.clear(); }
    void put(unsigned char ch);
    std::string row(int i) const { return i >= 0 && i < (int)rows.size() ? rows[i] : std::string(w, ' '); }
    void ensure(int i) { while ((int)rows.size() <= i) rows.push_back(std::string(w, ' ')); }
};

// ---------------------------------------------------------------- terminal
struct Tty {
    bool is_tty = true;
    std::deque<char> in;            // bytes that have arrived and are unread
    bool eof = false;               // hung up: read returns 0 once drained
    int  rderr = 0;                 // errno returned by read once drained (persistent while set)
    int  rderr_n = 0;               // how many times (0: for ever)
    struct termios tio;
    int rows = 24, cols = 80;
    std::string consumed;           // bytes handed to the program, in order
    std::string out;                // bytes written by the program since last clear
    uint64_t nread = 0;
    VT vt;
    bool vt_on = true;
    int dropped = 0;
    uint64_t eof_reads = 0, err_reads = 0;
};
extern Tty tty;
std::string tio_str(const struct termios &t);
bool tio_eq(const struct termios &a, const struct termios &b);
bool tio_raw_for_keys(const struct termios &t);
void tty_type(const std::string &s);      // bytes arrive now

// ---------------------------------------------------------------- environment callbacks
struct WaitInfo { const char *call; bool key; bool has_deadline; std::vector<int> rd; std::vector<int> wr; int pid; };
struct Env {
    virtual ~Env() {}
    // Called when the program blocks and no event is scheduled: schedule something (return true) or give up.
    virtual bool idle(const WaitInfo &) { return false; }
    virtual void deadlock(const WaitInfo &);      // nothing can ever happen
    virtual void preempt(const char *) {}         // before each system call
    virtual void wait_key() {}                    // program waits for a key and none is available
    virtual void key_read(unsigned char) {}
    virtual void killed(int pid, int sig) {}
    virtual void tcset(const struct termios &, int) {}
    virtual int  write_fault(int fd, size_t n, ssize_t *res) { return 0; } // 1: *res/errno decided
    virtual int  call_fault(const char *) { return 0; } // errno to fail with
    virtual size_t sock_write_cap(size_t n) { return n; }
    virtual size_t read_cap(int fd, size_t n) { return n; }
    virtual void proc_started(int pid) {}
};
extern Env *env;
extern Env null_env;

// ---------------------------------------------------------------- descriptors
struct SockEnd { std::string in; int refs = 0; bool shut_wr = false, shut_rd = false, reset = false; int peer = -1; size_t cap = 65536; };
extern std::vector<SockEnd> socks;
int  bgfd_new();                        // a descriptor whose readiness the scenario controls
int  bgfd_new_at(int fd);
void bgfd_ready(int fd, bool ready);
bool bgfd_isready(int fd);
void bgfd_del(int fd);
bool fd_is_open(int fd);
int  fd_open_count();                   // program descriptors above 2
std::string fd_dump();
extern size_t g_sockcap;

// ---------------------------------------------------------------- processes
struct Proc {
    int pid; bool alive = true, reaped = false; int status = 0; bool term_ignored = false;
    std::map<int,int> fds;              // child's descriptors -> sock end
    std::string report;                 // what the child-side callback reported
    bool called = false;
    int kills = 0;
};
extern std::vector<Proc> procs;
extern bool in_child;
[[noreturn]] void child_report(const std::string &payload);   // child side: callback reached
void proc_exit(Proc &p, int wait_status);
ssize_t proc_read(Proc &p, int fd, std::string &buf, size_t n);   // -1: would block
ssize_t proc_write(Proc &p, int fd, const char *b, size_t n);     // -1: would block, -2: EPIPE
bool proc_eof(Proc &p, int fd);
void proc_close(Proc &p, int fd);

// ---------------------------------------------------------------- signals
void deliver_signal(int sig);           // run handler now, mark interruption
bool sig_has_handler(int sig);
void interrupt_now();                   // some signal with a non-restarting handler arrived

// ---------------------------------------------------------------- allocator
struct AllocCtl { std::vector<uint64_t>*rec=nullptr; /* call site of each allocation */ bool track = false; uint64_t n = 0, fail_from = ~0ull, fail_to = ~0ull, failed = 0; uint64_t live = 0, live_bytes = 0; int quiet = 0; long regs = 0; };
extern "C" void sim_free(void *); extern "C" char *sim_strdup(const char *);
extern AllocCtl actl;
struct AllocQuiet { AllocQuiet() { actl.quiet++; } ~AllocQuiet() { actl.quiet--; } };   // harness-side library calls: no injected failures, not counted
void alloc_track(bool on);
std::string alloc_leaks(size_t *n);     // description of live library allocations
uint64_t alloc_live_bytes();
size_t alloc_live_count();
void alloc_fail_at(uint64_t k, uint64_t len); // fail the k-th (0=next) allocation from now, len of them
void alloc_fail_off();

// ---------------------------------------------------------------- streams
extern FILE *sim_stdout, *sim_stdin, *sim_stderr;
void out_flush();
struct SimFile { std::string data; size_t pos = 0; size_t limit = ~(size_t)0; int lim_errno = 28; size_t rderr_at = ~(size_t)0; int rd_errno = 5; std::function<size_t(size_t)> rchunk, wchunk; int werrs = 0, rerrs = 0; bool rderr_once = false; std::function<bool()> rintr; size_t eofs = 0; };
FILE *simfile_open(SimFile *f, const char *mode, size_t bufsz);
extern std::string sim_stderr_text;
