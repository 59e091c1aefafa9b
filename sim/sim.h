// Deterministic simulator for ConMan: virtual kernel and scheduler.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <deque>
#include <functional>
#include <memory>
#include <algorithm>
#include <poll.h>
#include <termios.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/resource.h>
#include <netinet/in.h>

typedef int64_t Time;                       // simulated microseconds
const Time US = 1, MS = 1000, SEC = 1000000, FOREVER = INT64_MAX / 4;

struct Proc; struct Ctx; struct File; struct Node; struct Sock; struct Tty;

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed = 1);
    uint64_t next();
    uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
    int range(int a, int b) { return a + (int)below((uint32_t)(b - a + 1)); }
    bool pct(int p) { return (int)below(100) < p; }
    bool permille(int p) { return (int)below(1000) < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
};

// Every schedule decision of a run goes through choose(); 0 is the benign value.
struct Choices {
    bool replay = false;
    Rng rng{1};
    uint64_t count = 0;                              // decisions taken so far
    std::map<uint64_t, uint32_t> script;             // replay: index -> value
    std::vector<std::pair<uint64_t, uint32_t>> made; // non-zero decisions taken
    uint32_t uniform(uint32_t n);                    // 0..n-1
    uint32_t rare(int permille, uint32_t n);         // 0, or with p permille 1..n
};
extern Choices CH;

// ---------------------------------------------------------------- processes
enum { CTX_RUN, CTX_BLOCK, CTX_DEAD };

struct HeapFam { std::set<Proc *> members; Proc *loaded = nullptr; };
struct Region { char *base; size_t size; Ctx *owner; int users; };

struct Ctx {
    int id; Proc *proc; Region *reg;
    void *sp = nullptr;
    int state = CTX_RUN;
    std::function<bool()> pred; Time deadline = FOREVER; bool interruptible = false;
    int saved_errno = 0, saved_herrno = 0;
    void *fake = nullptr;
    std::string img, shadow;                // stack image when not loaded in the region
    void *(*entry)(void *) = nullptr; void *arg = nullptr; bool is_main = false;
    int sigdelay = -1;                      // BBs until a pending signal is handled
    bool detached = false, started = false;
    bool in_handler = false;
    const char *what = "";                  // for diagnostics
    uint64_t nsys = 0;
};

struct SigAct { void (*handler)(int) = SIG_DFL; int flags = 0; sigset_t mask; };

struct Module { const char *name; int (*main)(int, char **, char **); char *d0, *d1, *b0, *b1; std::string pristine; };
extern Module MOD_CONMAND, MOD_CONMAN;

struct ActorProg;                           // behaviour of an exec'd (non-SUT) program

struct Proc {
    int pid, ppid, pgid, sid;
    std::string name;
    Module *mod = nullptr;
    std::string image;                      // globals when not loaded
    std::vector<Ctx *> ctxs;
    std::map<int, std::shared_ptr<File>> fds;
    std::set<int> cloexec;
    std::string cwd = "/";
    mode_t umask = 022;
    std::map<int, SigAct> sig;
    std::set<int> pending, masked;
    struct rlimit nofile, core;
    std::vector<std::string> argv, env;
    bool alive = true, zombie = false, stopped = false;
    int status = 0;                         // wait status when dead
    int ctty_sid = 0; int root = 0;              // the process the environment started, of which this one descends
    Time t_start = 0, t_exit = -1;
    uint64_t nsys = 0, nbb = 0; int pipe_tx = 0;
    std::string out, err;                   // captured stdout / stderr
    // libc emulation
    FILE *fin = nullptr, *fout = nullptr, *ferr = nullptr;
    std::map<FILE *, int> files;
    char **envp = nullptr; char **environ_v = nullptr;
    int optind_ = 1, opterr_ = 1, optopt_ = 0, optpos = 0; char *optarg_ = nullptr;
    char *strtok_save = nullptr; uint32_t rand_state = 1;
    std::string login;
    std::map<void *, int> mutexes, conds;   // lock words live on the kernel's side
    std::unordered_map<void *, size_t> heap;         // blocks this process owns
    std::unordered_map<void *, std::string> heap_img; // their contents while a relative's heap is in place
    std::shared_ptr<HeapFam> fam;                    // processes that descend from one fork and have not exec'd
    std::vector<void (*)(void)> at_exit; bool syslog_open = false;
    bool killed_by_sim = false;
    std::string ctty_path;
    std::shared_ptr<ActorProg> actor;
    int ipmi_engine = 0;
    uid_t uid = 0;
};

struct ActorProg {                          // event driven stand-in for an exec'd program
    Proc *proc = nullptr;
    virtual ~ActorProg() {}
    virtual void start() {}
    virtual void on_input() {}              // fd 0 readable or EOF
    virtual void on_writable() {}
    virtual bool on_signal(int) { return false; }   // true: handled, else default action
    virtual void on_exit() {}
};

// ---------------------------------------------------------------- files
enum FT { F_REG, F_DIR, F_NULL, F_SOCK, F_LISTEN, F_PIPE_R, F_PIPE_W, F_TTY, F_INOTIFY, F_CAPTURE };

struct PipeBuf { std::string data; int readers = 0, writers = 0; size_t cap = 65536; };

struct InEvent { int wd; uint32_t mask; std::string name; };

struct File {                               // open file description
    FT type; int flags = 0; off_t off = 0;
    std::shared_ptr<Node> node;
    std::shared_ptr<Sock> sock;
    std::shared_ptr<PipeBuf> pipe;
    std::shared_ptr<Tty> tty;
    std::string *cap = nullptr;
    std::string path;
    std::string tag;                        // what this is, for faults and oracles
    std::vector<InEvent> inq; std::map<int, Node *> watches; int next_wd = 1; bool inov = false;
    uint64_t id = 0; bool released = false;
    void release();
    ~File();
};

struct Lock { int pid; int type; };

struct Node {                               // inode
    enum T { DIR, REG, SOCK, CHR_NULL, CHR_TTY, FIFO } type = REG;
    mode_t mode = 0644; uid_t uid = 0; uint64_t ino = 0;
    std::string data; std::string name;
    std::map<std::string, std::shared_ptr<Node>> kids;
    std::vector<Lock> locks;
    std::shared_ptr<Tty> tty;
    std::function<void(std::shared_ptr<Sock>)> on_connect;   // unix socket listener
    bool listening = false; int so_type = SOCK_STREAM;
    std::set<File *> watchers;
    std::string prog;                       // program name when executable
    Time mtime = 0;
    int fail_write = 0; size_t size_limit = (size_t)-1;      // faults
    uint64_t nwrites = 0;
    int write_lock_foreign = 0;             // held by a non-simulated process id
};

struct SockActor {
    virtual ~SockActor() {}
    virtual void on_connected(Sock *) {}
    virtual void on_data(Sock *) {}         // bytes (or EOF or error) available
    virtual void on_writable(Sock *) {}
};

struct Sock : std::enable_shared_from_this<Sock> {
    int domain = AF_INET;
    enum S { NEW, LISTEN, CONNECTING, CONN, DEAD } st = NEW;
    std::weak_ptr<Sock> peer;
    SockActor *actor = nullptr;             // external endpoint
    bool bound_to_file = false;
    std::string rx; bool rx_fin = false;    // received, not yet read
    bool wr_shut = false, rd_shut = false, closed = false;
    bool fin_seen = false;
    int err = 0;                            // so_error
    size_t pend = 0;                        // sent by me, not yet in peer's rx
    size_t cap = 65536;                     // my send buffer + peer window
    Time last_deliver = 0;                  // FIFO per direction
    Time lat = 200;                         // base latency
    Time hold_until = 0;                    // partition: nothing from me is delivered before
    std::shared_ptr<std::deque<std::function<void()>>> flight = std::make_shared<std::deque<std::function<void()>>>();   // sent by me, on its way
    uint32_t rip = 0, lip = 0; int rport = 0, lport = 0;   // remote, local address
    std::deque<std::shared_ptr<Sock>> backlog; int backlog_max = 10;
    bool sent_any = false;
    uint64_t total_rx = 0, total_tx = 0, total_read = 0;
    std::function<void(size_t)> on_consumed;   // called when the SUT side read n bytes
    std::function<void(const std::string &)> on_written;
    std::function<void(const char *, size_t)> on_read;   // data the SUT side read; 0 bytes: end of stream
    bool keepalive = false, reuse = false; int so_flags = 0;
    std::string tag;
    uint64_t id = 0;
};

struct Tty {                                // serial device, or the user's terminal
    std::string path;
    std::string rx;                         // device -> reader
    std::string tx;                         // written by process, not consumed yet
    size_t txcap = 4096, rxcap = 4096;
    struct termios tio, tio0;
    bool hup = false; bool gone = false;
    bool stalled = false, term = false;
    int baud_out = 0;
    SockActor *dummy = nullptr;
    std::function<void(const std::string &)> on_tx;
    std::function<void()> on_break;
    std::function<void()> on_used;           // a process reads or writes data
    bool washup = false;
    std::function<void(size_t)> on_consumed;
    std::function<void(size_t)> on_flushed; // input discarded by a flush
    void flush_rx() { size_t n = rx.size(); rx.clear(); if (n && on_flushed) on_flushed(n); }
    std::function<void(int)> on_open;       // +1 open, -1 close
    int opens = 0;
    int fg_pgid = 0;
    int flushes = 0, settings = 0;
    uint64_t nbreaks = 0;
};

// ---------------------------------------------------------------- kernel
struct Event { Time t; uint64_t seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Event &a, const Event &b) const { return a.t != b.t ? a.t < b.t : a.seq < b.seq; } };

struct FaultRule {
    std::string sys, tag; int skip = 0; int count = 1; int err = 0; Time t0 = 0, t1 = FOREVER; int arg = 0;
    int hits = 0; int pid = 0;
};

struct SysRec { Time t; int pid; int ctx; std::string s; };

struct Knobs {
    int p_yield = 0;       // permille: yield at a syscall
    int p_pick = 0;        // permille: pick a non-default runnable context
    int bb_slice = 0;      // mean basic blocks per preemption slice (0: none)
    int p_shortr = 0, p_shortw = 0;   // permille: short reads / writes on sockets
    int p_eintr = 0;       // permille: EINTR on interruptible calls
    int p_eagain = 0;      // permille: spurious EAGAIN on non-blocking sockets
    int jitter = 0;        // extra network latency, us
    int p_split = 0;       // permille: split a segment
    int p_sigbb = 0;       // permille: deliver a signal some basic blocks late
    Time syscost = 1;      // us per system call
    int lat = 200;         // base latency
};

struct Kernel {
    Time now = 0;
    int64_t wall_base = 1773100800LL * SEC;  // wall clock at now=0 (us)
    int64_t wall_off = 0;
    std::set<Event, EvCmp> evq; uint64_t evseq = 0;
    std::map<int, Proc *> procs; int next_pid = 100;
    std::vector<Ctx *> ctxs; int next_ctx = 1;
    Ctx *cur = nullptr; Proc *loaded = nullptr;
    std::shared_ptr<Node> root; uint64_t next_ino = 1, next_file = 1, next_sock = 1;
    std::vector<std::pair<Time, Time>> breaks;        // while a thread drives a serial line into break, it does nothing else
    std::map<int, Time> time_wait;                    // TCP port -> until when connections closed here linger
    std::map<int, std::shared_ptr<Sock>> listeners;   // TCP port -> listening socket (SUT)
    struct Host { uint32_t ip; bool ok = true; Time delay = 0; };
    std::map<std::string, Host> hosts;
    std::map<uint32_t, std::string> rdns; Time rdns_delay = 0; bool rdns_ok = true;
    std::function<void(const std::string &)> on_touch; std::function<void(const std::string &, const void *)> on_ipmi_create; std::function<void(const std::string &, Proc *, std::shared_ptr<Node>)> on_create; std::function<void(int pid, Time a, Time b)> on_block; std::function<void(std::shared_ptr<Sock>, uint32_t, int)> on_tcp_connect; std::function<void(Proc *, uint32_t, int)> on_dial;  // external host contacted
    std::set<std::string> deny_names;       // hosts_ctl denied client names
    std::map<uint32_t, bool> deny;          // hosts_ctl denied addresses
    std::vector<FaultRule> faults;
    Knobs kn;
    std::vector<std::string> syslog_lines;
    std::vector<SysRec> trace; bool tracing = false; size_t trace_max = 400000;
    uint64_t hash = 1469598103934665603ULL;  // running hash of the whole execution
    uint64_t nsys = 0, nswitch = 0, nevents = 0, npreempt = 0, nsig = 0, step_limit = 3000000; bool startup_faults = false;
    std::map<std::string, uint64_t> fault_hits;   // injected faults, by kind
    std::map<std::string, uint64_t> cover;        // distinct situations reached
    bool stop = false; std::string fatal;    // a simulator-detected failure
    uint64_t spin_sys = 0; Time spin_t = 0;
    std::function<void(Proc *)> on_proc_exit; std::function<void(Proc *, Proc *, int)> on_kill;
    std::function<std::shared_ptr<ActorProg>(Proc *, const std::string &prog)> make_prog;
    std::function<void(const std::string &path, Proc *, const std::string &data, std::shared_ptr<Node>)> on_file_write;
    std::function<void(const std::string &path, Proc *, std::shared_ptr<Node>, int flags, size_t old, int err)> on_file_open;   // opened for writing, or failed to
    std::function<void(const std::string &path, Proc *, std::shared_ptr<Node>, char kind, int err)> on_file_fail;   // X: a write failed, P: only in part or for now, K: a lock was refused
    struct SigAt { int sig; std::string sys; int skip; }; std::vector<SigAt> sigat; int sigat_not = 0; std::function<void(int)> on_sigat;          // a signal at the next such call of the daemon
    std::function<void(const char *ev, Proc *, int fd, File *)> on_fd; std::function<void(Proc *, const char *)> on_enter;
    uint64_t bb_total = 0;
    std::string outcome;

    void at(Time t, std::function<void()> fn) { evq.insert(Event{std::max(t, now), evseq++, std::move(fn)}); }
    void after(Time d, std::function<void()> fn) { at(now + d, std::move(fn)); }
    int64_t wall() const { return wall_base + wall_off + now; }
    void run(Time until, const std::function<bool()> &done = nullptr);
    Proc *spawn(Module *m, std::vector<std::string> argv, std::vector<std::string> env, int ppid, const std::string &cwd,
                std::function<void(Proc *)> setup = nullptr);
    Proc *proc(int pid) { auto i = procs.find(pid); return i == procs.end() ? nullptr : i->second; }
    void die(Proc *p, int status);          // terminate a process
    void signal(Proc *p, int sig);
    void hashmix(uint64_t v) { hash = (hash ^ v) * 1099511628211ULL; }
    void note(const std::string &s);
};
extern Kernel *K;

// file system helpers (absolute paths)
std::shared_ptr<Node> fs_lookup(const std::string &path);
std::shared_ptr<Node> fs_mkdirs(const std::string &path);
std::shared_ptr<Node> fs_put(const std::string &path, const std::string &data, mode_t mode = 0644);
std::shared_ptr<Node> fs_mknode(const std::string &path, Node::T type, mode_t mode);
bool fs_unlink(const std::string &path);
bool fs_rename(const std::string &a, const std::string &b);
void fs_notify(const std::string &path, uint32_t mask);

// external endpoints
std::shared_ptr<Sock> ext_connect_tcp(uint32_t sip, int sport, int dport, SockActor *a, Time lat, size_t cap);
void ext_accept(std::shared_ptr<Sock> sut, SockActor *a, Time lat, size_t cap_to_sut, std::shared_ptr<Sock> *mine);
size_t ext_space(Sock *s);
size_t ext_send(Sock *s, const std::string &d);       // returns bytes accepted
void ext_close(Sock *s);
void ext_shutdown_wr(Sock *s);
void ext_reset(Sock *s);
void ext_vanish(std::shared_ptr<Sock> mine);
void ext_fail(Sock *sut_side, int err);               // e.g. ETIMEDOUT on the SUT's side
std::string ext_read(Sock *s, size_t max = (size_t)-1);
void sock_connect_result(std::shared_ptr<Sock> sut, int err);
void tty_hangup(Tty *t);

// fd helpers for actor programs
ssize_t actor_write(Proc *p, int fd, const std::string &d);
ssize_t actor_read(Proc *p, int fd, std::string *out, size_t max);
void proc_exit(Proc *p, int code);

void kernel_init_modules();
std::string hexs(const std::string &s, size_t max = 60);

// IPMI SOL engine stand-in (libipmiconsole)
struct IpmiCtx {
    std::string host, user;
    int status = 0, errnum = 0, fd = -1, pid = 0;
    bool fd_taken = false, destroyed = false, called = false;
    std::shared_ptr<Sock> mine;             // engine's end of the descriptor pair
    int (*cb)(void *) = nullptr; void *arg = nullptr;
    std::function<void()> on_break;
};
extern std::function<void(std::shared_ptr<IpmiCtx>)> on_ipmi_submit;
extern std::function<void(IpmiCtx *)> on_ipmi_destroy;
void ipmi_proc_exit(int pid);
void ipmi_complete(std::shared_ptr<IpmiCtx> c, int err);   // 0: established
void ipmi_drop(std::shared_ptr<IpmiCtx> c, int err);       // established session lost
