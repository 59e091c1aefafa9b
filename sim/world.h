// The world around the daemon: devices, sessions, real clients, operations and recorded history.
#pragma once
#include "sim.h"

struct ConsoleSpec { std::string name; char type = 'U'; std::string log, logopts; bool reset = false; std::string rawdev; };
struct Op { Time t; std::string k; std::vector<std::string> a; };
struct Plan {
    std::string prop; uint64_t seed = 0;
    Knobs kn;
    std::vector<std::string> conf;            // global and server lines
    std::vector<ConsoleSpec> cons;
    std::vector<FaultRule> faults;
    std::vector<Op> ops;
    std::map<std::string, std::string> opt;   // tz, argv, oracle switches
    std::string text() const;
    static bool parse(const std::string &s, Plan *p, std::map<uint64_t, uint32_t> *trace);
    long num(const std::string &k, long d) const { auto i = opt.find(k); return i == opt.end() ? d : atol(i->second.c_str()); }
    bool has(const std::string &k) const { return opt.count(k); }
};

struct Mark { Time t; size_t n; };            // cumulative length reached at time t
size_t upto(const std::vector<Mark> &v, Time t);      // length at time t (inclusive)
size_t before(const std::vector<Mark> &v, Time t);    // length strictly before t

std::string attr(const std::string &l, const std::string &key, size_t *pos);
struct World;
struct Span { Time a, b; };

struct Dev : SockActor { std::vector<std::string> want_argv;
    World *w; ConsoleSpec sp; int idx;
    std::string emitted;                      // data produced by the device
    std::string consumed; std::vector<Mark> cm;   // data the daemon read, in order
    std::string sink; std::vector<Mark> sm;   // data the daemon sent to the console (decoded)
    std::vector<size_t> sink_breaks;          // position in sink of each break
    std::vector<Time> break_t;
    struct Att { Time t; std::string mode; int up; Time fail; bool overlap; };
    std::vector<Att> atts; std::vector<Time> attempts;   // connection attempts seen
    void attempt(Time fail, bool overlap = false);
    std::vector<Time> cut, fsev;               // connections closed by the daemon; changes of the socket file
    std::vector<Time> created;                // the socket file was created
    std::vector<Span> ups;                    // periods connected (b = FOREVER while up)
    std::vector<std::pair<size_t, Time>> conn_at;   // consumed length at each new connection
    std::string mode = "accept";              // accept, refuse, hole, slow
    bool stalled = false;                     // does not read what the daemon sends
    std::vector<Span> stalls;
    uint64_t gen_ctr = 0; int drops = 0;
    // connection state
    std::shared_ptr<Sock> mine;               // device end (telnet, unixsock, process via proc, ipmi)
    std::weak_ptr<Sock> sut;
    std::string wire; std::deque<int> kinds;  // queued output; per wire byte: -1 or data value completed here
    size_t wire_sent = 0;
    int tn_state = 0; std::string tn_opt;     // decoder for what the daemon sends
    void serial_used(); std::vector<std::string> tn_cmds;         // telnet commands received, "DO 1" ...
    std::vector<std::string> tn_sent;         // telnet commands sent by the device
    std::vector<int> tn_conn;                 // connection number of each received command
    std::vector<Time> tn_t;
    struct TnReq { int conn; Time t; std::string cmd; }; std::vector<TnReq> tn_reqs; int rq_state = 0, rq_cmd = 0;   // option requests the device made, and when the daemon read them
    int connno = 0; bool tn_bad = false;
    std::shared_ptr<Tty> tty; std::shared_ptr<Node> node;
    Proc *proc = nullptr; std::vector<int> pids; std::shared_ptr<IpmiCtx> ipmi;
    Time slow_delay = 0; int neg = 0; bool answers = true;
    Dev(World *w, const ConsoleSpec &s, int i);
    std::string devpath() const;
    uint32_t ip() const { return 0x0a010000 + idx + 1; }
    std::string confdev() const;
    void setup();                             // create nodes etc.
    void emit(const std::string &data, bool raw_cmd = false);
    void pump();
    void consume(size_t n);                   // daemon read n wire bytes
    void received(const std::string &d);      // wire bytes from the daemon
    void got_data(unsigned char c);
    bool up() const;
    void connected();
    void lost();
    void drop(const std::string &how, int err = 0);
    void touched();
    void tcp_attempt(std::shared_ptr<Sock> s);
    void ipmi_attempt(std::shared_ptr<IpmiCtx> c);
    void on_data(Sock *) override;
    void on_writable(Sock *) override;
    std::string gen(size_t n, int style);
};

struct TxEv { Time t; char kind; size_t pos; size_t len; std::string arg; };   // D data, E escape

struct Sess : SockActor {
    World *w; std::string id, user, cmd, opts, tty; std::vector<std::string> names;
    uint32_t ip; int port; Time lat; size_t cap;
    std::shared_ptr<Sock> s;
    int st = -1;          // -1 not yet, 0 greeting, 1 request, 2 established, 3 refused, 4 ended, 5 failed
    std::string rx; std::vector<Mark> rm; size_t body = 0;
    std::vector<Mark> wm; uint64_t wn = 0;    // what the daemon wrote to this session, by time
    std::weak_ptr<Sock> far;                  // the daemon's end of the connection
    std::string rsp; int code = 0; std::string errmsg; std::vector<std::string> granted; bool rsp_reset = false;
    std::string tx; std::vector<TxEv> txl;    // data bytes sent (before escaping)
    std::string out;                          // not yet accepted by the socket
    std::string alpha; uint64_t ctr = 0;
    bool stalled = false; std::vector<Span> stalls; std::vector<Span> holds;
    Time t_open = -1, t_greet = -1, t_req = -1, t_ok = -1, t_close = -1, t_eof = -1, t_half = -1; std::string how; int eof_err = 0;
    bool frag = false, hang_greet = false, hang_req = false; int retries = 0;
    size_t rate = 0, rate0 = 0;               // bytes read per tick when slow
    std::string raw_req;
    int order = 0; bool probe = false, alpha_shared = false;
    bool x_done = false, x_strict = false; Time x_cover = 0;   // what must have been delivered (set by the stream oracle)
    bool has(char c) const { return opts.find(c) != std::string::npos; }
    void open();
    void put(const std::string &wire);
    void flush();
    void on_data(Sock *) override;
    void on_writable(Sock *) override;
    void parse();
    void take();
    void send_data(size_t n);
    void send_esc(char c);
    void finish(const std::string &how);
    bool live() const { return st == 2 && t_close < 0 && t_eof < 0; }
};

struct Conn;
struct Client {                               // a real conman process on a simulated terminal
    World *w; std::string id; std::vector<std::string> argv; Proc *p = nullptr; std::shared_ptr<Tty> tty; struct termios tio0;
    std::string screen; std::vector<Mark> sm; Time t_start = -1, t_exit = -1; int status = 0; bool tty_ok = true;
    std::string typed; std::vector<TxEv> tl; uint64_t ctr = 0; std::string alpha; bool alive = false; std::vector<int> sigs; std::string server_sent; bool hup = false;
    std::string err; std::vector<std::string> env; bool notty = false;
    std::string kq, keys;                     // keys typed and not yet read; keys the client read
    std::weak_ptr<Sock> cs; Conn *conn = nullptr; std::string sent, recv; bool eof = false; Time t_eof = -1, t_conn = -1;   // its connection
    bool settled_left = false; std::vector<std::pair<int, Time>> handled;       // signals sent while it had a handler for them
    struct CSig { std::string sys; int skip, sig; }; std::vector<CSig> sigat; bool net = false, stop_seen = false; std::string logf, logpre; std::vector<std::pair<uint32_t, int>> dialed;
    bool raw() const { return !(tty->tio.c_lflag & ICANON) && !tty->hup; }
    void key(const std::string &d) { kq += d; tty->rx += d; }
};

struct Conn {                                 // one session connection as the daemon sees it
    int id = 0, pid = 0; Sess *s = nullptr; Client *c = nullptr; Sock *sock = nullptr; uint32_t ip = 0;
    Time t_acc = -1, t_close = -1; std::string rd, wr;
};
struct SEv { Time t; char k; int conn; size_t n; };   // R read, W write, E end of stream read, C closed, X daemon ended (conn: pid)

struct AclState { Time t; std::map<uint32_t, bool> ip; std::set<std::string> names; std::map<uint32_t, std::string> rdns; bool rdns_ok; };
struct Made { Time t; std::string path; int pid; bool client; std::shared_ptr<Node> node; };      // files and directories created by the code under test
struct Lent { Time t; int pid, fd; std::string tag, prog; };      // descriptors of the daemon that a program it started was given
struct ResetRun { Time t, tf; int pid; std::string cmd; Time t_end = -1; int status = 0; int kid = 0; };

struct Viol { std::string prop, sig, msg; };

struct World {
    Plan plan;
    std::vector<std::unique_ptr<Dev>> devs;
    std::map<std::string, std::unique_ptr<Sess>> sess; std::vector<Sess *> order;
    std::map<std::string, std::unique_ptr<Client>> clients;
    std::vector<std::unique_ptr<ResetRun>> resets; std::vector<Made> made; std::vector<Lent> lent; int execs = 0;
    std::deque<Conn> conns; std::vector<SEv> sev;
    std::vector<Viol> viols;
    std::map<std::string, std::string> logs; std::map<std::string, std::vector<Mark>> logm;   // per path: everything the daemon appended
    std::map<std::string, std::vector<std::pair<Time, std::string>>> logw;
    struct Cmd { Time t; int pid; char kind; std::string pidtxt; bool P; }; std::vector<Cmd> cmds;      // control commands and second starts
    struct Kill { Time t; int from, to, sig; bool daemon; }; std::vector<Kill> kills; std::map<int, Time> bystanders; bool starting = false;
    struct Start { Time t; int pid; }; std::vector<Start> restarts; std::vector<Time> killalls;
    std::vector<int> launches;                // pids of conmand launchers
    struct Daemon { int pid; int launcher; Time t0, t1 = -1; int status = 0; bool expected = false; Time t_term = -1; std::string why; size_t fds0 = 0; };
    std::vector<Daemon> daemons;
    std::vector<Span> down;                   // daemon not running (planned)
    std::vector<Time> hups; struct HupRec { Time t; size_t idx; int pid; }; std::vector<HupRec> huprec;
    struct FEv { Time t; char k; std::string path; std::shared_ptr<Node> node; int pid; int flags; size_t n; int err; }; std::vector<FEv> fev;   // O opened for writing, F failed to, W written, X write failed, K lock refused
    std::map<Node *, std::pair<std::shared_ptr<Node>, std::string>> fexp;    // what each file must contain
    std::vector<std::string> sent_sigs;
    std::set<std::string> tainted;            // logs with injected failures
    std::string conf_path = "/etc/conman.conf", conf_text;
    Time t_end = 0; Time t_heal = -1; int next_port = 40000; int nsess = 0;
    bool faults_left = false;
    size_t base_fds = 0; Time idle_sys0 = 0;
    std::map<std::string, double> stat;
    Time suspended_daemon = -1; std::vector<Span> daemon_stopped;

    explicit World(const Plan &p);
    void setup();
    void start_daemon(std::vector<std::string> extra = {}, bool expect_ok = true);
    Proc *daemon();                           // the running daemon or null
    Dev *dev(const std::string &name);
    void exec(const Op &o);
    void run();
    void heal();
    void viol(const std::string &prop, const std::string &sig, const std::string &msg);
    void check_all();
    void watch_client(Proc *p, Sock *k); void settle_clients(); void client_check(Client &c, bool end); void client_signal(Client &c, int n); void client_stopped(Client &c); void client_waiting(Client &c);
    void watch_conn(const char *ev, Proc *p, Sock *k);
    std::string conf() const; std::string styled(uint64_t seed); void check_conf(); void check_places(); std::map<int, std::string> conf_bad; void ipmi_used(const std::string &host, const void *cfg);
    bool alive();
    void quiesce();
    void probe();
    void leak_cycles(); void vanish();
    void terminate(int sig);
    void check_exit(Proc *p);
    std::vector<AclState> acl; void acl_changed() { acl.push_back({K->now, K->deny, K->deny_names, K->rdns, K->rdns_ok}); }
    void special();
    std::string pidfile() const;
    std::string logopts(const ConsoleSpec &c) const;
    std::vector<std::pair<Time, std::string>> log_writes(const ConsoleSpec &c) const;
    std::vector<std::pair<Time, Time>> jumps; // wall-clock offset from a time on
    std::vector<Span> log_excuse;             // times at which logging was made impossible
    std::string open_sessions();
    std::map<std::string, int> base_tags; Time t_first = 0, t_settled = -1; int base_ctx = 1;
    std::string logpath(const ConsoleSpec &c) const;
};
extern World *W;
void oracle_streams(World &w);
void oracle_logs(World &w);
void oracle_input(World &w);
void oracle_access(World &w);
void oracle_devices(World &w);
void oracle_lifecycle(World &w);
void oracle_misc(World &w);
void oracle_clients(World &w);
void oracle_telnet(World &w);
void check_private(World &w);
void oracle_replay(World &w);
void oracle_query(World &w);
void oracle_tstamp(World &w);
Plan generate(const std::string &prop, uint64_t seed, const std::string &tier);
std::string strip_notices(const std::string &s, std::vector<std::pair<size_t, std::string>> *out);
