// Plan generators: configuration, operations and faults as a function of (property, seed).
#include "world.h"
#include <cerrno>
#include <csignal>
#include <cstring>

struct Prof {
    std::string types = "TUUSPI"; int cons_lo = 1, cons_hi = 3;
    int log = 70, san = 15, ts = 15, reset = 30, datelog = 0;
    int sess_lo = 1, sess_hi = 4; int monitor = 30, bcastp = 15, query = 5, force = 25, join = 25, quiet = 15, multi = 10, badreq = 5;
    int horizon = 30;                         // seconds
    int emits = 25; int w_small = 60, w_mid = 30, w_burst = 10; std::vector<int> styles = {0, 0, 1, 2, 3};
    int sends = 6, escs = 3; std::string esclist = "LQMFJ&"; int maxsend = 600;
    int drops = 1, modes = 1, devstalls = 0, stalls = 0, slows = 0, rsts = 30, halfs = 5, holds = 5, hups = 1, jumps = 0, stops = 0, disks = 0;
    int sysfaults = 0; int raws = 0; int clients = 0; int suspends = 0; int ctrlfaults = 0;
    int sched = 70; int smallcap = 10; int longrun = 10; bool pid = false, alldown = false; int tsmin = 0, logfaults = 0, crashes = 0; bool net = false;
    int together = 25, hangs = 0, devraw = 0, neg = 0, term = 0, susp_n = 1, dnsf = 0, flaps = 0, patterns = 0, hupstorm = 0, names = 0, aligns = 0, halftail = 0, dlogf = 0;
    std::vector<std::string> pats = {"%N.%Y%m%d.log", "%N.%H%M.log", "%d/%N.log", "%N.%S", "%N.%s.log", "%y/%m/%d/%N.%H.%M.%S", "%j-%u%w-%N", "%G.%V.%g/%N", "%N.%U.%W", "%N.%P", "%N.%D.log", "%N-%%.log", "%Qx%N", "%N.%"};
};
struct G {
    Plan p; Rng r; int nid = 0;
    G(const std::string &prop, uint64_t seed) : r(seed ^ 0x5bd1e995) { p.prop = prop; p.seed = seed; }
    Op &op(Time t, const std::string &k, std::vector<std::string> a = {}) { p.ops.push_back(Op{t, k, std::move(a)}); return p.ops.back(); }
    Time at(Time a, Time b) { return b <= a ? a : a + (Time)(r.next() % (uint64_t)(b - a)); }
    std::string n(long v) { return std::to_string(v); }
    void done() { std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op &a, const Op &b) { return a.t < b.t; }); }
};
static void sched(G &g, int pct) {
    Knobs &k = g.p.kn; k.lat = g.r.pick(std::vector<int>{50, 200, 200, 1000});
    if (!g.r.pct(pct)) return;
    switch (g.r.below(4)) {
    case 0: k.p_yield = 30; k.p_pick = 100; k.p_split = 100; k.p_shortr = 30; k.jitter = 300; break;
    case 1: k.p_yield = 150; k.p_pick = 400; k.bb_slice = 400; k.p_split = 300; k.p_shortr = 200; k.p_shortw = 200; k.p_eintr = 20; k.p_eagain = 20; k.jitter = 2000; k.p_sigbb = 500; break;
    case 2: k.p_yield = 300; k.p_pick = 500; k.bb_slice = 60; k.p_split = 50; k.jitter = 500; k.p_sigbb = 700; break;
    case 3: k.p_shortr = 400; k.p_shortw = 400; k.p_split = 500; k.p_eintr = 50; k.p_eagain = 50; k.jitter = 20000; break;
    }
}
// console names in groups that sort naturally, and patterns for them
static std::vector<std::string> name_pool(Rng &r, int n) {
    static const std::vector<std::string> pre = {"node", "n", "Rack7-", "rack", "a.b", "x_", "node-a", "z9y", "", "C", "foo-", "con2con"};
    std::vector<std::string> v; std::set<std::string> s; int shape = r.below(4), guard = 0;
    while ((int)v.size() < n && guard++ < 5000) {
        std::string q = r.pick(pre); int k = r.below(10);
        if (k < 5) q += std::to_string(r.below(30)); else if (k < 7) q += std::to_string(r.below(3000));
        else if (k == 7) q += fmt("%0*d", r.range(2, 4), r.below(120));
        else if (k == 8 && shape == 1) q += std::to_string(20240101000000L + r.below(5) * 1000000000L + r.below(100));
        else if (k == 8 && shape == 2) q += std::to_string(2147483640L + r.below(20));
        else if (q.empty() || isdigit((unsigned char)q.back()) || q.back() == '-') continue;
        std::string id; size_t e = q.size(); while (e && isdigit((unsigned char)q[e - 1])) e--; size_t z = e; while (z + 1 < q.size() && q[z] == '0') z++; id = q.substr(0, e) + "#" + q.substr(z);
        std::string low; for (char c : q) low += (char)tolower(c);      // log file names must differ
        if (s.count(id)) continue; s.insert(id); v.push_back(q);
    }
    return v;
}
static std::string name_pat(Rng &r, const std::vector<ConsoleSpec> &cons, bool regex) {
    std::string n = r.pick(cons).name; size_t e = n.size(); while (e && isdigit((unsigned char)n[e - 1])) e--; std::string b = n.substr(0, e);
    if (!regex) switch (r.below(11)) {
        case 0: case 1: case 2: return n;
        case 3: return b + "*"; case 4: return b + "[0-4]*"; case 5: return "*"; case 6: return b + "?"; case 7: return "*" + n.substr(n.size() - 1); case 8: return b + "[!0-4]";
        case 9: for (auto &c : n) c = isupper((unsigned char)c) ? tolower(c) : toupper(c); return n;
        default: return r.pick(std::vector<std::string>{"nosuch", "[", "", "[z-a]", "\\", "?", "??", "[!n]*", "*-*"});
    }
    std::string lit; for (char c : n) { if (!isalnum((unsigned char)c) && c != '-' && c != '_') lit += '\\'; lit += c; }
    switch (r.below(14)) {
    case 0: case 1: return lit;
    case 2: return b + "[0-9]+"; case 3: return b + ".*"; case 4: return ".*"; case 5: for (auto &c : lit) c = isupper((unsigned char)c) ? tolower(c) : toupper(c); return lit;
    case 6: return b + "[0-9]?"; case 7: return "^" + lit + "$"; case 8: return lit + "|" + b + "1"; case 9: return n.substr(0, n.size() - 1); case 10: return n.substr(1); case 11: return "(" + lit + "|nosuch)";
    default: return r.pick(std::vector<std::string>{"(", "[", "a{2", "*", "x|", "nosuch", ".", "...", "[[:alpha:]]+[0-9]+", "[[:bad:]]", "(a", "\\"});
    }
}
static std::string seropts(Rng &r) {
    std::string o = std::to_string(r.pick(std::vector<int>{50, 110, 300, 1200, 2400, 4800, 9600, 9600, 19200, 38400, 57600, 115200, 230400, 460800, 10000, 100000, 9601, 3000}));
    if (r.pct(80)) { o += "," + std::to_string(r.range(5, 8)); if (r.pct(85)) { o += r.pick(std::vector<char>{'n', 'o', 'e', 'N', 'O', 'E'}); if (r.pct(80)) o += r.pct(50) ? "1" : "2"; } }
    return o;
}
static std::string ipmiopts(Rng &r, bool wk) {
    auto word = [&](int n) { std::string o; static const char A[] = "abcXYZ019_.-+/*:;= "; for (int k = r.range(1, n); k--;) o += A[r.below(sizeof A - 1)]; return o; };
    auto key = [&] { if (r.pct(50)) return word(20); std::string o = r.pct(50) ? "0x" : "0X"; for (int k = r.pct(40) ? 40 : r.range(1, 40); k--;) o += "0123456789abcdefABCDEF"[r.below(22)]; return o; };
    std::vector<std::string> v;
    if (r.pct(50)) v.push_back("U:" + word(16)); if (r.pct(50)) v.push_back("P:" + key()); if (r.pct(40)) v.push_back("K:" + key()); if (r.pct(40)) v.push_back("L:" + r.pick(std::vector<std::string>{"user", "op", "OP", "admin", "operator", "Administrator", "User"}));
    if (r.pct(40)) v.push_back("C:" + r.pick(std::vector<std::string>{"0", "1", "2", "3", "6", "17", "0x11", "12"}));
    if (wk) for (int k = r.pct(50) ? r.range(1, 3) : 0; k--;) v.push_back("W:" + r.pick(std::vector<std::string>{"authcap", "integritycheckvalue", "intel20", "nochecksumcheck", "opensesspriv", "serialalertsdeferred", "solchannelsupport", "solpacketseq", "solpayloadsize", "solport", "solstatus", "sun20", "supermicro20", "SolStatus", "default", "none", "0x30", "2"}));
    if (v.empty()) v.push_back("U:root"); for (size_t i = v.size(); i-- > 1;) std::swap(v[i], v[r.below(i + 1)]);
    std::string o; for (auto &x : v) { if (r.pct(20)) x[0] = tolower(x[0]); o += (o.empty() ? "" : ",") + x; } return o;
}
static void server(G &g, const Prof &f) {
    auto &c = g.p.conf;
    c.push_back("server port=7890");
    c.push_back("server logdir=\"/var/log/consoles\"");
    if (f.pid || g.r.pct(50)) c.push_back("server pidfile=\"/var/run/conmand.pid\"");
    if (g.r.pct(70)) c.push_back(f.patterns && g.r.pct(40) ? "server logfile=\"/var/log/" + g.r.pick(std::vector<std::string>{"conmand.%Y%m%d", "conmand.%H%M%S", "d%P/conmand.%s,debug", "dl%N", "conmand%"}) + "\"" : "server logfile=\"/var/log/conmand.log\"");
    if (g.p.opt.count("rellog") && g.p.opt["rellog"] == "1") for (auto &l : c) if (l == "server logfile=\"/var/log/conmand.log\"") l = "server logfile=\"conmand.log\"";
    if (f.reset && g.r.pct(f.reset)) c.push_back("server resetcmd=\"powerctl -0 %N\"");
    if (g.r.pct(30)) c.push_back("server keepalive=off");
    if (f.net) { c.push_back("server loopback=off"); g.p.opt["net"] = "1"; }
    std::string lo; bool san = g.r.pct(f.san), ts = g.r.pct(f.ts);
    if (san || ts) { lo = san && ts ? "sanitize,timestamp" : san ? "sanitize" : "timestamp"; c.push_back("global logopts=\"" + lo + "\""); }
    if (f.tsmin) { int m = f.tsmin; c.push_back("server timestamp=" + (m % 1440 == 0 && g.r.pct(70) ? std::to_string(m / 1440) + g.r.pick(std::vector<std::string>{"d", "D", " d"}) : m % 60 == 0 && g.r.pct(70) ? std::to_string(m / 60) + g.r.pick(std::vector<std::string>{"h", "H"}) : std::to_string(m) + g.r.pick(std::vector<std::string>{"m", "M", ""}))); g.p.opt["tsmin"] = std::to_string(f.tsmin); }
    int n = g.r.range(f.cons_lo, f.cons_hi);
    std::vector<std::string> pool; if (f.names) { pool = name_pool(g.r, n); n = (int)pool.size(); }
    for (int i = 0; i < n; i++) {
        ConsoleSpec s; s.name = f.names ? pool[i] : fmt("c%d", i); s.type = f.types[g.r.below(f.types.size())];
        if (g.r.pct(f.log)) { s.log = f.patterns && g.r.pct(12) ? s.name + g.r.pick(std::vector<std::string>{".%M", ".%S.log", ".%s", ".%j", "-%P.log", ".%H"}) : f.datelog && g.r.pct(f.datelog) ? g.r.pick(f.patterns ? f.pats : std::vector<std::string>{"%N.%Y%m%d.log", "%N.%H%M.log", "%d/%N.log"}) : g.r.pct(70) ? "%N.log" : fmt("/var/log/consoles/sub%d/%%N.log", i); if (g.r.pct(15)) s.logopts = g.r.pick(std::vector<std::string>{"nosanitize,notimestamp", "timestamp", "sanitize", "nolock"}); if (!san && !f.san && s.logopts == "sanitize") s.logopts = ""; if (!ts && !f.ts && s.logopts == "timestamp") s.logopts = ""; }
        if (g.p.opt.count("serial") && s.type == 'S' && g.r.pct(70)) g.p.opt["ser:" + s.name] = seropts(g.r);
        if (g.p.opt.count("confstyle") && !s.log.empty() && g.r.pct(10)) s.log = "l_" + s.name;
        if (g.p.opt.count("confstyle") && s.type == 'I' && g.r.pct(60)) g.p.opt["ipmi:" + s.name] = ipmiopts(g.r, true);
        g.p.cons.push_back(s);
    }
    if (g.p.opt.count("confstyle") && g.r.pct(40)) c.push_back("global ipmiopts=\"" + ipmiopts(g.r, false) + "\"");
    if (g.p.opt.count("serial") && g.r.pct(50)) c.push_back("global seropts=\"" + seropts(g.r) + "\"");
}
static std::string optstr(G &g, const Prof &f, const std::string &cmd, bool multi) {
    std::string o; if (g.r.pct(f.quiet)) o += 'Q';
    if (cmd == "CONNECT") { if (g.r.pct(f.force)) o += 'F'; else if (g.r.pct(f.join)) o += 'J'; }
    else if (cmd == "MONITOR" && g.r.pct(12)) o += g.r.pick(std::vector<char>{'F', 'J', 'B'});      // of no meaning to a monitor
    if (multi) o += 'B';
    if (g.r.pct(10)) o += 'T';
    return o;
}
static void emits(G &g, const Prof &f, Time H) {
    for (auto &c : g.p.cons) for (int i = 0; i < f.emits; i++) {
        Time t = g.at(0, H); int st = g.r.pick(f.styles); int w = g.r.below(f.w_small + f.w_mid + f.w_burst);
        if (w < f.w_small) g.op(t, "emit", {c.name, g.n(g.r.range(1, 200)), g.n(st)});
        else if (w < f.w_small + f.w_mid) g.op(t, "emit", {c.name, g.n(g.r.range(500, 9000)), g.n(st)});
        else g.op(t, "burst", {c.name, g.n(g.r.range(500, 6000)), g.n(g.r.range(2, 12)), g.n(g.r.range(1, 60)), g.n(st)});
    }
}
static void session(G &g, const Prof &f, Time H, int i) {
    std::string id = fmt("s%d", g.nid++); auto &r = g.r;
    Time a = g.at(0, H * 6 / 10), b = g.at(a + SEC, H);
    if (i > 0 && r.pct(f.together)) a = g.p.ops.empty() ? a : std::max<Time>(0, g.p.ops[r.below(g.p.ops.size())].t);   // arrive together with something else
    if (b <= a) b = a + 2 * SEC;
    std::string cmd = r.pct(f.query) ? "QUERY" : r.pct(f.monitor) ? "MONITOR" : "CONNECT", names; bool multi = false;
    if (g.p.cons.size() > 1 && cmd == "CONNECT" && r.pct(f.bcastp)) { multi = true; names = r.pct(50) ? "c*" : "c0,c1"; }
    else { names = r.pick(g.p.cons).name; if (r.pct(f.badreq)) names = r.pick(std::vector<std::string>{"nosuch", "c*", "[", ""}); }
    if (!multi && cmd == "CONNECT" && r.pct(f.bcastp / 3)) { multi = true; if (r.pct(30)) names += "," + names; }      // a broadcast to one console
    if (cmd == "QUERY") names = r.pct(50) ? "" : "c*";
    bool rx = false; if (f.names) { multi = cmd == "CONNECT" && r.pct(f.bcastp); rx = r.pct(40); names.clear(); int k = r.pct(cmd == "QUERY" ? 15 : 3) ? 0 : r.pct(60) ? 1 : r.range(2, 5); for (int j = 0; j < k; j++) { std::string q = cmd != "QUERY" && !multi && r.pct(50) ? r.pick(g.p.cons).name : name_pat(r, g.p.cons, rx); if (q.find_first_of(",'\"") != std::string::npos) continue; names += (names.empty() ? "" : ",") + q; } }
    long cap = r.pct(f.smallcap) ? r.range(300, 3000) : 65536, rate = 0; bool slow = r.pct(f.slows); if (slow) { rate = r.range(20, 400); cap = r.range(500, 20000); }
    bool htail = cmd != "QUERY" && !multi && r.pct(f.halftail); if (htail) cap = r.range(200, 2000), rate = 0;
    long lat = r.pick(std::vector<long>{50, 200, 200, 5000, 100000});
    std::string o = optstr(g, f, cmd, multi);
    if (r.pct(f.hangs)) o += r.pick(std::vector<char>{'H', 'h', 'g', 'r', 's'});
    if (rx) o += 'R';
    if (!f.names && cmd == "QUERY" && r.pct(30)) o += 'R', names = r.pick(std::vector<std::string>{"c[0-9]+", "C.*", ".*", "(", "c0|c1", "x"});
    g.op(a, "open", {id, cmd, names, o, g.n(lat), g.n(cap), g.n(rate), r.pct(15) ? "1" : "0"});
    if (cmd == "QUERY") { g.op(b, "close", {id}); return; }
    Time s0 = a + 4 * lat + 50 * MS;
    if (cmd == "CONNECT" || r.pct(50)) { int k = r.range(0, f.sends); for (int j = 0; j < k; j++) g.op(g.at(s0, b), "send", {id, g.n(r.pct(80) ? r.range(1, 40) : r.range(100, f.maxsend))}); }
    if (!f.esclist.empty()) { int k = r.range(0, f.escs); for (int j = 0; j < k; j++) { char e = f.esclist[r.below(f.esclist.size())]; Time t = g.at(s0, b); if (e == '&') e = 'L'; g.op(t, "esc", {id, std::string(1, e)}); if (r.pct(40)) g.op(t, "send", {id, g.n(r.range(1, 20))}); } }
    if (f.force + f.join && r.pct(f.force + f.join > 25 ? 20 : 5) && f.esclist.find('F') != std::string::npos) {      // write access given up and asked for again
        Time t = g.at(s0, b); int k = r.range(2, 5); while (k--) { g.op(t, "esc", {id, std::string(1, "MMJF"[r.below(4)])}); if (r.pct(50)) g.op(t + 1, "send", {id, g.n(r.range(1, 20))}); t += r.pct(40) ? 2 : r.range(1, 2000) * MS; }
    }
    for (int z = 0; z < 3; z++) if (r.pct(f.raws)) {
        std::string d; int st = r.below(4);
        if (st == 0) { int k = r.range(1, 60); while (k--) d += (char)r.below(256); }
        else if (st == 1) { int k = r.range(1, 12); while (k--) { d += '\xff'; d += (char)r.below(256); } }
        else if (st == 2) { int k = r.range(1, 200); while (k--) d += "\xff" "LRBQZMFJD"[r.below(10)]; }
        else d = "\xff";
        std::string h; for (unsigned char c : d) h += fmt("%02x", c);
        g.op(g.at(r.pct(80) ? s0 : a, b), "raw", {id, h}); if (st == 3 && r.pct(50)) b = g.p.ops.back().t;
    }
    for (int z = 0; z < f.susp_n; z++) if (r.pct(f.suspends)) { Time t = g.at(s0, b), u = r.pct(80) ? g.at(t, b) : b + SEC; g.op(t, "esc", {id, "Z"}); if (u < b) g.op(u, "esc", {id, "Z"}); }
    if (r.pct(f.stalls)) { Time t = g.at(s0, b); g.op(t, "stall", {id}); if (r.pct(70)) g.op(g.at(t, b), "resume", {id}); }
    if (htail) {                             // closes its sending side while output waits for it
        Time t = g.at(s0, b); g.op(t, "stall", {id}); g.op(t + 10 * MS, "emit", {names, g.n(r.range(500, 9000)), "0"}); g.op(t + r.range(20, 900) * MS, "half", {id}); g.op(t + r.range(900, 4000) * MS, "resume", {id}); return;
    }
    if (r.pct(f.holds)) g.op(g.at(s0, b), "hold", {id, g.n(r.range(10, 4000))});
    if (r.pct(75)) { if (r.pct(f.halfs)) g.op(b, "half", {id}); else g.op(b, r.pct(f.rsts) ? (r.pct(70) ? "rst" : "fail") : "close", {id}); }
}
static const struct { const char *sys, *tag; std::vector<int> errs; } SYSF[] = {
    {"accept", "*", {EMFILE, ENFILE, ECONNABORTED, EINTR, ENOBUFS, ENOMEM, EPROTO, EPERM}},
    {"getpeername", "sess", {ENOTCONN, EINVAL}},
    {"setsockopt", "sess", {EINVAL, ENOPROTOOPT, ENOMEM}},
    {"pthread_create", "*", {EAGAIN}},
    {"fork", "*", {EAGAIN, ENOMEM}},
    {"pipe", "*", {EMFILE}}, {"socketpair", "*", {EMFILE, ENFILE}},
    {"socket", "*", {EMFILE, ENFILE, ENOMEM, ENOBUFS}},
    {"connect", "*", {ECONNREFUSED, ENETUNREACH, EAGAIN, EINTR, EADDRNOTAVAIL, ETIMEDOUT, ENOENT, EACCES}},
    {"open", "file:*", {EMFILE, ENOSPC, EACCES, EIO, ENOENT}}, {"open", "tty:*", {EMFILE, EBUSY, EIO, ENXIO, EACCES}},
    {"read", "dev:*", {EIO, ECONNRESET, EINTR, EAGAIN, ETIMEDOUT}}, {"write", "dev:*", {EPIPE, ECONNRESET, EINTR, EAGAIN, EIO}},
    {"read", "sess", {ECONNRESET, EINTR, EAGAIN, ETIMEDOUT, EIO}}, {"write", "sess", {EPIPE, ECONNRESET, EINTR, EAGAIN}},
    {"poll", "*", {EINTR}},
    {"gethostbyname", "*", {2}}, {"gethostbyaddr", "*", {1, 2}},
    {"tcgetattr", "tty:*", {EIO}}, {"tcsetattr", "tty:*", {EIO, EINTR}}, {"tcsendbreak", "tty:*", {EIO}},
    {"getsockopt", "dev:*", {ENOMEM}}, {"lock", "*", {EAGAIN, EINTR, ENOLCK}}, {"inotify_add_watch", "*", {ENOSPC, ENOENT}},
    {"ipmi_ctx_create", "*", {ENOMEM, EMFILE}}, {"ipmi_submit", "*", {ENOMEM}}, {"exec", "*", {ENOENT, EACCES, ENOMEM}}, {"kill", "*", {ESRCH, EPERM}}, {"setpgid", "*", {EACCES}},
    {"write", "file:*", {ENOSPC, EIO, EINTR, EAGAIN}},
};
static void sysfault(G &g, Time t, bool logs_ok) {
    for (;;) {
        auto &f = SYSF[g.r.below(sizeof SYSF / sizeof *SYSF)];
        if (!logs_ok && !strncmp(f.tag, "file:", 5)) continue;
        if (!logs_ok && !strcmp(f.sys, "lock")) continue;
        int err = g.r.pick(f.errs); int cnt = g.r.pct(70) ? 1 : g.r.range(2, 6);
        g.op(t, "fault", {f.sys, f.tag, g.n(g.r.pct(70) ? 0 : g.r.range(1, 5)), g.n(cnt), g.n(err), "0"});
        return;
    }
}
static std::string telnet_raw(Rng &r, bool partial) {
    std::string d; int k = r.range(1, 3);
    auto one = [&] {
        static const unsigned char opts[] = {0, 1, 3, 5, 24, 31, 34, 44, 128, 250, 254, 255};
        switch (r.below(4)) {
        case 0: { static const unsigned char c2[] = {241, 242, 243, 244, 245, 246, 247, 248, 249, 240, 1, 127, 236, 237, 238, 239}; d += '\xff'; d += (char)c2[r.below(sizeof c2)]; break; }
        case 1: case 2: d += '\xff'; d += (char)(251 + r.below(4)); d += (char)opts[r.below(sizeof opts)]; break;
        case 3: { d += "\xff\xfa"; d += (char)opts[r.below(10)]; int n = r.range(0, 40); while (n--) { unsigned char c = r.pct(10) ? 255 : r.pct(20) ? 240 + r.below(15) : r.below(256); d += (char)c; if (c == 255) d += (char)c; } d += "\xff\xf0"; break; }
        }
    };
    while (k--) one();
    if (partial) { d.clear(); one(); if (d.size() > 1) d.resize(r.range(1, (int)d.size() - 1)); }
    std::string h; for (unsigned char c : d) h += fmt("%02x", c); return h;
}
static void devfaults(G &g, const Prof &f, Time H) {
    auto &r = g.r;
    for (auto &c : g.p.cons) {
        if (c.type == 'T' && r.pct(f.neg)) { g.p.opt["neg:" + c.name] = std::to_string(r.range(1, 4)); if (r.pct(30)) g.p.opt["noans:" + c.name] = "1"; }
        if (c.type == 'T' && r.pct(f.devraw)) { g.p.opt["noans:" + c.name] = "1"; int k = r.range(1, 14); while (k--) { bool part = r.pct(15); Time t = g.at(0, H); if (r.pct(70) && !part) { for (int i = 0; i < 2 && !g.p.ops.empty(); i++) { auto &o = g.p.ops[r.below(g.p.ops.size())]; if (o.k == "emit" && o.a[0] == c.name) t = o.t; } } g.op(t, "emitraw", {c.name, telnet_raw(r, part), "1"}); if (part) { g.op(t, "drop", {c.name, r.pick(std::vector<std::string>{"fin", "rst", "fail"})}); } } }
        if (c.type != 'T' && r.pct(f.devraw)) { int k = r.range(1, 5); while (k--) { std::string h; int n = r.range(1, 40); while (n--) { int x = r.below(256); if (x == '<') x++; h += fmt("%02x", x); } g.op(g.at(0, H), "emitraw", {c.name, h, "0"}); } }
        if (c.type == 'T' && r.pct(f.dnsf)) { Time t = g.at(0, H); g.op(t, "dns", {fmt("ts%c", c.name[1]), r.pct(60) ? "fail" : "slow", g.n(r.range(0, 8000))}); if (r.pct(60)) g.op(t + MS, "drop", {c.name, "fin"}); g.op(g.at(t, H + 5 * SEC), "dns", {fmt("ts%c", c.name[1]), "ok", "0"}); }
        for (int i = 0; i < f.drops; i++) if (r.pct(60)) { Time t = g.at(0, H); g.op(t, "drop", {c.name, r.pick(std::vector<std::string>{"fin", "rst", "fail", "half"})}); if (r.pct(50)) g.op(t + r.range(0, 3) * SEC + 10 * MS, "emit", {c.name, "80", "0"}); }
        for (int i = 0; i < f.modes; i++) if (r.pct(50)) { Time t = g.at(0, H); g.op(t, "mode", {c.name, r.pick(std::vector<std::string>{"refuse", "hole", "unreach"})}); if (r.pct(70)) g.op(t + MS, "drop", {c.name, "fin"}); g.op(g.at(t, H + 5 * SEC), "mode", {c.name, "accept"}); }
        if (r.pct(f.flaps)) { Time t = g.at(0, H), e = g.at(t, H), iv = r.pick(std::vector<Time>{50 * MS, SEC, 5 * SEC, 14 * SEC, 20 * SEC, 59 * SEC, 70 * SEC, 400 * SEC}); for (int i = 0; i < 60 && t < e; i++) { g.op(t, "drop", {c.name, r.pick(std::vector<std::string>{"fin", "rst"})}); t += iv / 2 + g.at(0, iv); } }
        if (f.flaps) for (int i = 0; i < 2; i++) if (r.pct(50)) {       // long outages
            Time t = g.at(0, H), e = g.at(t, H); g.op(t, "mode", {c.name, r.pick(std::vector<std::string>{"refuse", "hole", "unreach", c.type == 'I' ? "silent" : "refuse"})}); g.op(t + MS, "drop", {c.name, "fin"});
            if (c.type == 'U' && r.pct(60)) { g.op(t + 2 * MS, "unlink", {c.name}); Time q = g.at(t, e); g.op(q, "create", {c.name}); if (r.pct(30)) g.op(q, "mode", {c.name, "refuse"}), g.op(q + r.range(1, 3000) * MS, "mode", {c.name, "accept"}); if (r.pct(30)) g.op(q + r.range(0, 1000), "create", {c.name}); if (r.pct(30)) { Time z = g.at(t, e); g.op(z, "unlink", {c.name}); g.op(z + r.range(0, 100), "create", {c.name}); } }
            g.op(e, "mode", {c.name, "accept"});
        }
        if (c.type == 'U' && f.drops && r.pct(30)) { Time t = g.at(0, H); g.op(t, "unlink", {c.name}); g.op(t + 10, "drop", {c.name, "fin"}); g.op(g.at(t, H), "create", {c.name}); if (r.pct(50)) g.op(g.at(0, H), "touchdir", {c.name}); }
        if (r.pct(f.devstalls)) { Time t = g.at(0, H); g.op(t, "devstall", {c.name}); if (r.pct(70)) g.op(g.at(t, H), "devresume", {c.name}); }
    }
}
static std::string staticlog(const ConsoleSpec &c) {       // the path of a log whose name does not depend on the time
    std::string q = c.log; size_t z; if (q.empty()) return "";
    while ((z = q.find("%N")) != std::string::npos) q.replace(z, 2, c.name);
    if (q.find('%') != std::string::npos) return "";
    return q[0] == '/' ? q : "/var/log/consoles/" + q;
}
static void mixed(G &g, const Prof &f) {
    auto &r = g.r; sched(g, f.sched); server(g, f);
    Time H = f.horizon * SEC; if (r.pct(f.longrun)) H *= 100;
    emits(g, f, H);
    int n = r.range(f.sess_lo, f.sess_hi); for (int i = 0; i < n; i++) session(g, f, H, i);
    devfaults(g, f, H);
    for (int i = 0; i < f.hups; i++) if (r.pct(40)) { if (r.pct(60)) for (auto &c : g.p.cons) if (!c.log.empty() && r.pct(60)) { std::string q = c.log; size_t z; if (q.find("%N") == std::string::npos || q.find("%Y") != std::string::npos || q.find("%H") != std::string::npos || q.find("%d") != std::string::npos) continue; while ((z = q.find("%N")) != std::string::npos) q.replace(z, 2, c.name); if (q[0] != '/') q = "/var/log/consoles/" + q; Time t = g.at(0, H); g.op(t, "rotate", {q}); g.op(t + (r.pct(50) ? 1 : r.range(1, 2000) * MS), "sig", {"1"}); } g.op(g.at(0, H), "sig", {"1"}); }
    for (int i = 0; i < f.disks; i++) for (auto &c : g.p.cons) {
        std::string q = staticlog(c); if (q.empty() || !r.pct(60)) continue;
        Time t = g.at(0, H), u = g.at(t, H), v = g.at(u, H); if (r.pct(50)) g.op(t, "disk", {q, "full", g.n(r.pct(50) ? r.range(0, 400) : r.range(0, 20000))}); else g.op(t, "disk", {q, "fail", g.n(r.pick(std::vector<int>{EIO, ENOSPC, EDQUOT, EROFS}))});
        if (r.pct(30)) g.op(g.at(t, u), "sig", {"1"});
        g.op(u, "undisk", {q}); if (r.pct(85)) g.op(v, "sig", {"1"});
    }
    for (int i = 0; i < f.logfaults; i++) {
        std::string q = staticlog(r.pick(g.p.cons)), dir; if (q.empty()) continue; if (q.find("/sub") != std::string::npos) dir = q.substr(0, q.rfind('/'));
        Time t = g.at(0, H), u = g.at(t, H), h = t + r.range(0, 2000) * MS; std::string F = "file:" + q; int e = r.pick(std::vector<int>{EACCES, ENOSPC, EIO, EMFILE, EROFS, EDQUOT}), n = r.pct(50) ? 1 : r.range(1, 8);
        switch (r.below(dir.empty() ? 6 : 7)) {
        case 0: g.op(t, "fault", {"open", F, "0", g.n(n), g.n(e), "0"}); g.op(h, "sig", {"1"}); break;
        case 1: g.op(t, "fault", {"lock", F, "0", g.n(n), g.n(r.pick(std::vector<int>{EAGAIN, EACCES, ENOLCK})), "0"}); g.op(h, "sig", {"1"}); break;
        case 2: g.op(t, "lockfile", {q}); g.op(h, "sig", {"1"}); g.op(u, "unlockfile", {q}); break;
        case 3: g.op(t, "fault", {"write", F, g.n(r.pct(50) ? 0 : r.range(0, 20)), g.n(n), g.n(e == EMFILE ? EFBIG : e), "0"}); if (r.pct(30)) g.op(h, "sig", {"1"}); break;
        case 4: g.p.faults.push_back(FaultRule()); g.p.faults.back().sys = r.pct(60) ? "open" : "lock"; g.p.faults.back().tag = F; g.p.faults.back().count = n; g.p.faults.back().err = g.p.faults.back().sys == "lock" ? EAGAIN : e; break;
        case 5: g.op(t, "fault", {"write", F, "0", "1", r.pick(std::vector<std::string>{g.n(EINTR), g.n(EAGAIN), "0"}), g.n(r.range(1, 300))}); continue;
        case 6: g.op(t, "blockdir", {dir}); g.op(h, "sig", {"1"}); g.op(u, "unblockdir", {dir}); break;
        }
        if (r.pct(80)) g.op(std::max(u, h) + r.range(0, 3000) * MS, "sig", {"1"});
    }
    if (f.dlogf) {                           // the daemon's own log fails
        const std::string q = "/var/log/conmand.log", F = "file:" + q; bool has = false; for (auto &l : g.p.conf) if (l.find("server logfile=") == 0) { has = true; l = "server logfile=\"" + q + "\""; } if (!has) g.p.conf.push_back("server logfile=\"" + q + "\"");
        for (int i = 0; i < f.dlogf; i++) {
            Time t = g.at(0, H), u = g.at(t, H), h = t + r.range(0, 2000) * MS; int e = r.pick(std::vector<int>{EACCES, ENOSPC, EIO, EMFILE, EROFS}), n = r.pct(60) ? 1 : r.range(1, 4);
            switch (r.below(7)) {
            case 0: g.op(t, "fault", {"open", F, "0", g.n(n), g.n(e), "0"}); g.op(h, "sig", {"1"}); break;
            case 1: g.op(t, "fault", {"lock", F, "0", g.n(n), g.n(EAGAIN), "0"}); g.op(h, "sig", {"1"}); break;
            case 2: g.op(t, "lockfile", {q}); g.op(h, "sig", {"1"}); g.op(u, "unlockfile", {q}); break;
            case 3: g.op(t, "fault", {"write", F, "0", g.n(n), g.n(e == EMFILE ? EFBIG : e), "0"}); if (r.pct(40)) g.op(h, "sig", {"1"}); break;
            case 4: g.p.faults.push_back(FaultRule()); g.p.faults.back().sys = r.pct(60) ? "open" : "lock"; g.p.faults.back().tag = F; g.p.faults.back().count = 1; g.p.faults.back().err = g.p.faults.back().sys == "lock" ? EAGAIN : e; break;
            case 5: g.op(t, "rotate", {q}); break;
            case 6: g.op(t, "disk", {q, "full", g.n(r.range(0, 400))}); g.op(u, "undisk", {q}); break;
            }
            if (r.pct(85)) g.op(std::max(u, h) + r.range(0, 3000) * MS, "sig", {"1"});
        }
    }
    if (f.alldown) {                         // a while without any open log
        Time t = g.at(0, H / 2), u = g.at(t, H); for (auto &c : g.p.cons) { std::string q = staticlog(c); if (!q.empty()) g.op(t, "fault", {"open", "file:" + q, "0", "1", g.n(r.pick(std::vector<int>{EACCES, ENOSPC, EROFS})), "0"}); }
        g.op(t + MS, "sig", {"1"}); g.op(std::max(u, t + SEC), "sig", {"1"});
    }
    if (r.pct(f.aligns)) {                   // a circular buffer filled exactly to its end, and what happens then
        std::vector<std::pair<std::string, std::string>> ss; for (auto &o : g.p.ops) if (o.k == "open" && o.a[1] != "QUERY") for (auto &c : g.p.cons) if (o.a[2] == c.name) ss.push_back({o.a[0], c.name});
        int k = r.range(1, 3); Time t = g.at(0, H); while (k--) {
            auto &c = r.pick(g.p.cons); std::string q = staticlog(c), dl = g.n(r.pick(std::vector<int>{0, 0, 0, -1, 1})); int w = r.below(10); std::string who;
            if (w < 5 && !q.empty()) g.op(t, "align", {c.name, "log", q, dl}); else if (w < 8 && !ss.empty()) { auto &x = r.pick(ss); who = x.first; g.op(t, "align", {x.second, "sess", who, dl}); } else if (!ss.empty()) { auto &x = r.pick(ss); who = x.first; g.op(t, "align", {x.second, "in", who, dl}); }
            for (auto &x : ss) if (x.second == c.name && r.pct(70)) g.op(t + r.range(100, 900) * MS, "esc", {x.first, "L"});
            if (r.pct(60)) g.op(t + r.range(200, 1500) * MS, "emit", {c.name, g.n(r.range(1, 300)), "0"});
            if (!who.empty() && r.pct(30)) g.op(t + r.range(0, 300) * MS, "send", {who, g.n(r.range(1, 200))});
            for (auto &x : ss) if (x.second == c.name && r.pct(50)) g.op(t + r.range(1000, 2500) * MS, "esc", {x.first, "L"});
            t += r.range(100, 3000) * MS;
        }
    }
    for (int i = 0; i < f.sysfaults; i++) sysfault(g, g.at(0, H), f.disks > 0);
    if (f.sysfaults && r.pct(40)) {          // out of descriptors for a while
        Time t = g.at(0, H), u = t + r.range(10, 20000) * MS;
        for (auto n : {"accept", "socket", "pipe", "socketpair", "open", "ipmi_ctx_create"}) g.op(t, "fault", {n, "*", "0", "100000", g.n(r.pct(80) ? EMFILE : ENFILE), "0"});
        for (int i = 0; i < 2; i++) session(g, f, H, 1);
        g.op(u, "nofault");
    }
    if (r.pct(f.dnsf)) { Time t = g.at(0, H); g.op(t, "rdns", {r.pct(50) ? "fail" : "ok", g.n(r.range(0, 4000))}); g.op(g.at(t, H), "rdns", {"ok", "0"}); }
    for (int i = 0; i < f.stops; i++) if (r.pct(30)) g.op(g.at(0, H), "stop", {g.n(r.range(5, 5000))});
    for (int i = 0; i < f.jumps; i++) if (r.pct(50)) g.op(g.at(0, H), "jump", {g.n(r.pct(50) ? r.range(1, 100) : r.range(-4000, 4000))});
    if (f.hupstorm) {                        // re-open signals at critical moments
        int k = r.range(1, f.hupstorm);
        for (int i = 0; i < k; i++) {
            Time t = g.p.ops.empty() || r.pct(30) ? g.at(0, H) : std::max<Time>(0, g.p.ops[r.below(g.p.ops.size())].t + (r.pct(50) ? r.range(-200, 2000) : r.range(-50, 50) * MS)); std::string what = "1";
            for (auto &c : g.p.cons) { std::string q = staticlog(c); if (!q.empty() && r.pct(40)) { if (r.pct(80)) g.op(t, "rotate", {q}); else g.op(t, "rmlog", {q}); if (r.pct(30)) t += r.range(1, 400); } }
            if (r.pct(40)) g.op(t, "sigat", {"1", r.pick(std::vector<std::string>{"poll", "poll", "poll", "open", "write", "close", "fcntl", "mkdir", "stat", "read", "gettimeofday"}), g.n(r.pct(60) ? r.range(0, 3) : r.range(0, 60))});
            else g.op(t + (r.pct(50) ? r.range(0, 3) : r.range(1, 3000) * MS), "sig", {"1"});
            if (r.pct(40)) { int m = r.range(1, 3); while (m--) g.op(t + r.range(1, 600), "sig", {"1"}); }
            if (r.pct(20)) { g.op(t + r.range(0, 200), "sigat", {"1", r.pick(std::vector<std::string>{"open", "close", "poll", "write"}), g.n(r.range(0, 12))}); }
        }
        for (auto &o : g.p.ops) o.t = std::max<Time>(0, o.t);
    }
    for (int i = 0; i < f.crashes; i++) {    // killed at any moment, started again
        Time t = g.p.ops.empty() || r.pct(30) ? g.at(0, H) : std::max<Time>(0, g.p.ops[r.below(g.p.ops.size())].t + (r.pct(60) ? r.range(-200, 2000) : r.range(-20, 20) * MS)), u = t + (r.pct(50) ? r.range(1, 1000) : r.range(1, 8000) * MS);
        if (r.pct(60)) { g.op(t, "sigat", {"9", r.pick(std::vector<std::string>{"writev", "writev", "write", "open", "close", "fcntl", "poll", "read", "accept", "connect", "stat", "mkdir", "fork"}), g.n(r.pct(60) ? r.range(0, 3) : r.range(0, 40))}); if (r.pct(60)) g.op(u, "sig", {"9"}); }
        else g.op(t, "sig", {"9"});
        int k = r.range(1, 3); Time v = u + r.range(1, 50); while (k--) { g.op(v, "start", {}); if (r.pct(35)) { v += r.range(0, r.pct(50) ? 120 : 600); g.op(v, "killall", {}); } v += r.pct(50) ? r.range(1, 2000) : r.range(1, 4000) * MS; }
        if (r.pct(70)) g.op(v + r.range(1, 500), "start", {});
        if (r.pct(60)) session(g, f, H, 1);
        if (r.pct(40)) { Time a = v + r.range(1, 4000) * MS; for (auto &c : g.p.cons) g.op(a + r.range(0, 2000), "emit", {c.name, g.n(r.range(1, 3000)), "0"}); }
    }
    if (r.pct(f.term)) {                     // end at any moment
        Time t = g.p.ops.empty() || r.pct(40) ? g.at(0, H) : std::max<Time>(0, g.p.ops[r.below(g.p.ops.size())].t + (r.pct(50) ? r.range(-300, 3000) : r.range(0, 50) * MS));
        std::vector<Op> keep; for (auto &o : g.p.ops) if (o.t <= t + SEC) keep.push_back(o); g.p.ops = keep; std::string es = g.p.opt.count("endsig") ? g.p.opt["endsig"] : "15"; if (r.pct(25)) g.op(t, "sigat", {es, r.pick(std::vector<std::string>{"poll", "poll", "poll", "read", "write", "close", "gettimeofday"}), g.n(r.range(0, 6))}); else g.op(t, "sig", {es});
        if (r.pct(20)) g.op(t + r.range(0, 1000), "sig", {r.pct(50) ? "15" : "2"}); if (r.pct(20)) g.op(t + r.range(-1000, 1000), "sig", {"1"});
        for (auto &o : g.p.ops) o.t = std::max<Time>(0, o.t);
    }
    g.done();
}

Plan generate(const std::string &prop, uint64_t seed, const std::string &tier) {
    G g(prop, seed); Prof f; auto &r = g.r; (void)tier;
    if (prop == "C01") { f.aligns = 25; f.san = 5; f.ts = 5; f.esclist = "LQMFJ"; f.log = 40; f.halfs = 20; f.halftail = 8; f.slows = 5; f.stalls = 10; }
    else if (prop == "C02") { f.aligns = 25; f.log = 100; f.san = 0; f.ts = 0; f.sess_lo = 0; f.emits = 30; f.w_burst = 20; f.hups = 0; f.stalls = 15; f.slows = 10; f.tsmin = r.pct(10) ? 1 : 0; }
    else if (prop == "C03") { f.aligns = 20; f.sends = 14; f.escs = 4; f.maxsend = 2000; f.bcastp = 25; f.emits = 6; f.esclist = "MFJLDQ"; f.force = 10; f.join = 60; f.drops = 0; f.modes = 0; f.log = 30; f.devstalls = 10; }
    else if (prop == "C04") {                 // contention for write access
        f.cons_lo = 1; f.cons_hi = 2; f.sess_lo = 3; f.sess_hi = 9; f.monitor = 15; f.force = 15; f.join = 15; f.bcastp = 25; f.emits = 4; f.sends = 8; f.escs = 3; f.esclist = "MFJJFM"; f.drops = 0; f.modes = 0; f.log = 20; f.hups = 0; f.rsts = 30; f.halfs = 20; f.suspends = 15; f.stalls = 10; f.together = 60; f.query = 3; f.horizon = r.pct(50) ? 6 : 20; f.longrun = 0;
    }
    else if (prop == "C05") {                 // one-way sessions
        f.sess_lo = 2; f.sess_hi = 5; f.monitor = 60; f.bcastp = 40; f.sends = 12; f.escs = 6; f.esclist = "MFJLBRMBR&Q"; f.reset = 70; f.emits = 12; f.join = 50; f.force = 15; f.drops = 0; f.modes = 0; f.hups = 0; f.log = 30; f.cons_hi = 3;
        if (r.pct(60)) g.p.opt["resetdur"] = std::to_string(r.pick(std::vector<int>{5, 100, 3000}));
    }
    else if (prop == "C06") { f.aligns = 20;                 // slow and stalled peers
        f.sess_lo = 2; f.sess_hi = 6; f.stalls = 50; f.slows = 25; f.holds = 15; f.devstalls = 30; f.w_burst = 30; f.w_mid = 40; f.emits = 25; f.smallcap = 30; f.cons_hi = 3; f.monitor = 45; f.join = 40; f.esclist = "LQ"; f.sends = 8; f.maxsend = 3000; f.hangs = 30; f.hups = 0; f.suspends = 10; f.modes = 0; f.drops = 0; f.reset = 0;
    }
    else if (prop == "C07") {                 // hostile peers and transient failures
        f.sess_lo = 2; f.sess_hi = 8; f.raws = 60; f.sysfaults = 6; f.escs = 6; f.esclist = "LQMFJBRZDZ?\x01\xff" "0"; f.drops = 3; f.modes = 2; f.devstalls = 15; f.stalls = 20; f.slows = 10; f.rsts = 60; f.halfs = 25; f.holds = 15; f.hangs = 20; f.reset = 50; f.hups = 2; f.san = 20; f.ts = 20; f.emits = 12; f.devraw = 40; f.badreq = 20; f.stops = 1; f.bcastp = 25; f.query = 15; f.suspends = 20; f.dnsf = 25;
        g.p.opt["resetfaults"] = "1"; g.p.opt["rdns_wait"] = "20"; g.p.opt["slack_ms"] = "3000"; g.p.opt["nolatency"] = "1"; g.p.opt["sysfaults"] = "1";
    }
    else if (prop == "C08") {                 // release
        f.halftail = 5; f.sess_lo = 3; f.sess_hi = 8; f.suspends = 45; f.stalls = 35; f.slows = 15; f.rsts = 60; f.halfs = 30; f.holds = 20; f.hangs = 35; f.badreq = 20; f.query = 15; f.emits = 15; f.escs = 3; f.esclist = "LQMFJ"; f.drops = 2; f.modes = 1; f.together = 40; f.force = 35; f.bcastp = 25; f.hups = 1; f.longrun = 0;
        if (r.pct(20)) { f.sysfaults = r.range(2, 10); f.reset = 60; f.esclist = "LQMFJRR"; f.modes = 2; g.p.opt["resetfaults"] = "1"; g.p.opt["rdns_wait"] = "20"; g.p.opt["slack_ms"] = "3000"; g.p.opt["nolatency"] = "1"; g.p.opt["sysfaults"] = "1"; }
        if (r.pct(15)) g.p.opt["leakcycles"] = "1"; if (r.pct(12)) g.p.opt["vanish"] = std::to_string(r.below(4));
    }
    else if (prop == "C09") {                 // outages
        f.types = "TTUUPPII"; f.cons_hi = 4; f.horizon = r.pick(std::vector<int>{60, 600, 4000, 20000}); f.emits = 6; f.w_burst = 0; f.drops = 4; f.modes = 4; f.sess_hi = 3; f.sends = 3; f.escs = 1; f.esclist = "MJ"; f.hups = 1; f.longrun = 0; f.dnsf = r.pct(25) ? 40 : 0; f.sysfaults = r.pct(20) ? 4 : 0; f.flaps = r.pct(50) ? 60 : 0; f.reset = 0; f.jumps = r.pct(10); f.stops = r.pct(10); f.halfs = 10;
        if (r.pct(10)) g.p.opt["vanish"] = "2";
        if (f.sysfaults) { g.p.opt["sysfaults"] = "1"; g.p.opt["rdns_wait"] = "20"; g.p.opt["slack_ms"] = "3000"; g.p.opt["nolatency"] = "1"; g.p.opt["retry_slack"] = "1800"; }
    }
    else if (prop == "C10") {                 // telnet
        f.types = r.pct(70) ? "T" : "TTTU"; f.cons_hi = 2; f.styles = {0, 1, 1, 2, 3}; f.neg = 80; f.devraw = 60; f.drops = 2; f.modes = 0; f.sends = 10; f.maxsend = 500; f.bcastp = 25; f.join = 50; f.log = 90; f.san = 0; f.ts = 0; f.hups = 0; f.esclist = "BLQ"; f.emits = 25; f.w_burst = 5; f.sched = 85;
    }
    else if (prop == "C11") {                 // log formatting
        f.log = 100; f.san = 60; f.ts = 60; f.sess_lo = 0; f.sess_hi = 2; f.styles = {0, 1, 2, 2, 2, 3}; f.emits = 30; f.w_small = 75; f.w_mid = 20; f.w_burst = 8; f.drops = 1; f.modes = 0; f.hups = 0; f.sched = 80; f.esclist = "LQ"; f.reset = 0; f.jumps = 1;
        if (r.pct(50)) g.p.opt["tz"] = r.pick(std::vector<std::string>{"UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "AEST-10AEDT,M10.1.0,M4.1.0/3"}); if (r.pct(40)) g.p.opt["wall"] = std::to_string(1772000000L + r.range(0, 31536000));
        if (r.pct(15)) f.hups = 1;
        if (r.pct(30)) { f.tsmin = 1; long w0 = 1772000000L + r.range(0, 31536000); g.p.opt["wall"] = std::to_string(w0 - w0 % 60 + 60 - r.range(1, std::min(59, f.horizon))); f.jumps = 0; }   // an interval timestamp in the midst of the output
    }
    else if (prop == "C12") {                 // log re-opening
        f.log = 100; f.datelog = 45; f.patterns = 1; f.hupstorm = 8; f.hups = 2; f.san = 10; f.ts = 10; f.cons_hi = 4; f.emits = 25; f.w_burst = 20; f.sess_lo = 0; f.sess_hi = 3; f.drops = r.pct(30); f.modes = 0; f.reset = 0; f.esclist = "Q"; f.escs = 1; f.jumps = r.pct(40) ? 2 : 0; f.longrun = 15; f.sched = 80; f.stalls = 5; f.stops = 1; f.pid = r.pct(30); f.dlogf = r.pct(20) ? r.range(1, 3) : 0;
        g.p.opt["wall"] = std::to_string(1773100800L + r.range(0, 400) * 86400L + (r.pct(60) ? 86400 - r.range(0, 40) : r.range(0, 86399)));
        if (r.pct(50)) g.p.opt["prelog"] = "1"; if (r.pct(20)) g.p.opt["args"] = "-z"; if (r.pct(50)) g.p.opt["tz"] = r.pick(std::vector<std::string>{"EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "<+1245>-12:45"});
    }
    else if (prop == "C13") { f.aligns = 40;                 // replays
        f.log = 90; f.escs = 8; f.esclist = "LLLLLLLQMF"; f.sess_lo = 1; f.sess_hi = 5; f.monitor = 50; f.join = 50; f.force = 10; f.cons_hi = 2; f.drops = 1; f.modes = 0; f.san = 25; f.ts = 25; f.hups = r.pct(40) ? 2 : 0; f.disks = r.pct(30); f.reset = 0; f.emits = r.pick(std::vector<int>{0, 2, 8, 30}); f.w_burst = 12; f.w_mid = 25; f.datelog = 15; f.bcastp = 10;
    }
    else if (prop == "C14") {                 // resets
        f.reset = 90; f.sess_lo = 2; f.sess_hi = 6; f.escs = 5; f.esclist = "RRRRMFJ"; f.bcastp = 40; f.monitor = 25; f.join = 45; f.force = 15; f.emits = 8; f.sends = 4; f.drops = 0; f.modes = 0; f.hups = 1; f.log = 30; f.cons_hi = 3; f.horizon = r.pct(40) ? 200 : r.pct(50) ? 20 : 5; f.longrun = 0;
        g.p.opt["resetdur"] = std::to_string(r.pick(std::vector<int>{1, 20, 500, 5000, 30000, 59000, 61000, 100000, -1})); if (r.pct(40)) g.p.opt["resetkid"] = "1"; if (r.pct(30)) g.p.opt["resetcode"] = "3"; if (r.pct(15)) g.p.opt["resetignterm"] = "1";
    }
    else if (prop == "C15") {                 // serial breaks
        f.types = "TTSSPPIIU"; f.cons_hi = 4; f.sess_lo = 1; f.sess_hi = 5; f.escs = 6; f.esclist = "BBBBBMFJ"; f.bcastp = 40; f.monitor = 30; f.join = 55; f.force = 10; f.emits = 5; f.sends = 10; f.maxsend = 300; f.drops = 0; f.modes = 0; f.hups = 0; f.log = 30; f.reset = 0;
    }
    else if (prop == "C16") {                 // queries
        f.names = 1; f.types = "UUUTS"; int z = r.below(10); f.cons_lo = z < 6 ? 2 : z < 9 ? 8 : 60; f.cons_hi = z < 6 ? 10 : z < 9 ? 40 : 200; f.emits = z < 6 ? 5 : z < 9 ? 1 : 0; f.sess_lo = 3; f.sess_hi = 9; f.query = 60; f.bcastp = 40; f.hangs = 8; f.stalls = 10; f.slows = 10; f.smallcap = 25; f.drops = z < 6; f.modes = 0; f.hups = 0; f.reset = 20; f.log = z < 9 ? 30 : 0; f.san = 5; f.ts = 5; f.escs = 1; f.esclist = "LQ"; f.longrun = 0; f.monitor = 30; f.join = 50; f.together = 40;
        if (z >= 6) g.p.opt["probein"] = "0";
    }
    else if (prop == "C19") {                 // termination
        f.sess_lo = 1; f.sess_hi = 7; f.stalls = 40; f.slows = 15; f.suspends = 30; f.hangs = 30; f.devstalls = 20; f.modes = 2; f.drops = 1; f.emits = 20; f.w_burst = 30; f.hups = 1; f.rsts = 30; f.reset = 40; f.esclist = "LQRBMFJ"; f.log = 80; f.pid = r.pct(70); f.term = 100; f.longrun = 0; f.san = 20; f.ts = 20;
        if (r.pct(40)) g.p.opt["resetdur"] = "-1"; if (r.pct(40)) g.p.opt["endsig"] = "2";
    }
    else if (prop == "C20") {                 // interval timestamps
        f.tsmin = r.pick(std::vector<int>{1, 1, 2, 3, 5, 7, 10, 15, 30, 45, 60, 60, 90, 120, 360, 420, 720, 1440, 1440, 2880, 10080, 1000, 43200, 50400, 100800}); f.log = 90; f.cons_hi = 4; f.emits = 10; f.w_burst = 5; f.sess_lo = 0; f.sess_hi = 3; f.escs = 2; f.drops = 1; f.modes = 1; f.hups = 2; f.hupstorm = r.pct(40) ? 4 : 0; f.datelog = r.pct(30) ? 40 : 0; f.longrun = 0; f.stops = r.pct(20); f.flaps = 0; f.reset = r.pct(20) ? 50 : 0; f.jumps = r.pct(10); f.san = 25; f.ts = 25;
        if (r.pct(15)) f.alldown = true, f.hups = r.pct(50), f.hupstorm = 0, f.datelog = 0; else if (r.pct(10)) f.logfaults = r.range(1, 3);
        long iv = f.tsmin * 60L; f.horizon = (int)std::min(iv * (iv > 86400 * 7 ? 1 : r.range(1, iv > 80000 ? 4 : 12)) + r.range(0, 90), 86400L * 75); if (f.horizon > 86400 * 7) { f.modes = f.drops = 0; f.hupstorm = std::min(f.hupstorm, 2); }
        long w0 = 1770000000L + r.range(0, 400) * 86400L; w0 -= w0 % 86400; if (r.pct(70)) w0 += (r.range(0, 86400) / iv) * iv + (r.pct(60) ? -r.range(0, 30) : r.pct(50) ? r.range(-600, 600) : 0); else w0 += r.range(0, 86399);
        g.p.opt["wall"] = std::to_string(w0); if (r.pct(70)) g.p.opt["tz"] = r.pick(std::vector<std::string>{"UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "AEST-10AEDT,M10.1.0,M4.1.0/3", "<+1245>-12:45", "<-0330>3:30"});
    }
    else if (prop == "C24") {                 // notices
        f.sess_lo = 2; f.sess_hi = 7; f.quiet = 25; f.escs = 5; f.esclist = "QQMFJRB"; f.monitor = 40; f.join = 45; f.force = 25; f.bcastp = 20; f.emits = 8; f.w_burst = 2; f.w_mid = 10; f.sends = 3; f.drops = 2; f.modes = 1; f.hups = 0; f.log = 60; f.reset = 40; f.cons_hi = 2; f.together = 30;
    }
    else if (prop == "C25") {                 // crashes
        f.log = 95; f.pid = r.pct(80); f.crashes = r.range(1, 4); f.san = 8; f.ts = 8; f.datelog = r.pct(30) ? 30 : 0; f.emits = 25; f.w_burst = 15; f.hups = r.pct(60); f.hupstorm = r.pct(25) ? 3 : 0; f.modes = r.pct(30); f.drops = r.pct(30); f.reset = r.pct(40) ? 90 : 0; f.escs = 3; f.esclist = "LQRBMF"; f.longrun = 5; f.tsmin = r.pct(10); f.stalls = 15; f.disks = 0; f.sched = 80; f.cons_hi = 4; f.types = "TUUSPPI";
        g.p.opt["crash"] = "1"; if (r.pct(50)) g.p.opt["prelog"] = "1"; if (r.pct(12)) g.p.opt["args"] = "-z"; if (f.reset) g.p.opt["resetdur"] = r.pick(std::vector<std::string>{"-1", "100", "20000"});
    }
    else if (prop == "C26") { f.aligns = 25;                 // suspended sessions
        f.sess_lo = 2; f.sess_hi = 5; f.suspends = 90; f.susp_n = 3; f.w_burst = 25; f.w_mid = 40; f.emits = 25; f.escs = 2; f.esclist = "LQMFJ"; f.monitor = 50; f.join = 50; f.drops = 0; f.modes = 0; f.hups = 0; f.rsts = 40; f.slows = 5; f.stalls = 5;
    }
    else if (prop == "C27") {                 // failing logs
        f.log = 92; f.cons_lo = 2; f.cons_hi = 4; f.logfaults = r.range(1, 5); f.disks = r.pct(50); f.san = 8; f.ts = 8; f.emits = 25; f.w_burst = 15; f.sess_hi = 4; f.hups = r.pct(50); f.hupstorm = r.pct(20) ? 3 : 0; f.drops = r.pct(40); f.modes = 0; f.longrun = 10; f.tsmin = r.pct(10); f.stops = r.pct(30); f.stalls = 5; f.datelog = 10; f.reset = 10; f.sched = 75; f.dlogf = r.pct(30) ? r.range(1, 3) : 0;
        g.p.opt["logfaults"] = "1"; if (r.pct(30)) g.p.opt["prelog"] = "1";
    }
    if ((prop == "C07" || prop == "C08" || prop == "C01" || prop == "C16" || prop == "C06" || prop == "C09") && r.pct(8)) g.p.opt["inherit"] = std::to_string(r.pct(85) ? r.range(225, 252) : r.range(480, 508));
    else if (prop == "C28") {                 // what is created and what is handed on
        f.log = 85; f.datelog = 30; f.reset = 80; f.types = "TUSPPPI"; f.cons_lo = 2; f.cons_hi = 4; f.esclist = "RRRLQMF"; f.escs = 4; f.sess_lo = 1; f.sess_hi = 5; f.emits = 8; f.hups = 2; f.hupstorm = r.pct(20) ? 3 : 0; f.drops = 2; f.flaps = r.pct(30); f.pid = true; f.bcastp = 30; f.logfaults = r.pct(25); f.dlogf = r.pct(20); f.longrun = 10;
        if (r.pct(50)) g.p.opt["resetkid"] = "1"; g.p.opt["resetdur"] = std::to_string(r.pick(std::vector<int>{1, 500, 5000, 30000}));
        g.p.opt["umask"] = std::to_string(r.pick(std::vector<int>{0, 0, 2, 18, 23, 63})); if (r.pct(25)) g.p.opt["args"] = "-z"; if (r.pct(20)) f.sysfaults = 1; if (r.pct(40)) g.p.opt["inherit"] = std::to_string(r.range(1, 12));
    }
    else if (prop == "C30") {                 // the configuration file
        f.log = 80; f.cons_hi = 6; f.types = "TUSSPPII"; f.san = 30; f.ts = 30; f.emits = 10; f.sess_lo = 1; f.sess_hi = 4; f.query = 25; f.reset = 40; f.escs = 2; f.esclist = "RLQ"; f.drops = r.pct(20); f.modes = 0; f.hups = r.pct(30); f.datelog = 10; f.longrun = 0; f.sched = 30; f.slows = 0; f.stalls = 0; f.tsmin = r.pct(25) ? r.pick(std::vector<int>{1, 2, 60, 1440}) : 0; f.pid = r.pct(60);
        if (r.pct(60)) g.p.opt["serial"] = "1"; g.p.opt["resetdur"] = "100"; g.p.opt["confstyle"] = std::to_string(1 + r.below(1000000));
        g.p.opt["rellog"] = r.pct(40) ? "1" : "0"; if (r.pct(10)) g.p.opt["vanish"] = std::to_string(r.below(4));
        std::string as; if (r.pct(20)) as = "-p 7890"; if (f.pid && r.pct(30)) as += std::string(as.empty() ? "" : " ") + "-P /var/run/conmand.pid"; if (!as.empty()) g.p.opt["args"] = as;
        if (f.tsmin >= 60 && r.pct(50)) { f.horizon = f.tsmin * 60 * 5 / 2; f.emits = 2; f.sess_hi = 1; f.drops = 0; }
    }
    else if (prop == "C29") {                 // serial lines
        f.types = "SSSSSTU"; f.cons_hi = 4; f.emits = 12; f.sess_lo = 1; f.sess_hi = 6; f.esclist = "BLQMF"; f.drops = r.pct(40) ? 2 : 0; f.modes = r.pct(30); f.hups = r.pct(50); f.reset = 0; f.longrun = 5; g.p.opt["serial"] = "1";
    }
    if (prop == "C21" || prop == "C22" || (prop == "C28" && r.pct(25))) {     // the client
        bool ends = prop == "C21";
        f.sess_lo = 0; f.sess_hi = 2; f.sends = 2; f.escs = 1; f.esclist = "LQM"; f.join = 40; f.force = 30; f.bcastp = 5; f.emits = ends ? 6 : r.pick(std::vector<int>{4, 15, 30}); f.w_mid = 30; f.w_burst = ends ? 3 : 10; f.styles = {0, 0, 1, 2, 3}; f.drops = r.pct(30); f.modes = 0; f.hups = 0; f.log = 70; f.reset = 60; f.cons_lo = 1; f.cons_hi = 4; f.longrun = 0; f.horizon = r.pct(50) ? 8 : 20; f.sched = 85; f.smallcap = 0;
        g.p.opt["crash"] = "1"; g.p.opt["nolatency"] = "1";
        mixed(g, f); Time H = f.horizon * SEC; auto hex = [](const std::string &d) { std::string h; for (unsigned char c : d) h += fmt("%02x", c); return h; };
        int nc = r.range(1, 3);
        for (int i = 0; i < nc; i++) {
            std::string id = fmt("k%d", i), env; std::vector<std::string> av; unsigned char esc = '&'; bool mon = false, query = false, bc = false;
            int z = r.below(100); if (z < (ends ? 12 : 6)) { av.push_back("-q"); query = true; } else if (z < 30) { av.push_back("-m"); mon = true; } else { if (r.pct(25)) av.push_back("-f"); else if (r.pct(40)) av.push_back("-j"); if (r.pct(6)) av.push_back(r.pct(50) ? "-f" : "-j"); if (g.p.cons.size() > 1 && r.pct(20)) { av.push_back("-b"); bc = true; } }
            if (r.pct(20)) av.push_back("-Q");
            if (r.pct(45)) { esc = r.pct(50) ? r.pick(std::vector<unsigned char>{'~', '%', 29, 1, 'x', 127, 0xff, 0xfe, 0x80, 0xe4, '\r', ' ', '\t', 9, '-'}) : (unsigned char)r.range(1, 255); if (strchr(".BDEFIJLMQRZ?", esc)) esc = '&'; if (r.pct(70)) av.push_back(fmt("-e0x%02x", esc)); else env += fmt(" E=%02x", esc); }
            if (r.pct(40)) { std::string l = fmt("/tmp/%s.log", id.c_str()); av.push_back("-l"); av.push_back(l); if (r.pct(20)) g.op(0, "put", {l, hex("an earlier session\r\n")}); }
            if (r.pct(ends ? 15 : 2)) env += " notty"; if (query && r.pct(70)) env += " notty";
            z = r.below(100); std::string host = "127.0.0.1:7890"; if (ends) { if (z < 4) host = "nosuch.example.com"; else if (z < 8) host = "127.0.0.1:7899"; else if (z < 11) host = "10.9.9.9:7890"; }
            if (host == "127.0.0.1:7890" && r.pct(30)) switch (r.below(6)) {       // the same place, said in another way
                case 0: env += " H=127.0.0.1:7899 P=7890"; break;
                case 1: env += " H=10.9.9.9 P=7898"; av.push_back("-d"); av.push_back(host); break;
                case 2: av.push_back("-d"); av.push_back("127.0.0.1"); break;
                case 3: env += " P=7890"; break;
                case 4: env += " P=7897"; av.push_back("-d"); av.push_back(":7890"); break;
                case 5: env += " H=:7896"; av.push_back("-d"); av.push_back(host); break;
            } else if (r.pct(50)) { av.push_back("-d"); av.push_back(host); } else env += " H=" + host;
            std::string nm = r.pick(g.p.cons).name; if (ends && r.pct(10)) nm = r.pick(std::vector<std::string>{"nosuch", "[", "c[0-9]", "c*", "'", "a\"b"}); if (bc) nm = r.pct(60) ? "c*" : "c0,c1"; if (r.pct(10)) { av.push_back("-r"); if (bc) nm = "c.*"; } if (bc && r.pct(15)) nm = r.pct(50) ? r.pick(g.p.cons).name : "[c]" + g.p.cons[0].name.substr(1);
            std::string names; if (r.pct(8)) { std::string fn = "/tmp/" + id + ".names", ls; int k = r.range(0, 3); auto junk = [&] { ls += r.pick(std::vector<std::string>{"# a comment\n", "\n", "   \t\n", " # " + g.p.cons[0].name + "\n"}); }; while (k--) junk(); ls += r.pick(std::vector<std::string>{"", " ", "\t"}) + nm + r.pick(std::vector<std::string>{"\n", " \n", "\r\n", ""}); if (ls.back() == '\n' && r.pct(40)) { ls += r.pick(g.p.cons).name + "\n"; junk(); } names = hex(ls); av.push_back("-F" + fn); }
            else if (!(query && r.pct(40))) { av.push_back(nm); if (query || r.pct(3)) while (r.pct(30)) av.push_back(r.pick(std::vector<std::string>{"c0,c1", "c0,,c2,", ",c1", "nosuch", "c[1-3]", "a'b\"c", "'", "x\"", g.p.cons[0].name})); }
            Time t0 = g.at(0, H / 3), s0 = t0 + 20 * MS; std::vector<std::string> a = {id, env.empty() ? "" : env.substr(1)}; a.insert(a.end(), av.begin(), av.end()); if (!names.empty()) g.op(std::max<Time>(0, t0 - MS), "put", {"/tmp/" + id + ".names", names}); g.op(t0, "client", a);
            if (ends && r.pct(5)) g.op(t0 + r.range(0, 3000), "sig", {r.pct(50) ? "9" : "15"}), g.op(t0 + 3 * SEC, "start");
            if (r.pct(ends ? 20 : 3)) g.op(t0 + r.range(0, 4000), ends && r.pct(50) ? "csigat" : "csig", {id, "", ""}); if (g.p.ops.back().k == "csig") g.p.ops.back().a = {id, g.n(r.pick(std::vector<int>{15, 15, 2, 1, 3, 9}))}; else if (g.p.ops.back().k == "csigat") g.p.ops.back().a = {id, r.pick(std::vector<std::string>{"select", "read", "write", "tcsetattr", "tcgetattr", "sigaction", "connect", "close", "isatty"}), g.n(r.range(0, 6)), "15"};
            if (query) continue;
            Time b = g.at(s0 + SEC, H); std::string E(1, (char)esc); auto keys = [&](Time t, const std::string &d) { g.op(t, "ckeys", {id, hex(d)}); };
            int n = r.range(0, ends ? 8 : 30);
            while (n--) { Time t = r.pct(15) ? s0 + r.range(0, 30000) : g.at(s0, b); int y = r.below(100);
                if (y < 30) g.op(t, "ctype", {id, g.n(r.pct(80) ? r.range(1, 40) : r.range(100, 800))});
                else if (y < 45) { std::string d; int k = r.range(1, 40); while (k--) d += (char)r.below(256); std::string q; for (char c : d) { q += c; if ((unsigned char)c == esc) q += r.pct(70) ? c : 'x'; } keys(t, q); }      // every byte value
                else if (y < 55) { std::string d; int k = r.range(1, 8); while (k--) d += r.pick(std::vector<std::string>{E + E, E + "x", E + "\r", E + "\xff", "\xff", "\xff\xff", "\r", "\n", E + E + E + E, "&", E + std::string(1, '\0'), E + "&"}); keys(t, d); }
                else if (y < 85) { std::string d; int k = r.pct(70) ? 1 : r.range(2, 5); while (k--) { char c = "BDEFIJLMQR?BDLQ"[r.below(15)]; if (c == 'R' && r.pct(60)) c = 'Q'; d += E + c; if (r.pct(30)) d += "abc\r"; } keys(t, d); }
                else if (y < 90) { keys(t, E); g.op(t + r.range(1, 2000) * MS, "ckeys", {id, hex(r.pick(std::vector<std::string>{"B", "Q", "I", "?", "L", "z", E}))}); }    // an escape split in time
                else { keys(t, E + "Z" + (r.pct(30) ? "tail" : "")); g.op(t + (r.pct(30) ? r.range(1, 30) * MS : r.range(1, 4000) * MS), "ccont", {id}); }
            }
            if (r.pct(ends ? 15 : 25)) { Time t = g.at(s0, b); g.op(t, "cstall", {id}); g.op(t + r.range(1, 3000) * MS, "cresume", {id}); }
            if (r.pct(15)) g.op(g.at(s0, b), "chold", {id, g.n(r.range(10, 3000))});
            if (r.pct(ends ? 25 : 5)) { static const struct { const char *sys, *tag; std::vector<int> e; } CF[] = {{"read", "term:", {EIO, EINTR, ENXIO}}, {"write", "term:", {EIO, EINTR, ENOSPC}}, {"tcsetattr", "term:", {EIO}}, {"tcgetattr", "term:", {EIO}}, {"read", "csess:", {ECONNRESET, ETIMEDOUT, EINTR, EHOSTUNREACH}}, {"write", "csess:", {ECONNRESET, EPIPE, EINTR, ETIMEDOUT}}, {"connect", "inet", {ETIMEDOUT, ECONNREFUSED, EINTR}}, {"write", "file:/tmp/", {ENOSPC, EIO}}, {"select", "*", {ENOMEM, EINTR}}};
                auto &q = CF[r.below(sizeof CF / sizeof *CF)]; std::string tag = q.tag; if (tag.back() == ':') tag += id; else if (tag == "file:/tmp/") tag += id + ".log"; g.op(r.pct(30) ? std::max<Time>(0, t0 - MS) : g.at(s0, b), "fault", {q.sys, tag, g.n(r.range(0, 12)), "1", g.n(r.pick(q.e)), "0"}); }
            if (r.pct(10)) g.op(t0, "fault", {r.pct(50) ? "read" : "write", r.pct(50) ? "csess:" + id : "term:" + id, g.n(r.range(0, 40)), g.n(r.range(1, 4)), g.n(EINTR), "0"});
            z = r.below(100);
            if (z < 30) keys(b, E + "."); else if (z < 45) g.op(b, "csig", {id, "15"}); else if (z < 52) g.op(b, "csigat", {id, r.pick(std::vector<std::string>{"select", "read", "write", "tcsetattr"}), g.n(r.range(0, 30)), "15"});
            else if (z < 60 && ends) g.op(b, "cnet", {id, r.pct(50) ? "rst" : "fail", g.n(r.pick(std::vector<int>{ECONNRESET, ETIMEDOUT, EHOSTUNREACH}))}); else if (z < 65) g.op(b, "chup", {id}); else if (z < 68) g.op(b, "csig", {id, "9"});
            else if (z < 74 && ends) { g.op(b, "sig", {r.pct(50) ? "15" : "9"}); g.op(b + 2 * SEC, "start"); }
            else if (z < 82) { g.op(b, "csig", {id, g.n(r.pick(std::vector<int>{1, 2, 3, 13}))}); }
            if (z < 45 && r.pct(30)) { Time t = b + (r.pct(50) ? -(Time)r.range(0, 3000) : r.range(0, 3000)); if (r.pct(50)) g.op(std::max<Time>(0, t), "ctype", {id, g.n(r.range(1, 300))}); else if (r.pct(50)) keys(std::max<Time>(0, t), E + r.pick(std::vector<std::string>{"Z", "Q", ".", "?"})), g.op(b + r.range(1, 2000) * MS, "ccont", {id}); else g.op(std::max<Time>(0, t), "csig", {id, "15"}); }
        }
        g.done(); return g.p;
    }
    if (prop == "C23") {                      // access control
        f.sess_lo = 3; f.sess_hi = 10; f.together = 60; f.force = 30; f.join = 30; f.reset = 50; f.escs = 4; f.esclist = "RBMFJLQ"; f.sends = 6; f.emits = 8; f.w_burst = 3; f.drops = 0; f.modes = 0; f.hups = 0; f.bcastp = 20; f.query = 15; f.hangs = 10; f.rsts = 40; f.longrun = 0; f.net = r.pct(65); f.dnsf = 0; f.cons_hi = 3;
        g.p.opt["rdns_wait"] = "20"; g.p.opt["slack_ms"] = "3000"; g.p.opt["nolatency"] = "1"; if (r.pct(30)) g.p.opt["resetdur"] = "3000";
        mixed(g, f); auto H = f.horizon * SEC;
        bool wrap = r.pct(85); if (wrap) g.p.conf.insert(g.p.conf.begin() + r.below(g.p.conf.size()), r.pct(80) ? "server tcpwrappers=on" : "Server TCPwrappers = ON"); else if (r.pct(50)) g.p.conf.push_back("server tcpwrappers=off");
        if (!f.net && r.pct(40)) g.p.conf.push_back("server loopback=on");
        if (r.pct(80)) { bool has = false; for (auto &l : g.p.conf) if (l.find("server logfile=") == 0) has = true; if (!has) g.p.conf.push_back("server logfile=\"/var/log/conmand.log\""); }
        std::vector<uint32_t> ips; int k = r.range(2, 5); for (int i = 0; i < k; i++) ips.push_back(f.net && !r.pct(20) ? 0x0a020100u + i : 0x7f000001u + i);
        if (!f.net && r.pct(30)) ips.push_back(0x0a020101u);           // cannot even connect
        static const std::vector<std::string> names = {"bad.example.com", "good.example.com", "unknown", "x", "client.deny.example.com"};
        for (auto ip : ips) if (r.pct(60)) g.op(0, "rname", {g.n(ip), r.pick(names)});
        std::set<uint32_t> fixed, moving; for (auto ip : ips) { int z = r.below(10); if (z < 5) { g.op(0, "deny", {g.n(ip), "1"}); fixed.insert(ip); } else if (z < 8) moving.insert(ip); }
        for (auto ip : moving) { int m = r.range(1, 4); bool on = r.pct(50); while (m--) { Time t = r.pct(40) || g.p.ops.empty() ? g.at(0, H) : g.p.ops[r.below(g.p.ops.size())].t + r.range(0, 1500); g.op(t, "deny", {g.n(ip), on ? "1" : "0"}); on = !on; } }
        if (r.pct(40)) g.op(r.pct(60) ? 0 : g.at(0, H), "denyname", {r.pick(names), "1"});
        if (r.pct(35)) { Time t = g.at(0, H); g.op(t, "rdns", {r.pct(50) ? "fail" : "ok", g.n(r.pct(50) ? 0 : r.range(0, 300))}); g.op(g.at(t, H), "rdns", {"ok", "0"}); g.op(H + 4 * SEC, "nop"); }
        std::vector<Op> more;
        for (auto &o : g.p.ops) if (o.k == "open") {
            uint32_t ip = r.pick(ips); while (o.a.size() < 10) o.a.push_back(""); if (o.a[8].empty()) o.a[8] = "user" + o.a[0]; if (o.a.size() == 10) o.a.push_back(""); o.a[10] = g.n(ip);
            if (wrap && fixed.count(ip) && r.pct(60)) {                // does not wait for an answer
                std::string d = "HELLO USER='x'\n", c = r.pick(g.p.cons).name; int z = r.below(4);
                d += z == 0 ? "QUERY\n" : z == 1 ? "MONITOR CONSOLE='" + c + "'\n" : "CONNECT OPTION=FORCE CONSOLE='" + c + "'\n"; if (z > 1) d += "root\r&R&B&Mrm -rf /\r";
                std::string h; for (unsigned char ch : d) h += fmt("%02x", ch); if (r.pct(60)) { o.a[3] += 'H'; more.push_back(Op{o.t + r.range(0, 600), "raw", {o.a[0], h}}); }
            }
        }
        for (auto &o : more) g.p.ops.push_back(o);
        g.done(); return g.p;
    }
    if (prop == "C17") {                      // start-up
        static const struct { const char *sys, *tag; std::vector<int> errs; } SF[] = {
            {"pipe", "*", {EMFILE, ENFILE}}, {"fork", "*", {EAGAIN, ENOMEM}}, {"setsid", "*", {EPERM}}, {"open", "file:/etc/conman.conf", {EACCES, EMFILE, ENOENT, EIO}}, {"lock", "file:/etc/conman.conf", {EAGAIN, ENOLCK, EACCES}},
            {"fstat", "*", {EIO, EOVERFLOW}}, {"read", "file:/etc/conman.conf", {EIO, EISDIR}}, {"stat", "*", {ENOENT, EACCES}}, {"getrlimit", "*", {EINVAL}}, {"setrlimit", "*", {EPERM, EINVAL}}, {"socket", "*", {EMFILE, ENFILE, EACCES, ENOBUFS}},
            {"setsockopt", "*", {ENOPROTOOPT}}, {"bind", "*", {EACCES, EADDRINUSE, EADDRNOTAVAIL}}, {"listen", "*", {EADDRINUSE}}, {"getsockname", "*", {ENOBUFS}}, {"open", "/dev/null", {EMFILE, ENOENT, ENXIO}}, {"dup2", "*", {EBUSY, EMFILE}}, {"chdir", "*", {EACCES, ENOENT}},
            {"open", "conmand.log", {ENOSPC, EACCES, EMFILE}}, {"open", "conmand.pid", {ENOSPC, EACCES, EROFS}}, {"inotify_init", "*", {EMFILE, ENOMEM}}, {"pthread_create", "*", {EAGAIN}}, {"ipmi_engine_init", "*", {EAGAIN}}, {"getcwd", "*", {ENOENT, EACCES, ERANGE}},
            {"malloc", "*", {ENOMEM}}, {"sigaction", "*", {EINVAL}}, {"fcntl", "*", {EBADF, EINVAL}}, {"mkdir", "*", {EACCES, ENOSPC}}, {"unlink", "*", {EACCES, ENOENT, EROFS}}, {"lock", "*", {EAGAIN, ENOLCK}}, {"write", "file:*", {ENOSPC, EIO}}, {"access", "*", {EACCES, ENOENT}}};
        f.sess_lo = f.sess_hi = 0; f.emits = 0; f.log = 60; f.datelog = 20; f.pid = r.pct(85); f.cons_hi = r.pct(80) ? 4 : 30; f.reset = 30; f.tsmin = r.pct(20); mixed(g, f); g.p.ops.clear(); g.p.faults.clear();
        g.p.opt["special"] = "1"; g.p.opt["nostart"] = "1";
        auto conf = [&](const char *l) { g.p.conf.push_back(l); };
        if (r.pct(30)) conf(r.pick(std::vector<const char *>{"server nofile=-1", "server nofile=256", "server nofile=4000", "server nofile=100000", "server nofile=0"}));
        if (r.pct(15)) conf("server coredump=on"); if (r.pct(15)) conf("server syslog=\"daemon\""); if (r.pct(10)) conf("server coredumpdir=\"/tmp\"");
        std::string args; if (r.pct(15)) args += " -v"; if (r.pct(15)) args += " -z"; if (!args.empty()) g.p.opt["args"] = args.substr(1);
        if (f.pid && r.pct(20)) g.p.opt["stalepid"] = r.pct(50) ? "4242" : "1"; if (r.pct(30)) g.p.opt["prelog"] = "1";
        int z = r.below(100);
        if (z < 12) ;                        // nothing goes wrong
        else if (z < 24) {                   // the environment is not fit
            static const char *cause[] = {"the configuration file does not exist", "no console is configured", "the port is in use", "another process holds the lock of the configuration"};
            int k = r.below(4); g.p.opt["badconf"] = cause[k];
            auto heal = [&](std::vector<std::string> a) { g.op(0, "heal", a); };
            if (k == 0) g.p.opt["noconf"] = "1", g.op(0, "rm", {"/etc/conman.conf"}), heal({"putconf"});
            else if (k == 1) g.op(0, "put", {"/etc/conman.conf", "736572766572206b656570616c6976653d6f6e0a"}), heal({"putconf"});
            else if (k == 2) g.op(0, "busyport", {"7890"}), heal({"freeport", "7890"});
            else g.op(0, "lockfile", {"/etc/conman.conf"}), heal({"unlockfile", "/etc/conman.conf"});
        }
        else {
            if (z < 80) { int k = r.pct(75) ? 1 : r.range(2, 4); while (k--) { auto &s = SF[r.below(sizeof SF / sizeof *SF)]; FaultRule q; q.sys = s.sys; q.tag = s.tag; q.skip = r.pct(50) ? 0 : r.range(0, !strcmp(s.sys, "malloc") ? 300 : 12); q.count = r.pct(80) ? 1 : r.range(2, 5); q.err = r.pick(s.errs); g.p.faults.push_back(q); } }
            if (z >= 75) { g.p.opt["killat"] = std::to_string(r.pct(60) ? r.range(0, 120) : r.range(0, 600)); g.p.opt["killsig"] = r.pct(75) ? "9" : r.pct(60) ? "15" : "2"; }
        }
        if (r.pct(15)) g.p.opt["twice"] = "1";
        return g.p;
    }
    if (prop == "C18") {                      // control commands
        f.pid = r.pct(80); f.log = 60; f.emits = 10; f.sess_lo = 0; f.sess_hi = 3; f.sends = 4; f.drops = 0; f.modes = 0; f.hups = r.pct(30); f.crashes = r.pct(30); f.reset = 0; f.longrun = 0; f.horizon = r.pct(50) ? 10 : 30; f.stops = r.pct(20);
        g.p.opt["crash"] = "1"; if (r.pct(20)) g.p.opt["args"] = r.pct(50) ? "-z" : "-v";
        mixed(g, f); Time H = 0; for (auto &o : g.p.ops) H = std::max(H, o.t); H = std::max(H, 4 * SEC);
        auto cmd = [&](Time t, const std::string &k) { std::vector<std::string> a = {k}; if (k != "s") { if (r.pct(20)) a.push_back("-v"); if (f.pid && r.pct(12)) { a.push_back("-P"); a.push_back("/var/run/conmand.pid"); } } g.op(std::max<Time>(0, t), "cmd", a); };
        int k = r.range(2, 8);
        while (k--) {
            Time t = g.at(0, H); int z = r.below(10);
            if (z < 3) { int m = r.range(1, 4); while (m--) cmd(t + (r.pct(50) ? r.range(0, 600) : r.range(0, 3000) * MS), r.pick(std::vector<std::string>{"q", "q", "r", "s", "s"})); }
            else if (z < 6) {                // an end, commands while no daemon runs, a new start
                int e = r.below(4); if (e == 0) g.op(t, "sig", {"9"}); else if (e == 1) g.op(t, "sig", {"15"}); else if (e == 2) cmd(t, "k"); else g.op(t, "sigat", {"9", r.pick(std::vector<std::string>{"poll", "read", "writev", "close", "unlink"}), g.n(r.range(0, 5))});
                Time u = t + (r.pct(50) ? r.range(0, 2000) : r.range(1, 3000) * MS); int m = r.range(0, 4); while (m--) { cmd(u + r.range(0, 400), r.pick(std::vector<std::string>{"q", "r", "k"})); if (r.pct(50)) u += r.range(1, 500) * MS; }
                m = r.range(1, 3); while (m--) { cmd(u, "s"); u += r.pct(50) ? r.range(0, 400) : r.range(1, 3000) * MS; }
                g.op(u + r.range(10, 50) * MS, "start");
            }
            else if (z < 8) { int m = r.range(2, 5); while (m--) cmd(t + r.range(0, 400), r.pick(std::vector<std::string>{"q", "k", "r", "s"})); g.op(t + r.range(1, 500) * MS, "start"); g.op(t + r.range(2000, 4000) * MS, "start"); }
            else if (z == 8 && f.pid && r.pct(30)) { g.op(t, "sig", {"9"}); g.op(t + 50 * MS, "bystander"); g.op(t + 100 * MS, "cmd", {r.pick(std::vector<std::string>{"q", "k", "r"}), "-P", "/var/run/conmand.pid"}); g.op(t + 300 * MS, "start"); }
            else cmd(t, r.pick(std::vector<std::string>{"q", "r", "s"}));
        }
        g.done(); return g.p;
    }
    mixed(g, f);
    return g.p;
}
