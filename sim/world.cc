#include "world.h"
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/inotify.h>
#include <sstream>

World *W = nullptr;
static std::vector<std::string> words(const std::string &s) {
    std::vector<std::string> v; std::string cur; bool q = false, any = false;
    for (char c : s) { if (c == '\x01') continue; if (c == ' ' && !q) { if (any) v.push_back(cur); cur.clear(); any = false; } else if (c == '`') { q = !q; any = true; } else { cur += c; any = true; } }
    if (any) v.push_back(cur);
    return v;
}
static std::string quote(const std::string &s) { return s.empty() || s.find(' ') != std::string::npos ? "`" + s + "`" : s; }
std::string unhex(const std::string &h) { std::string o; for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16); return o; }
std::string tohex(const std::string &s) { std::string o; for (unsigned char c : s) o += fmt("%02x", c); return o; }

size_t upto(const std::vector<Mark> &v, Time t) { size_t n = 0; for (auto &m : v) { if (m.t > t) break; n = m.n; } return n; }
size_t before(const std::vector<Mark> &v, Time t) { size_t n = 0; for (auto &m : v) { if (m.t >= t) break; n = m.n; } return n; }
static void mark(std::vector<Mark> &v, size_t n) { if (!v.empty() && v.back().t == K->now) v.back().n = n; else v.push_back({K->now, n}); }

// ------------------------------------------------------------- plan text
#define KNOBS(X) X(p_yield) X(p_pick) X(bb_slice) X(p_shortr) X(p_shortw) X(p_eintr) X(p_eagain) X(jitter) X(p_split) X(p_sigbb) X(lat)
std::string Plan::text() const {
    std::string o = "plan 1\nprop " + prop + fmt("\nseed %lu\n", seed);
    o += "knobs";
#define X(n) o += fmt(" " #n "=%d", (int)kn.n);
    KNOBS(X)
#undef X
    o += "\n";
    for (auto &e : opt) o += "opt " + e.first + " " + quote(e.second) + "\n";
    for (auto &l : conf) o += "conf " + l + "\n";
    for (auto &c : cons) o += "console " + c.name + fmt(" %c ", c.type) + quote(c.log) + " " + quote(c.logopts) + fmt(" %d ", c.reset) + quote(c.rawdev) + "\n";
    for (auto &f : faults) o += "fault " + f.sys + " " + quote(f.tag) + fmt(" %d %d %d %ld %ld %d\n", f.skip, f.count, f.err, f.t0, f.t1, f.arg);
    for (auto &p : ops) { o += fmt("op %ld ", p.t) + p.k; for (auto &a : p.a) o += " " + quote(a); o += "\n"; }
    return o;
}
bool Plan::parse(const std::string &s, Plan *p, std::map<uint64_t, uint32_t> *trace) {
    std::istringstream in(s); std::string l;
    while (std::getline(in, l)) {
        if (l.empty() || l[0] == '#') continue;
        auto v = words(l); if (v.empty()) continue;
        if (v[0] == "prop") p->prop = v[1];
        else if (v[0] == "seed") p->seed = strtoull(v[1].c_str(), nullptr, 10);
        else if (v[0] == "knobs") for (size_t i = 1; i < v.size(); i++) {
            size_t q = v[i].find('='); std::string n = v[i].substr(0, q); int x = atoi(v[i].c_str() + q + 1);
#define X(k) if (n == #k) p->kn.k = x;
            KNOBS(X)
#undef X
        }
        else if (v[0] == "opt") p->opt[v[1]] = v.size() > 2 ? v[2] : "";
        else if (v[0] == "conf") p->conf.push_back(l.substr(5));
        else if (v[0] == "console") { ConsoleSpec c; c.name = v[1]; c.type = v[2][0]; c.log = v[3]; c.logopts = v[4]; c.reset = v[5] == "1"; c.rawdev = v[6]; p->cons.push_back(c); }
        else if (v[0] == "fault") { FaultRule f; f.sys = v[1]; f.tag = v[2]; f.skip = atoi(v[3].c_str()); f.count = atoi(v[4].c_str()); f.err = atoi(v[5].c_str()); f.t0 = atol(v[6].c_str()); f.t1 = atol(v[7].c_str()); f.arg = atoi(v[8].c_str()); p->faults.push_back(f); }
        else if (v[0] == "op") { Op o; o.t = atol(v[1].c_str()); o.k = v[2]; o.a.assign(v.begin() + 3, v.end()); p->ops.push_back(o); }
        else if (v[0] == "trace" && trace) for (size_t i = 1; i < v.size(); i++) { uint64_t a; unsigned b; if (sscanf(v[i].c_str(), "%lu:%u", &a, &b) == 2) (*trace)[a] = b; }
    }
    return true;
}

// ------------------------------------------------------------- devices
enum { tIAC = 255, tDONT = 254, tDO = 253, tWONT = 252, tWILL = 251, tSB = 250, tBREAK = 243, tSE = 240 };
Dev::Dev(World *w, const ConsoleSpec &s, int i) : w(w), sp(s), idx(i) {}
std::string Dev::devpath() const { return sp.type == 'U' ? fmt("/dev/sock%d/cons", idx) : sp.type == 'S' ? fmt("/dev/ttyS%d", idx) : ""; }
std::string Dev::confdev() const {
    if (!sp.rawdev.empty()) return sp.rawdev;
    switch (sp.type) {
    case 'T': return fmt("ts%d:2%03d", idx, idx);
    case 'U': return "unix:" + devpath();
    case 'S': return devpath();
    case 'P': return fmt("/bin/consprog %s", sp.name.c_str());
    case 'I': return fmt("ipmi:bmc%d", idx);
    }
    return "";
}
void Dev::setup() {
    neg = (int)w->plan.num("neg:" + sp.name, 0); answers = !w->plan.has("noans:" + sp.name);
    if (sp.type == 'T') K->hosts[fmt("ts%d", idx)] = {ip()};
    if (sp.type == 'U') {
        fs_mkdirs(fmt("/dev/sock%d", idx));
        node = fs_mknode(devpath(), Node::SOCK, 0777); node->listening = true;
        node->on_connect = [this](std::shared_ptr<Sock> s) { tcp_attempt(s); };
    }
    if (sp.type == 'S') {
        node = fs_mknode(devpath(), Node::CHR_TTY, 0660); tty = std::make_shared<Tty>(); node->tty = tty; tty->path = devpath();
        memset(&tty->tio, 0, sizeof tty->tio); tty->tio.c_lflag = ICANON | ECHO | ISIG; tty->tio.c_cc[VMIN] = 1; tty->tio.c_cc[VEOF] = 4; tty->tio.c_cflag = CS8 | CREAD | CLOCAL; cfsetspeed(&tty->tio, B9600);
        if (w->plan.has("serial")) {           // as some earlier user of the line left it
            Rng r(w->plan.seed * 31 + idx); auto &t = tty->tio; if (r.pct(60)) { t.c_iflag = r.next() & (BRKINT | ICRNL | INPCK | ISTRIP | IXON | IXOFF | IGNBRK | INLCR | IGNCR | PARMRK); t.c_oflag = r.next() & (OPOST | ONLCR | OCRNL); t.c_lflag = r.next() & (ICANON | ECHO | ISIG | IEXTEN | ECHOE | ECHONL | TOSTOP); t.c_cflag = CREAD | (r.next() & (PARENB | PARODD | CSTOPB | HUPCL | CLOCAL | CRTSCTS)) | r.pick(std::vector<tcflag_t>{CS5, CS6, CS7, CS8}); t.c_cc[VMIN] = r.below(3); t.c_cc[VTIME] = r.below(3); cfsetspeed(&t, r.pick(std::vector<speed_t>{B300, B9600, B38400, B115200})); }
            tty->on_used = [this] { serial_used(); };
        }
        tty->tio0 = tty->tio;
        tty->on_tx = [this](const std::string &d) { received(d); };
        tty->on_break = [this] { break_t.push_back(K->now); sink_breaks.push_back(sink.size()); };
        tty->on_consumed = [this](size_t n) { consume(n); pump(); };
        tty->on_flushed = [this](size_t n) { kinds.erase(kinds.begin(), kinds.begin() + std::min(n, kinds.size())); pump(); };
        tty->on_open = [this](int d) {
            if (d > 0) { attempt(-1); if (tty->opens == 1) connected(); }
            else if (tty->opens == 0) { if (!tty->hup && !tty->gone) cut.push_back(K->now); lost(); }
        };
    }
}
void Dev::attempt(Time fail, bool overlap) { attempts.push_back(K->now); atts.push_back({K->now, mode, -1, fail < 0 ? FOREVER : K->now + fail, overlap}); K->hashmix(attempts.size()); }
bool Dev::up() const { return !ups.empty() && ups.back().b == FOREVER; }
void Dev::connected() {
    if (up()) ups.back().b = K->now;
    ups.push_back({K->now, FOREVER}); if (!atts.empty() && atts.back().up < 0) atts.back().up = (int)ups.size() - 1;
    conn_at.push_back({consumed.size(), K->now}); connno++;
    wire.clear(); kinds.clear(); wire_sent = 0; tn_state = 0; rq_state = 0;
    K->note("device " + sp.name + " connected");
}
void Dev::lost() {
    if (!up()) return;
    ups.back().b = K->now; wire.clear(); kinds.clear(); wire_sent = 0; drops++;
    if (sp.type == 'S' && tty) { tty->rx.clear(); }
    K->note("device " + sp.name + " lost");
}
void Dev::touched() {           // the daemon looks at the socket's name: an attempt, so far a failed one
    if (!atts.empty() && atts.back().t > K->now - 5 * MS) return;
    attempt(0);
}
void Dev::tcp_attempt(std::shared_ptr<Sock> s) {
    auto cur = sut.lock(); bool overlap = cur && !cur->closed && cur != s;
    if (s->domain == AF_UNIX) {
        if (!atts.empty() && atts.back().up < 0 && atts.back().t > K->now - 5 * MS && !(mode == "refuse" || mode == "hole")) atts.pop_back(), attempts.pop_back();    // seen by touched()
        if (!(mode == "refuse" || mode == "hole")) attempt(-1, overlap);
    }
    else { attempt(mode == "hole" ? 127 * SEC : mode == "refuse" ? K->kn.lat : mode == "unreach" ? 3 * SEC : -1, overlap); sut = s; }
    std::weak_ptr<Sock> ws = s;
    auto accept = [this, ws] {
        auto s = ws.lock(); if (!s || s->closed || (s->domain == AF_INET && s->st != Sock::CONNECTING)) return;
        if (mine) { mine->actor = nullptr; if (!mine->closed) ext_close(mine.get()); }
        lost(); connected();
        s->tag = "dev:" + sp.name;
        ext_accept(s, this, K->kn.lat, stalled ? 4096 : 65536, &mine);
        sut = s;
        s->on_consumed = [this](size_t n) { consume(n); };
        if (sp.type == 'T' && neg) {
            static const std::vector<std::string> negs = {"", "fffb01fffb03", "fffd18fffd1ffffb01fffb03fffd03", "fffb01fffd01fffb03fffd03fffb00fffd00", "fffa1801fff0fffb01"};
            emit(unhex(negs[neg % negs.size()]), true);
        }
    };
    if (s->domain == AF_UNIX) {
        if (mode == "refuse" || mode == "hole") { s->err = ECONNREFUSED; return; }
        accept(); return;
    }
    if (mode == "hole") { K->after(127 * SEC, [ws] { auto s = ws.lock(); if (s) sock_connect_result(s, ETIMEDOUT); }); return; }
    if (mode == "refuse") { K->after(K->kn.lat, [ws] { auto s = ws.lock(); if (s) sock_connect_result(s, ECONNREFUSED); }); return; }
    if (mode == "unreach") { K->after(3 * SEC, [ws] { auto s = ws.lock(); if (s) sock_connect_result(s, EHOSTUNREACH); }); return; }
    K->after(K->kn.lat * 2 + slow_delay, accept);
}
void Dev::ipmi_attempt(std::shared_ptr<IpmiCtx> c) {
    attempt(mode == "hole" ? 60 * SEC : mode == "silent" ? 300 * SEC : mode == "refuse" || mode == "unreach" ? 20 * MS : -1); ipmi = c;
    std::weak_ptr<IpmiCtx> wc = c;
    if (mode == "hole") { K->after(60 * SEC, [wc] { auto c = wc.lock(); if (c) ipmi_complete(c, 24); }); return; }
    if (mode == "silent") return;            // the library never reports anything
    if (mode == "refuse" || mode == "unreach") { K->after(20 * MS, [wc] { auto c = wc.lock(); if (c) ipmi_complete(c, 16); }); return; }
    K->after(20 * MS + slow_delay, [this, wc] {
        auto c = wc.lock(); if (!c || c->destroyed || c->status != 1) return;
        lost(); connected();
        mine = c->mine; mine->actor = this; ipmi = c;
        auto s = mine->peer.lock(); sut = s; s->tag = "dev:" + sp.name;
        s->on_consumed = [this](size_t n) { consume(n); };
        c->on_break = [this] { break_t.push_back(K->now); sink_breaks.push_back(sink.size()); };
        ipmi_complete(c, 0);
    });
}
void Dev::consume(size_t n) {
    size_t before_ = consumed.size();
    for (size_t i = 0; i < n && !kinds.empty(); i++) { int k = kinds.front(); kinds.pop_front(); if (k >= 0) consumed += (char)k; else if (k <= -2) tn_reqs[-2 - k].t = K->now; }
    if (consumed.size() != before_) mark(cm, consumed.size());
}
void Dev::emit(const std::string &d, bool raw) {
    if (!up()) return;
    for (unsigned char c : d) {
        if (raw) {
            int kd = -1;
            switch (rq_state) {
            case 0: if (c == tIAC) rq_state = 1; break;
            case 1: rq_state = c >= tWILL && c <= tDONT ? 2 : c == tSB ? 3 : 0; rq_cmd = c; break;
            case 2: { static const char *nm[] = {"WILL", "WONT", "DO", "DONT"}; tn_reqs.push_back({connno, -1, fmt("%s %d", nm[rq_cmd - tWILL], c)}); kd = -2 - (int)(tn_reqs.size() - 1); rq_state = 0; break; }
            case 3: if (c == tIAC) rq_state = 4; break;
            case 4: rq_state = c == tIAC ? 3 : c == tSE ? 0 : c == tSB ? 3 : c >= tWILL && c <= tDONT ? 2 : 0; rq_cmd = c; break;
            }
            wire += (char)c; kinds.push_back(kd);
        }
        else if (sp.type == 'T' && c == 255) { wire += "\xff\xff"; kinds.push_back(-1); kinds.push_back(255); emitted += (char)c; }
        else { wire += (char)c; kinds.push_back(c); emitted += (char)c; }
    }
    pump();
}
void Dev::pump() {
    if (!up() || wire.empty()) return;
    size_t n = 0;
    if (sp.type == 'S') { if (tty->hup) return; n = std::min(wire.size(), tty->rxcap - std::min(tty->rxcap, tty->rx.size())); tty->rx += wire.substr(0, n); }
    else if (sp.type == 'P') { if (proc && proc->alive && !proc->stopped) { ssize_t k = actor_write(proc, 1, wire); n = k > 0 ? k : 0; } }
    else if (mine && !mine->closed) n = ext_send(mine.get(), wire);
    wire.erase(0, n);
}
void Dev::on_writable(Sock *) { pump(); }
void Dev::on_data(Sock *s) {
    if (stalled) return;
    if (s->st == Sock::DEAD || (s->rx_fin && s->rx.empty())) {
        if (!s->rx.empty()) received(ext_read(s));
        auto k = s->shared_from_this();
        if (mine.get() == s) { if (up()) cut.push_back(K->now); ext_close(s); mine.reset(); lost(); if (ipmi) { ipmi_drop(ipmi, 25); ipmi.reset(); } }
        return;
    }
    std::string d = ext_read(s); if (!d.empty()) { received(d); auto p = s->peer.lock(); if (p && p->actor) p->actor->on_writable(p.get()); }
    if (s->rx_fin && s->rx.empty() && mine.get() == s) on_data(s);
}
void Dev::got_data(unsigned char c) {
    sink += (char)c;
    if (sp.type == 'P' && sink.size() >= 2 && sink.compare(sink.size() - 2, 2, "&B") == 0) { sink.resize(sink.size() - 2); break_t.push_back(K->now); sink_breaks.push_back(sink.size()); }
}
void Dev::received(const std::string &d) {
    K->hashmix(d.size());
    for (unsigned char c : d) {
        if (sp.type != 'T') { got_data(c); continue; }
        switch (tn_state) {
        case 0: if (c == tIAC) tn_state = 1; else got_data(c); break;
        case 1:
            if (c == tIAC) { got_data(c); tn_state = 0; }
            else if (c >= tWILL && c <= tDONT) { tn_opt = std::string(1, (char)c); tn_state = 2; }
            else if (c == tBREAK) { break_t.push_back(K->now); sink_breaks.push_back(sink.size()); tn_state = 0; }
            else if (c == tSB) tn_state = 3;
            else { tn_bad = true; tn_cmds.push_back(fmt("CMD %d", c)); tn_conn.push_back(connno); tn_t.push_back(K->now); tn_state = 0; }
            break;
        case 2: {
            int cmd = (unsigned char)tn_opt[0]; static const char *nm[] = {"WILL", "WONT", "DO", "DONT"};
            tn_cmds.push_back(fmt("%s %d", nm[cmd - tWILL], c)); tn_conn.push_back(connno); tn_t.push_back(K->now); tn_state = 0;
            if (answers && neg) {               // a simple-minded server: acknowledges everything it is told
                size_t mine_n = 0; for (int k : tn_conn) mine_n += k == connno;
                if (mine_n < 200) { unsigned char r = cmd == tDO ? tWILL : cmd == tWILL ? tDO : cmd == tDONT ? tWONT : tDONT; std::string x = "\xff"; x += (char)r; x += (char)c; emit(x, true); tn_sent.push_back(fmt("%s %d", nm[r - tWILL], c)); }
            }
            break; }
        case 3: if (c == tIAC) tn_state = 1; break;
        }
    }
    mark(sm, sink.size());
}
void Dev::drop(const std::string &how, int err) {
    if (!up()) return;
    K->fault_hits["device " + how]++;
    if (sp.type == 'S') {
        if (how == "gone") { tty->gone = true; }
        tty_hangup(tty.get()); wire.clear(); kinds.clear(); return;   // lost() when the daemon closes it
    }
    if (sp.type == 'P') { if (proc && proc->alive) { Proc *p = proc; proc = nullptr; auto k = kinds; lost(); kinds = k; if (how == "rst") K->die(p, 9);
        else if (how == "half") { p->fds.clear(); K->fault_hits["program closed its standard streams but runs on"]++; }
        else proc_exit(p, 3); } return; }
    auto m = mine; mine.reset(); if (!m) return;
    if (sp.type == 'I') { auto c = ipmi; ipmi.reset(); auto k = kinds; lost(); kinds = k; m->actor = nullptr; if (c) ipmi_drop(c, 25); return; }
    m->actor = nullptr;
    auto s = sut.lock();
    // what is already on the wire may still be read by the daemon, so keep the mapping
    auto keep_kinds = kinds; 
    if (how == "rst") ext_reset(m.get());
    else if (how == "fail") { if (s) ext_fail(s.get(), err ? err : ETIMEDOUT); m->closed = true; }
    else if (how == "vanish") ext_vanish(m);
    else if (how == "half") { ext_shutdown_wr(m.get()); }
    else ext_close(m.get());
    std::weak_ptr<Sock> ws = s;
    ups.back().b = K->now; drops++; wire.clear();
    (void)keep_kinds;
}
static const char *B32 = "abcdefghijkmnpqrstuvwxyz23456789";
std::string Dev::gen(size_t n, int style) {
    std::string o; Rng r(w->plan.seed * 1000003 + idx * 7919 + 17 + gen_ctr * 31);
    if (style == 0) {
        while (o.size() < n) { uint64_t c = gen_ctr++; std::string l = fmt("%s:%06lu ", sp.name.c_str(), c); int k = r.range(0, 60); while (k--) l += B32[r.below(32)]; o += l + (r.pct(85) ? "\r\n" : r.pct(50) ? "\n" : "\r"); }
        o.resize(n);
    } else if (style == 1) { gen_ctr++; while (o.size() < n) { unsigned char c = r.below(256); if (c == '<') c = '='; if (r.pct(4)) c = 255; if (r.pct(3)) c = 0; o += (char)c; } }
    else if (style == 2) { gen_ctr++; static const char set[] = "\r\n\r\n\0\a\b\t\x1b\x7f\x80\xff\x01z y"; while (o.size() < n) { if (r.pct(20)) { o += fmt("%04u", r.below(10000)); continue; } o += set[r.below(sizeof set - 1)]; } o.resize(n); }
    else { gen_ctr++; while (o.size() < n) o += B32[r.below(32)]; }
    return o;
}

static bool killfault() { for (auto &h : K->fault_hits) if (h.first.compare(0, 4, "kill") == 0) return true; return false; }
// console process (exec'd by the daemon)
struct ConsProg : ActorProg {
    Dev *d = nullptr; int my = 0; std::shared_ptr<Sock> s; SockActor *hook = nullptr;
    struct A : SockActor { ConsProg *c; void on_data(Sock *) override { c->on_input(); } void on_writable(Sock *) override { if (c->d && c->d->proc == c->proc) c->d->pump(); } } a;
    ~ConsProg() override { if (s && s->actor == &a) s->actor = nullptr; }
    void start() override {
        if (!d) { proc_exit(proc, 1); return; }
        auto f = fd_get(proc); if (!f) { proc_exit(proc, 1); return; }
        s = f; a.c = this; s->actor = &a;
        for (auto &x : K->procs) if (x.second->alive && x.second != proc && x.second->actor) if (auto c = dynamic_cast<ConsProg *>(x.second->actor.get())) if (c->d == d && x.second->root == proc->root && !killfault()) W->viol("dup", "program", fmt("the program of console %s was started (process %d) while an earlier one (process %d) still runs", d->sp.name.c_str(), proc->pid, x.second->pid));
        d->lost(); d->connected(); d->proc = proc;
        if (d->mode != "accept") { proc_exit(proc, 2); return; }
        auto p = s->peer.lock(); if (p) { p->tag = "dev:" + d->sp.name; Dev *dd = d; p->on_consumed = [dd](size_t n) { dd->consume(n); }; d->sut = p; }
        on_input(); d->pump();
    }
    bool on_signal(int sg) override { return (sg == SIGTERM || sg == SIGHUP) && proc->fds.empty(); }
    std::shared_ptr<Sock> fd_get(Proc *p) { auto i = p->fds.find(0); return i == p->fds.end() ? nullptr : i->second->sock; }
    void on_input() override {
        if (!d || d->stalled || !s || proc->stopped) return;
        std::string x;
        for (;;) {
            ssize_t n = actor_read(proc, 0, &x, 65536);
            if (n > 0) { if (d->proc == proc) d->received(x); auto p = s->peer.lock(); if (p && p->actor) p->actor->on_writable(p.get()); continue; }
            if (n == 0) { Proc *pp = proc; K->after(10, [pp] { if (pp->alive) proc_exit(pp, 0); }); }
            break;
        }
    }
    void on_exit() override { if (d && d->proc == proc) { d->proc = nullptr; if (d->up()) { if (d->mode == "accept") d->cut.push_back(K->now); d->ups.back().b = K->now; d->drops++; d->wire.clear(); } } if (s && s->actor == &a) s->actor = nullptr; }
};
// the reset command: /bin/sh -c CMD
struct ShProg : ActorProg {
    ResetRun *r = nullptr; Time dur = 0; int code = 0; bool child = false;
    void start() override {
        Proc *p = proc; if (child) return;
        if (W->plan.num("resetkid", 0)) {       // a command that starts a child of its own
            Proc *q = new Proc; q->pid = K->next_pid++; q->ppid = p->pid; q->pgid = p->pgid; q->sid = p->sid; q->name = "resetkid"; q->t_start = K->now; q->fds = p->fds;
            q->nofile = p->nofile; q->core = p->core; auto a = std::make_shared<ShProg>(); a->proc = q; a->child = true; q->actor = a; K->procs[q->pid] = q; r->kid = q->pid;
        }
        if (dur >= 0) K->after(dur, [p, this] { if (p->alive) { if (r->kid) { Proc *k = K->proc(r->kid); if (k && k->alive) K->die(k, 0); } proc_exit(p, code); } });
    }
    bool on_signal(int s) override { return s == SIGTERM && W->plan.num("resetignterm", 0); }
    void on_exit() override { if (r) { r->t_end = K->now; r->status = proc->status; } }
};

// ------------------------------------------------------------- sessions
void Sess::put(const std::string &x) {
    if (!s || s->closed || s->wr_shut) return;
    out += x; flush();
}
void Sess::flush() {
    while (!out.empty() && s && s->st == Sock::CONN) {
        size_t n = ext_send(s.get(), out); if (!n) break; out.erase(0, n);
    }
}
void Sess::on_writable(Sock *) { flush(); }
void Sess::open() {
    if (t_open < 0) t_open = K->now;
    s = ext_connect_tcp(ip, port, (int)w->plan.num("port", 7890), this, lat, cap);
    if (s->st == Sock::NEW) { if (++retries > 10) { st = 5; how = "backlog"; return; } K->after((1 << std::min(retries, 6)) * SEC, [this] { if (st == -1) open(); }); return; }
    if (s->st == Sock::DEAD) { st = 5; how = "refused"; t_eof = K->now; return; }
    st = 0; s->tag = "sess-ext:" + id;
    { auto p = s->peer.lock(); far = p; p->cap = std::max<size_t>(cap, 65536); p->on_written = [this](const std::string &x) { wn += x.size(); mark(wm, wn); }; }
    K->note("session " + id + " connected");
    if (has('H')) return;                    // says nothing at all
    std::string g = "HELLO USER='" + user + "'" + (tty.empty() ? "" : " TTY='" + tty + "'") + "\n";
    if (!raw_req.empty() && has('G')) g = raw_req;
    K->after(lat, [this, g] { if (st == 0 && t_close < 0) { t_greet = K->now; if (has('h')) put(g.substr(0, g.size() / 2)); else put(g); } });
}
void Sess::finish(const std::string &h) {
    if (t_close >= 0) return;
    how = h; t_close = K->now;
    if (!s) { if (st == -1) st = 5; return; }
    if (h == "rst") ext_reset(s.get());
    else if (h == "vanish") { ext_vanish(s); }
    else if (h == "fail") { auto p = s->peer.lock(); if (p) ext_fail(p.get(), ETIMEDOUT); s->closed = true; s->actor = nullptr; }
    else { if (stalled) { } ext_close(s.get()); }
    K->note("session " + id + " closed by client: " + h);
}
void Sess::on_data(Sock *x) {
    if (stalled && x->st != Sock::DEAD) return;
    if (rate && st == 2) return;             // drained by the slow-reader tick
    take();
}
void Sess::take() {
    if (!s || s->closed) return;
    std::string d = ext_read(s.get(), rate && st == 2 ? rate : (size_t)-1);
    if (!d.empty()) { rx += d; mark(rm, rx.size()); auto p = s->peer.lock(); if (p && p->actor) p->actor->on_writable(p.get()); }
    if (!d.empty()) parse();
    if (s && !s->closed && (s->st == Sock::DEAD || (s->rx_fin && s->rx.empty()))) {
        if (t_eof < 0) { t_eof = K->now; eof_err = s->err; K->note("session " + id + " sees end of stream"); }
        if (st == 0 || st == 1) st = 5;
        if (t_close < 0) { t_close = K->now; how = "eof"; ext_close(s.get()); }
    }
}
std::string attr(const std::string &l, const std::string &key, size_t *pos) {
    size_t q = l.find(key + "=", *pos); if (q == std::string::npos) { *pos = q; return ""; }
    q += key.size() + 1; std::string v;
    if (l[q] == '\'') { size_t e = l.find('\'', q + 1); v = l.substr(q + 1, e - q - 1); q = e; }
    else { size_t e = l.find_first_of(" \n", q); v = l.substr(q, e - q); q = e; }
    *pos = q; return v;
}
void Sess::parse() {
    for (;;) {
        if (st == 0) {
            size_t e = rx.find('\n'); if (e == std::string::npos) return;
            std::string l = rx.substr(0, e + 1); body = e + 1;
            if (l.compare(0, 2, "OK") != 0) { st = 3; size_t p = 0; code = atoi(attr(l, "CODE", &p).c_str()); p = 0; errmsg = attr(l, "MESSAGE", &p); rsp = l; return; }
            st = 1; if (has('g')) return;    // greets, then says nothing
            std::string r = cmd; for (auto &n : names) r += " CONSOLE='" + n + "'";
            if (has('F')) r += " OPTION=FORCE"; if (has('J')) r += " OPTION=JOIN"; if (has('B')) r += " OPTION=BROADCAST"; if (has('Q')) r += " OPTION=QUIET"; if (has('R')) r += " OPTION=REGEX";
            r += "\n"; if (!raw_req.empty()) r = raw_req;
            Time d = has('s') ? 2 * SEC : 10;
            if (has('r')) r = r.substr(0, r.size() / 2);
            if (frag) { size_t h = r.size() / 3 + 1; std::string a = r.substr(0, h), b = r.substr(h); t_req = K->now; put(a); K->after(lat + 37 * MS, [this, b] { if (t_close < 0) { t_req = K->now; put(b); } }); }
            else K->after(d, [this, r] { if (st == 1 && t_close < 0) { t_req = K->now; put(r); } });
            return;
        }
        if (st == 1) {
            size_t e = rx.find('\n', body); if (e == std::string::npos) return;
            rsp = rx.substr(body, e + 1 - body); body = e + 1;
            if (rsp.compare(0, 2, "OK") == 0) {
                st = 2; t_ok = K->now; size_t p = 0; if (auto f = far.lock()) f->cap = cap;
                for (;;) { std::string n = attr(rsp, "CONSOLE", &p); if (p == std::string::npos) break; granted.push_back(n); }
                rsp_reset = rsp.find("OPTION=RESET") != std::string::npos;
                K->note("session " + id + " granted: " + rsp);
                order = (int)w->order.size(); w->order.push_back(this);
                if (rate) { std::function<void()> tick; auto self = this; struct T { static void go(Sess *s) { if (s->t_close >= 0 || !s->rate) { if (s->t_close < 0) s->take(); return; } if (!s->stalled) s->take(); K->after(10 * MS, [s] { go(s); }); } }; K->after(10 * MS, [self] { T::go(self); }); }
            } else { st = 3; size_t p = 0; code = atoi(attr(rsp, "CODE", &p).c_str()); p = 0; errmsg = attr(rsp, "MESSAGE", &p); K->note("session " + id + " refused: " + rsp); }
            return;
        }
        return;
    }
}
void Sess::send_data(size_t n) {
    if (!live() || t_half >= 0) return;
    std::string d, wire; Rng r(w->plan.seed * 7 + 1);
    for (size_t i = 0; i < n; i++) { uint64_t x = (ctr++ + 1) * 0x9E3779B97F4A7C15ULL + w->plan.seed * 1315423911ULL + (uint64_t)alpha[0] * 77; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32; char c = alpha[x % alpha.size()]; d += c; wire += c; if ((unsigned char)c == 255) wire += c; }
    txl.push_back({K->now, 'D', tx.size(), d.size(), ""}); tx += d; put(wire);
}
void Sess::send_esc(char c) {
    if (!live() || t_half >= 0) return;
    txl.push_back({K->now, 'E', tx.size(), 0, std::string(1, c)}); put(std::string("\xff") + c);
}

// ------------------------------------------------------------- world
World::World(const Plan &p) : plan(p) { W = this; int i = 0; for (auto &c : p.cons) devs.push_back(std::make_unique<Dev>(this, c, i++)); }
Dev *World::dev(const std::string &n) { for (auto &d : devs) if (d->sp.name == n) return d.get(); return nullptr; }
void World::viol(const std::string &prop, const std::string &sig, const std::string &msg) {
    for (auto &v : viols) if (v.prop == prop && v.sig == sig) return;
    viols.push_back({prop, sig, msg});
}
std::string World::logpath(const ConsoleSpec &c) const {
    std::string l = c.log; if (l.empty()) return "";
    size_t q; while ((q = l.find("%N")) != std::string::npos) l.replace(q, 2, c.name);
    if (l[0] != '/') l = "/var/log/consoles/" + l;
    return l;
}
std::string World::conf() const {
    std::string o; for (auto &l : plan.conf) o += l + "\n";
    for (auto &d : devs) {
        o += "console name=\"" + d->sp.name + "\" dev=\"" + d->confdev() + "\"";
        if (!d->sp.log.empty()) o += " log=\"" + d->sp.log + "\"";
        if (!d->sp.logopts.empty()) o += " logopts=\"" + d->sp.logopts + "\"";
        if (plan.has("ipmi:" + d->sp.name)) o += " ipmiopts=\"" + plan.opt.at("ipmi:" + d->sp.name) + "\"";
        if (plan.has("ser:" + d->sp.name)) o += " seropts=\"" + plan.opt.at("ser:" + d->sp.name) + "\"";
        o += "\n";
    }
    return o;
}
Proc *World::daemon() {
    if (daemons.empty()) return nullptr;
    for (size_t i = daemons.size(); i-- > 0;) if (daemons[i].t1 < 0) return K->proc(daemons[i].pid);
    return nullptr;
}
void World::setup() {
    fs_mkdirs("/tmp"); fs_mkdirs("/var/run"); fs_mkdirs("/var/log/consoles"); fs_mknode("/dev/null", Node::CHR_NULL, 0666);
    fs_put("/bin/sh", "", 0755)->prog = "sh"; fs_put("/bin/consprog", "", 0755)->prog = "cons"; fs_mkdirs("/usr/share/conman/exec");
    K->hosts["localhost"] = {0x7f000001}; K->hosts["server"] = {0x0a000001};
    K->kn = plan.kn; K->kn.syscost = 1; K->faults = plan.faults;
    for (auto &d : devs) d->setup();
    conf_text = plan.has("confstyle") ? styled(plan.num("confstyle", 1)) : conf(); fs_put(conf_path, conf_text, 0644);
    if (plan.has("stalepid")) fs_put(pidfile(), plan.opt["stalepid"] + "\n", 0644);
    if (plan.has("prelog")) {                 // logs left by an earlier daemon
        std::vector<std::string> ps = {"/var/log/conmand.log"}; for (auto &d : devs) if (!d->sp.log.empty() && logpath(d->sp).find('%') == std::string::npos) ps.push_back(logpath(d->sp));
        for (auto &p : ps) { std::string t; for (long i = 0; i < 5 + (long)(plan.seed % 300); i++) t += fmt("earlier line %ld of %s\r\n", i, p.c_str()); fs_mkdirs(p.substr(0, p.rfind('/'))); fs_put(p, t, 0600); }
    }
    if (plan.has("wall")) K->wall_base = plan.num("wall", 0) * SEC;
    K->on_ipmi_create = [this](const std::string &h, const void *c) { ipmi_used(h, c); };
    K->on_tcp_connect = [this](std::shared_ptr<Sock> s, uint32_t ip, int) {
        for (auto &d : devs) if (d->sp.type == 'T' && d->ip() == ip) { d->tcp_attempt(s); return; }
        std::weak_ptr<Sock> me = s; K->after(10 * MS, [me] { auto s = me.lock(); if (s) sock_connect_result(s, EHOSTUNREACH); });
    };
    K->on_block = [this](int pid, Time a, Time b) { Proc *p = daemon(); if (p && p->pid == pid && b - a > 100 * MS) daemon_stopped.push_back({a, b}); };
    K->on_dial = [this](Proc *p, uint32_t ip, int port) { for (auto &x : clients) if (x.second->p == p) x.second->dialed.push_back({ip, port}); };
    K->on_touch = [this](const std::string &p) { for (auto &d : devs) if (d->sp.type == 'U' && d->devpath() == p && !d->up()) { d->touched(); return; } };
    on_ipmi_submit = [this](std::shared_ptr<IpmiCtx> c) { for (auto &d : devs) if (d->sp.type == 'I' && c->host == fmt("bmc%d", d->idx)) { d->ipmi_attempt(c); return; } };
    on_ipmi_destroy = [this](IpmiCtx *c) { for (auto &d : devs) if (d->ipmi.get() == c) { if (d->mine) d->mine->actor = nullptr; d->mine.reset(); if (d->up()) d->cut.push_back(K->now); d->lost(); d->ipmi.reset(); } };
    K->make_prog = [this](Proc *p, const std::string &prog) -> std::shared_ptr<ActorProg> {
        execs++; if (p->mod == &MOD_CONMAND) for (auto &f : p->fds) if (f.second->tag != "inherited" && (f.first > 2 || f.second->tag == "sess" || f.second->tag == "listen" || !f.second->tag.compare(0, 10, "file:/var/"))) lent.push_back({K->now, p->pid, f.first, f.second->tag, prog});
        if (prog == "cons") { auto c = std::make_shared<ConsProg>(); c->d = p->argv.size() > 1 ? dev(p->argv[1]) : nullptr; if (c->d) { Proc *o = c->d->proc; c->d->attempt(-1, o && o->alive); c->d->pids.push_back(p->pid); } if (plan.has("confstyle")) { Dev *q = c->d; stat["program arguments checked"]++; std::string a; for (auto &x : p->argv) a += " [" + x + "]"; if (!q || (!q->want_argv.empty() && q->want_argv != p->argv)) viol("conf", "argv", fmt("the program of console %s was started as%s", q ? q->sp.name.c_str() : "?", a.c_str())); } return c; }
        if (prog == "sh") { auto c = std::make_shared<ShProg>(); resets.push_back(std::make_unique<ResetRun>()); auto r = resets.back().get(); r->t = K->now; r->tf = p->t_start; r->pid = p->pid; r->cmd = p->argv.size() > 2 ? p->argv[2] : ""; c->r = r; c->dur = plan.num("resetdur", 100) * MS; c->code = plan.num("resetcode", 0); return c; }
        return nullptr;
    };
    K->on_create = [this](const std::string &path, Proc *p, std::shared_ptr<Node> n) { made.push_back({K->now, path, p->pid, p->mod == &MOD_CONMAN, n}); };
    K->on_sigat = [this](int s) { exec(Op{K->now, "sig", {fmt("%d", s)}}); };
    K->on_file_open = [this](const std::string &path, Proc *p, std::shared_ptr<Node> n, int flags, size_t old, int err) {
        fev.push_back({K->now, n ? 'O' : 'F', path, n, p->pid, flags, old, err});
        if (n) { auto i = fexp.find(n.get()); if (i == fexp.end()) i = fexp.emplace(n.get(), std::make_pair(n, n->data)).first; if (flags & O_TRUNC) i->second.second.clear(); }
    };
    K->on_file_fail = [this](const std::string &path, Proc *p, std::shared_ptr<Node> n, char k, int err) { if (k == 'P') { log_excuse.push_back({K->now - 300 * MS, K->now + 500 * MS}); return; } fev.push_back({K->now, k, path, n, p->pid, 0, 0, err}); };
    K->on_file_write = [this](const std::string &path, Proc *wp, const std::string &data, std::shared_ptr<Node> node) {
        if (!data.empty()) { fev.push_back({K->now, 'W', path, node, wp->pid, 0, data.size(), 0}); fexp.emplace(node.get(), std::make_pair(node, "")).first->second.second += data; }
        std::string &l = logs[path]; l += data; mark(logm[path], l.size()); if (!data.empty()) logw[path].push_back({K->now, data}); };
    K->on_fd = [this](const char *ev, Proc *p, int, File *f) {
        if (p->mod == &MOD_CONMAND && f->tag == "sess" && f->sock) watch_conn(ev, p, f->sock.get());
        if (p->mod == &MOD_CONMAN && f->sock && !strcmp(ev, "open")) watch_client(p, f->sock.get());
        if (!strcmp(ev, "listen") && p->mod == &MOD_CONMAND) { Daemon d; d.pid = p->pid; d.launcher = p->root; d.expected = starting; d.t0 = K->now;
            for (auto &k : kills) if (k.to == p->pid && k.sig == SIGTERM) { d.expected = true; if (d.t_term < 0) d.t_term = k.t; d.why = "term"; }   // told to end before it was ready
            daemons.push_back(d); K->note("daemon listening"); }
    };
    K->on_enter = [this](Proc *p, const char *name) {
        if (p->mod != &MOD_CONMAN) return;
        for (auto &x : clients) if (x.second->p == p) { auto &v = x.second->sigat; for (size_t i = 0; i < v.size(); i++) if (v[i].sys == name && v[i].skip-- <= 0) { int s = v[i].sig; v.erase(v.begin() + i); client_signal(*x.second, s); break; } }
    };
    K->on_kill = [this](Proc *from, Proc *to, int sig) {
        Daemon *d = nullptr; for (auto &x : daemons) if (x.pid == to->pid && x.t1 < 0) d = &x;
        bool lk = false; if (auto n = fs_lookup(conf_path)) for (auto &l : n->locks) if (l.pid == to->pid) lk = true;
        kills.push_back({K->now, from->pid, to->pid, sig, lk || d});
        if (d && from->root != d->launcher) {
            if (sig == SIGTERM) { d->expected = true; if (d->t_term < 0) d->t_term = K->now; d->why = "term"; }
            if (sig == SIGHUP) { hups.push_back(K->now); huprec.push_back({K->now, fev.size(), to->pid}); }
        }
    };
    K->on_proc_exit = [this](Proc *p) {
        for (auto &c : cmds) if (c.pid == p->pid) { std::string pf = pidfile(); auto n = pf.empty() ? nullptr : fs_lookup(pf); c.pidtxt = n ? n->data : "(none)"; }
        for (auto &d : daemons) if (d.pid == p->pid && d.t1 < 0) { sev.push_back({K->now, 'X', p->pid, 0}); for (auto &c : conns) if (c.pid == p->pid) c.sock = nullptr; }
        for (auto &d : daemons) if (d.pid == p->pid && d.t1 < 0) {
            d.t1 = K->now; d.status = p->status;
            if (!d.expected) viol("DEATH", fmt("exit-%x", p->status), fmt("the daemon ended unexpectedly at t=%.6fs with status 0x%x: %s", K->now / 1e6, p->status, p->err.c_str()) + (logs.count("/var/log/conmand.log") ? " log tail: " + logs["/var/log/conmand.log"].substr(logs["/var/log/conmand.log"].size() > 300 ? logs["/var/log/conmand.log"].size() - 300 : 0) : ""));
        }
        for (auto &c : clients) if (c.second->p == p) {
            Client *cl = c.second.get(); cl->alive = false; cl->t_exit = K->now; cl->status = p->status;
            if (cl->tty) { if (!cl->tty->tx.empty() && cl->tty->on_tx) { std::string d; d.swap(cl->tty->tx); cl->tty->on_tx(d); } auto a = cl->tty->tio, b = cl->tio0; cl->tty_ok = a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_lflag == b.c_lflag && a.c_cflag == b.c_cflag && !memcmp(a.c_cc, b.c_cc, sizeof a.c_cc); }
        }
    };
}
static uint32_t seed_bits(const std::string &s) { uint32_t h = 7; for (unsigned char c : s) h = h * 131 + c; return h ^ (uint32_t)W->plan.seed; }
void World::watch_client(Proc *p, Sock *k) {
    for (auto &x : clients) if (x.second->p == p || (!x.second->p && x.second->alive == false && x.second->t_start < 0)) {
        Client *c = x.second.get(); for (auto &f : p->fds) if (f.second->sock.get() == k) c->cs = f.second->sock;
        k->tag = "csess:" + c->id;
        k->on_written = [c](const std::string &x) { c->sent += x; };
        k->on_read = [c](const char *b, size_t n) { if (n) c->recv.append(b, n); else if (!c->eof) { c->eof = true; c->t_eof = K->now; } };
    }
}
void World::client_signal(Client &c, int n) {
    auto i = c.p->sig.find(n); bool h = i != c.p->sig.end() && i->second.handler != SIG_DFL && i->second.handler != SIG_IGN;
    c.sigs.push_back(n); if (h) c.handled.push_back({n, K->now}); K->fault_hits[fmt("client signal %d", n)]++; K->signal(c.p, n);
}
void World::client_stopped(Client &c) {
    c.stop_seen = true;
    auto a = c.tty->tio, b = c.tio0; bool ok = a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_lflag == b.c_lflag && a.c_cflag == b.c_cflag && !memcmp(a.c_cc, b.c_cc, sizeof a.c_cc);
    if (!ok && !c.tty->hup) viol("tty", "suspended", fmt("client %s is suspended and its terminal is not as it was before the session (lflag %x, was %x)", c.id.c_str(), a.c_lflag, b.c_lflag));
}
void World::watch_conn(const char *ev, Proc *p, Sock *k) {
    if (!strcmp(ev, "open")) {
        for (auto &c : conns) if (c.sock == k) return;
        conns.emplace_back(); Conn &c = conns.back(); c.id = (int)conns.size() - 1; c.pid = p->pid; c.sock = k; c.t_acc = K->now; c.ip = k->rip;
        auto peer = k->peer.lock(); for (auto &s : sess) if (s.second->s && s.second->s == peer) c.s = s.second.get();
        if (!c.s && peer) for (auto &x : clients) if (x.second->cs.lock() == peer) { c.c = x.second.get(); c.c->conn = &c; }
        int id = c.id; auto old = k->on_written;
        k->on_written = [this, id, old](const std::string &x) { if (old) old(x); Conn &c = conns[id]; c.wr += x; sev.push_back({K->now, 'W', id, x.size()}); };
        k->on_read = [this, id](const char *b, size_t n) { Conn &c = conns[id]; if (n) c.rd.append(b, n); sev.push_back({K->now, n ? 'R' : 'E', id, n}); };
    } else if (!strcmp(ev, "close")) {
        for (auto &c : conns) if (c.sock == k && c.pid == p->pid && c.t_close < 0) { c.t_close = K->now; sev.push_back({K->now, 'C', c.id, 0}); c.sock = nullptr; return; }
    }
}
void World::start_daemon(std::vector<std::string> extra, bool) {
    std::vector<std::string> av = {"conmand", "-c", conf_path};
    std::istringstream in(plan.has("args") ? plan.opt["args"] : ""); std::string x; while (in >> x) av.push_back(x);
    for (auto &e : extra) av.push_back(e);
    std::vector<std::string> env = {"PATH=/bin:/usr/bin"}; if (plan.has("tz")) env.push_back("TZ=" + plan.opt["tz"]);
    Proc *p = K->spawn(&MOD_CONMAND, av, env, 1, "/tmp", [&](Proc *p) { if (plan.has("umask")) p->umask = plan.num("umask", 18);     // descriptors inherited from a careless parent
        for (long i = 3; i < 3 + plan.num("inherit", 0); i++) { auto f = std::make_shared<File>(); f->id = K->next_file++; f->type = F_NULL; f->flags = O_RDWR; f->tag = "inherited"; p->fds[i] = f; } });
    launches.push_back(p->pid);
}
static std::string arg(const Op &o, size_t i, const std::string &d = "") { return i < o.a.size() ? o.a[i] : d; }
static long argn(const Op &o, size_t i, long d = 0) { return i < o.a.size() ? atol(o.a[i].c_str()) : d; }
extern void tty_resume(std::shared_ptr<Tty> t);

static std::string alpha_of(int k) {
    // disjoint sets of byte values; '&', 'B', DEL and the telnet and escape byte are special
    static std::vector<unsigned char> all;
    if (all.empty()) for (int c = 0; c < 256; c++) if (c != '&' && c != 'B' && c != 127 && c != 255) all.push_back(c);
    std::string a; int N = 10; k %= N;
    for (size_t i = k; i < all.size(); i += N) a += (char)all[i];
    if (k == 0) a += "\xff\xff";
    // not the first character twice, so that position keys differ
    return a;
}
void World::exec(const Op &o) {
    K->note("op " + o.k + " " + (o.a.empty() ? "" : o.a[0]) + " " + arg(o, 1));
    const std::string &k = o.k;
    auto sit = sess.find(arg(o, 0)); Sess *s = sit == sess.end() ? nullptr : sit->second.get();
    if (k == "open") {        // id cmd names(comma) opts lat cap rate frag user
        auto n = std::make_unique<Sess>(); n->w = this; n->id = arg(o, 0); n->cmd = arg(o, 1); n->opts = arg(o, 3);
        std::string names = arg(o, 2); std::stringstream ss(names); std::string x; while (std::getline(ss, x, ',')) if (!x.empty()) n->names.push_back(x);
        n->lat = argn(o, 4, 200); n->cap = argn(o, 5, 65536); n->rate = n->rate0 = argn(o, 6, 0); n->frag = argn(o, 7, 0); n->user = arg(o, 8, "user" + n->id); n->tty = n->has('T') ? "pts/" + n->id : "";
        n->raw_req = unhex(arg(o, 9)); n->ip = (uint32_t)strtoul(arg(o, 10, fmt("%u", plan.num("net", 0) ? 0x0a020000 + nsess + 1 : 0x7f000001)).c_str(), nullptr, 10); n->port = next_port++; n->alpha = alpha_of(nsess++);
        Sess *q = n.get(); sess[n->id] = std::move(n); q->open(); return;
    }
    if (k == "send") { if (s) s->send_data(argn(o, 1)); return; }
    if (k == "esc") { if (s && !arg(o, 1).empty()) s->send_esc(arg(o, 1)[0]); return; }
    if (k == "raw") { if (s && s->s) s->put(unhex(arg(o, 1))); return; }
    if (k == "stall") { if (s && s->live() && !s->stalled) { s->stalled = true; s->stalls.push_back({K->now, FOREVER}); K->fault_hits["session stalled"]++; } return; }
    if (k == "resume") { if (s && s->stalled) { s->stalled = false; s->stalls.back().b = K->now; if (s->t_close < 0) s->take(); } return; }
    if (k == "close" || k == "rst" || k == "fail") { if (s && s->t_close < 0) { s->finish(k); K->fault_hits["session " + k]++; } return; }
    if (k == "half") { if (s && s->s && s->t_close < 0 && s->t_half < 0) { s->t_half = K->now; ext_shutdown_wr(s->s.get()); } return; }
    if (k == "hold") { if (s && s->s) { Time t = K->now + argn(o, 1) * MS; s->holds.push_back({K->now, t}); s->s->hold_until = t; auto p = s->s->peer.lock(); if (p) p->hold_until = t; K->fault_hits["session partition"]++; } return; }
    Dev *d = dev(arg(o, 0));
    if (k == "align") {      // C sess|log|in ID delta: bring a circular buffer of the daemon (16 KB) to the end of its storage
        if (!d) return; long R = 16384, pos = -1;
        if (o.a[1] == "sess" || o.a[1] == "in") { auto x = sess.find(o.a[2]); if (x == sess.end() || !x->second->live()) return; Sess *q = x->second.get();
            if (o.a[1] == "in") { if (d->connno <= 1 && !d->stalled) q->send_data((int)std::max<long>(1, R - (long)(d->sink.size() % R) + argn(o, 3))); return; }
            for (auto &c : conns) if (c.s == q) { size_t a = c.wr.find('\n'), b = a == std::string::npos ? a : c.wr.find('\n', a + 1); if (b != std::string::npos) pos = (long)(c.wr.size() - b - 1); } }
        else { auto n = fs_lookup(o.a[2]); if (n) pos = (long)n->data.size(); }
        if (pos >= 0) { d->emit(d->gen((int)std::max<long>(1, R - pos % R + argn(o, 3)), 0)); stat["aligned buffers"]++; }
        return;
    }
    if (k == "emit") { if (d) d->emit(d->gen(argn(o, 1, 100), argn(o, 2, 0))); return; }
    if (k == "emitraw") { if (d) d->emit(unhex(arg(o, 1)), argn(o, 2, 0)); return; }
    if (k == "burst") {      // C n count interval_ms style
        if (d) { long n = argn(o, 1), c = argn(o, 2), st = argn(o, 4); Time iv = argn(o, 3) * MS; for (long i = 0; i < c; i++) K->after(i * iv, [d, n, st] { d->emit(d->gen(n, st)); }); } return; }
    if (k == "drop") { if (d) d->drop(arg(o, 1, "fin"), argn(o, 2)); return; }
    if (k == "mode") {
        if (d) { d->mode = arg(o, 1); K->fault_hits["device mode " + d->mode]++; d->slow_delay = argn(o, 2) * MS; 
            if (d->node && d->sp.type == 'U') d->node->listening = d->mode == "accept"; if (d->tty) d->tty->gone = d->mode != "accept"; } return; }
    if (k == "devstall") { if (d && !d->stalled) { d->stalled = true; d->stalls.push_back({K->now, FOREVER}); if (d->tty) d->tty->stalled = true; auto x = d->sut.lock(); if (x) x->cap = std::max<size_t>(1, x->pend + (d->mine ? d->mine->rx.size() : 0)) + 1000; K->fault_hits["device stalled"]++; } return; }
    if (k == "devresume") { if (d && d->stalled) { d->stalled = false; d->stalls.back().b = K->now; auto x = d->sut.lock(); if (x) x->cap = 65536; if (d->tty) tty_resume(d->tty); if (d->mine) d->on_data(d->mine.get()); if (d->proc && d->proc->actor) d->proc->actor->on_input(); } return; }
    if (k == "unlink") { if (d && d->sp.type == 'U') { d->fsev.push_back(K->now); d->mode = "gone"; fs_unlink(d->devpath()); } return; }
    if (k == "create") { if (d && d->sp.type == 'U') { d->fsev.push_back(K->now); d->mode = "accept"; d->node = fs_mknode(d->devpath(), Node::SOCK, 0777); d->node->listening = true; d->created.push_back(K->now); d->node->on_connect = [d](std::shared_ptr<Sock> s) { d->tcp_attempt(s); }; } return; }
    if (k == "touchdir") { if (d && d->sp.type == 'U') { d->fsev.push_back(K->now); fs_mknode(fmt("/dev/sock%d/other", d->idx), Node::REG, 0644); } return; }
    if (k == "sig") {
        Proc *p = daemon(); int n = atoi(arg(o, 0).c_str()); if (!p) return;
        for (auto &x : daemons) if (x.pid == p->pid) { if (n == SIGTERM || n == SIGINT || n == SIGKILL) { x.expected = true; if (x.t_term < 0) x.t_term = K->now; x.why = n == SIGKILL ? "kill" : "term"; } }
        if (n == SIGHUP) { hups.push_back(K->now); huprec.push_back({K->now, fev.size(), p->pid}); }
        K->fault_hits[fmt("signal %d", n)]++; sent_sigs.push_back(fmt("%d@%ld", n, K->now)); K->signal(p, n); return;
    }
    if (k == "sigat") { K->sigat.push_back({(int)argn(o, 0), arg(o, 1), (int)argn(o, 2)}); return; }
    if (k == "stop") { Proc *p = daemon(); if (p) { K->signal(p, SIGSTOP); daemon_stopped.push_back({K->now, K->now + argn(o, 0) * MS}); K->fault_hits["daemon paused"]++; int pid = p->pid; K->after(argn(o, 0) * MS, [pid] { Proc *p = K->proc(pid); if (p) K->signal(p, SIGCONT); }); } return; }
    if (k == "start") { if (!daemon()) { for (auto &x : K->procs) if (x.second->alive && x.second->mod == &MOD_CONMAND) { bool ctl = false; for (auto &c : cmds) if (c.pid == x.second->root && c.kind != 's') ctl = true; if (!ctl) return; } start_daemon(); restarts.push_back({K->now, launches.back()}); } return; }
    if (k == "cmd") {         // kind opts...
        char kd = arg(o, 0)[0]; std::vector<std::string> av = {"conmand", "-c", conf_path}; std::vector<std::string> env = {"PATH=/bin"}; if (plan.has("tz")) env.push_back("TZ=" + plan.opt["tz"]);
        if (kd == 's') { start_daemon(); cmds.push_back({K->now, launches.back(), 's', "", false}); K->fault_hits["second start"]++; return; }
        bool P = false; for (size_t i = 1; i < o.a.size(); i++) { if (o.a[i] == "-P") P = true; av.push_back(o.a[i]); } av.push_back(std::string("-") + kd);
        Proc *p = K->spawn(&MOD_CONMAND, av, env, 1, "/tmp"); cmds.push_back({K->now, p->pid, kd, "", P}); K->fault_hits[std::string("control command -") + kd]++; return;
    }
    if (k == "bystander") {   // an unrelated process now has the pid a stale PID file names
        auto n = fs_lookup(pidfile()); int pid = n ? atoi(n->data.c_str()) : 0; Proc *q = pid > 1 ? K->proc(pid) : nullptr; if (!n || (q && q->alive)) return;
        Proc *b = new Proc; b->pid = pid; b->ppid = 1; b->pgid = b->sid = pid; b->name = "bystander"; b->t_start = K->now; b->nofile = {1024, 4096}; if (q) q->pid = -pid; K->procs[pid] = b; bystanders.emplace(pid, K->now); K->fault_hits["pid of a dead daemon reused"]++; return;
    }
    if (k == "killall") { killalls.push_back(K->now); for (auto &x : daemons) if (x.t1 < 0) { x.expected = true; x.why = "kill"; if (x.t_term < 0) x.t_term = K->now; } std::vector<Proc *> v; for (auto &x : K->procs) if (x.second->alive && x.second->mod == &MOD_CONMAND) v.push_back(x.second); for (auto x : v) K->signal(x, SIGKILL); K->fault_hits["killed while starting"]++; return; }
    if (k == "run") { std::vector<std::string> e(o.a.begin(), o.a.end()); Proc *p = K->spawn(&MOD_CONMAND, [&] { std::vector<std::string> v = {"conmand"}; v.insert(v.end(), e.begin(), e.end()); return v; }(), {"PATH=/bin"}, 1, "/tmp"); launches.push_back(p->pid); return; }
    if (k == "rotate") { std::string p = arg(o, 0); fs_rename(p, p + fmt(".%ld", K->now)); return; }
    if (k == "rmlog") { fs_unlink(arg(o, 0)); return; }
    if (k == "disk") { auto n = fs_lookup(arg(o, 0)); if (n) { tainted.insert(arg(o, 0)); if (arg(o, 1) == "full") n->size_limit = n->data.size() + argn(o, 2); else n->fail_write = argn(o, 2, EIO); K->fault_hits["disk " + arg(o, 1)]++; } return; }
    if (k == "undisk") { auto n = fs_lookup(arg(o, 0)); if (n) { n->size_limit = (size_t)-1; n->fail_write = 0; } return; }
    if (k == "lockfile") { auto n = fs_lookup(arg(o, 0)); if (n) { n->write_lock_foreign = 1; K->fault_hits["log locked by another process"]++; } return; }
    if (k == "unlockfile") { auto n = fs_lookup(arg(o, 0)); if (n) n->write_lock_foreign = 0; return; }
    if (k == "blockdir") { std::string p = arg(o, 0); auto n = fs_lookup(p); if (n && n->type == Node::DIR) fs_rename(p, p + fmt(".%ld", K->now)); if (!fs_lookup(p)) { fs_put(p, "in the way", 0644); K->fault_hits["log directory missing"]++; } return; }
    if (k == "unblockdir") { auto n = fs_lookup(arg(o, 0)); if (n && n->type == Node::REG) fs_unlink(arg(o, 0)); return; }
    if (k == "jump") { K->wall_off += argn(o, 0) * SEC; jumps.push_back({K->now, K->wall_off}); K->fault_hits["clock jump"]++; return; }
    if (k == "dns") { auto &h = K->hosts[arg(o, 0)]; h.ok = arg(o, 1) != "fail"; h.delay = argn(o, 2) * MS; K->fault_hits["dns " + arg(o, 1)]++; return; }
    if (k == "rdns") { K->rdns_ok = arg(o, 0) == "ok"; K->rdns_delay = argn(o, 1) * MS; acl_changed(); K->fault_hits["reverse dns " + arg(o, 0)]++; return; }
    if (k == "deny") { K->deny[(uint32_t)strtoul(arg(o, 0).c_str(), nullptr, 10)] = argn(o, 1, 1); acl_changed(); K->fault_hits["access rules changed"]++; return; }
    if (k == "denyname") { if (argn(o, 1, 1)) K->deny_names.insert(arg(o, 0)); else K->deny_names.erase(arg(o, 0)); acl_changed(); K->fault_hits["access rules changed"]++; return; }
    if (k == "rname") { K->rdns[(uint32_t)strtoul(arg(o, 0).c_str(), nullptr, 10)] = arg(o, 1); acl_changed(); return; }
    if (k == "conf") { auto n = fs_lookup(conf_path); if (n) n->data = unhex(arg(o, 0)); return; }
    if (k == "fault") { FaultRule f; f.sys = arg(o, 0); f.tag = arg(o, 1); f.skip = argn(o, 2); f.count = argn(o, 3, 1); f.err = argn(o, 4); f.arg = argn(o, 5); f.t0 = K->now; K->faults.push_back(f); return; }
    if (k == "put") { fs_mkdirs(arg(o, 0).substr(0, arg(o, 0).rfind('/'))); fs_put(arg(o, 0), unhex(arg(o, 1)), 0644); return; }
    if (k == "putconf") { fs_put(conf_path, conf_text, 0644); return; }
    if (k == "rm") { fs_unlink(arg(o, 0)); return; }
    if (k == "busyport") { static std::shared_ptr<Sock> hog; hog = std::make_shared<Sock>(); hog->domain = AF_INET; hog->st = Sock::LISTEN; hog->lip = 0x7f000002; hog->lport = argn(o, 0); K->listeners[(int)argn(o, 0)] = hog; K->fault_hits["port in use"]++; return; }
    if (k == "freeport") { K->listeners.erase((int)argn(o, 0)); return; }
    if (k == "nofault") { K->faults.clear(); return; }
    if (k == "client") {     // id env args...; env: H=host E=hex(escape) notty net
        auto c = std::make_unique<Client>(); Client *q = c.get(); c->w = this; c->id = arg(o, 0); c->argv = {"conman"}; for (size_t i = 2; i < o.a.size(); i++) c->argv.push_back(o.a[i]);
        for (size_t i = 1; i < c->argv.size(); i++) if (!c->argv[i].compare(0, 4, "-e0x")) c->argv[i] = "-e" + std::string(1, (char)strtol(c->argv[i].c_str() + 2, nullptr, 16));
        c->env = {"PATH=/bin"}; if (plan.has("tz")) c->env.push_back("TZ=" + plan.opt["tz"]); std::istringstream in(arg(o, 1)); std::string eo;
        while (in >> eo) { if (eo.find("H=") == 0) c->env.push_back("CONMAN_HOST=" + eo.substr(2)); else if (eo.find("P=") == 0) c->env.push_back("CONMAN_PORT=" + eo.substr(2)); else if (eo.find("E=") == 0) c->env.push_back("CONMAN_ESCAPE=" + unhex(eo.substr(2))); else if (eo == "notty") c->notty = true; }
        c->alpha = alpha_of(nsess++); for (size_t i = 1; i + 1 < c->argv.size(); i++) if (c->argv[i] == "-l") if (auto n = fs_lookup(c->argv[i + 1])) c->logpre = n->data;
        c->tty = std::make_shared<Tty>(); auto t = c->tty; t->path = "/dev/pts/" + c->id; memset(&t->tio, 0, sizeof t->tio); t->term = true;
        t->tio.c_iflag = ICRNL | IXON | BRKINT; t->tio.c_oflag = OPOST | ONLCR; t->tio.c_lflag = ISIG | ICANON | ECHO | ECHOE | IEXTEN; t->tio.c_cflag = CS8 | CREAD; t->tio.c_cc[VMIN] = 1; t->tio.c_cc[VINTR] = 3; t->tio.c_cc[VEOF] = 4; t->tio.c_cc[VSUSP] = 26;
        if (seed_bits(c->id) & 1) { t->tio.c_iflag = IGNBRK | IXOFF | ISTRIP | INLCR | IGNCR | PARMRK; t->tio.c_oflag = OPOST; t->tio.c_lflag = ICANON | ECHOK | TOSTOP; t->tio.c_cflag = CS7 | PARENB | CREAD; t->tio.c_cc[VMIN] = 5; t->tio.c_cc[VTIME] = 3; t->tio.c_cc[VKILL] = 21; }
        c->tio0 = t->tio; t->on_tx = [q](const std::string &x) { q->screen += x; mark(q->sm, q->screen.size()); };
        t->on_consumed = [q](size_t n) { q->keys += q->kq.substr(0, n); q->kq.erase(0, n); };
        t->on_flushed = [q](size_t n) { q->kq.erase(0, n); };
        clients[c->id] = std::move(c);
        Proc *p = K->spawn(&MOD_CONMAN, q->argv, q->env, 1, "/tmp", [&](Proc *p) {
            p->login = "alice" + q->id; if (!q->notty) { p->fds.clear(); for (int i = 0; i < 3; i++) { auto f = std::make_shared<File>(); f->id = K->next_file++; f->type = F_TTY; f->tty = t; f->flags = O_RDWR; f->tag = "term:" + q->id; t->opens++; p->fds[i] = f; } } });
        q->p = p; q->alive = true; q->t_start = K->now; return;
    }
    auto cit = clients.find(arg(o, 0)); Client *c = cit == clients.end() ? nullptr : cit->second.get();
    // the user types when the session has been opened and the client is in the foreground
    bool fg = c && c->alive && !c->p->stopped && c->raw();
    if (c && c->p && (k == "ctype" || k == "ckeys")) client_waiting(*c);
    if (k == "ctype") {      // plain data from the client's own alphabet
        if (fg) { std::string d; long n = argn(o, 1); for (long i = 0; i < n; i++) { uint64_t x = (c->ctr++ + 1) * 0x9E3779B97F4A7C15ULL + (unsigned char)c->alpha[0] * 77; x ^= x >> 31; char ch = c->alpha[x % c->alpha.size()]; d += ch; } c->tl.push_back({K->now, 'D', c->typed.size(), d.size(), ""}); c->typed += d; c->key(d); } return; }
    if (k == "ckeys") { if (fg) { std::string d = unhex(arg(o, 1)); c->tl.push_back({K->now, 'K', c->typed.size(), 0, d}); c->key(d); } return; }
    if (k == "csig") { if (c && c->alive) client_signal(*c, argn(o, 1)); return; }
    if (k == "csigat") { if (c && c->alive) c->sigat.push_back({arg(o, 1), (int)argn(o, 2), (int)argn(o, 3)}); return; }
    if (k == "ccont") { if (c && c->alive && c->p->stopped) { client_stopped(*c); K->signal(c->p, SIGCONT); K->fault_hits["client resumed"]++; } return; }
    if (k == "cstall") { if (c && c->alive) { c->tty->stalled = true; K->fault_hits["terminal stalled"]++; } return; }
    if (k == "cresume") { if (c) tty_resume(c->tty); return; }
    if (k == "chup") { if (c && c->alive) { c->hup = true; tty_hangup(c->tty.get()); K->signal(c->p, SIGHUP); if (c->p->stopped) K->signal(c->p, SIGCONT); K->fault_hits["terminal hangup"]++; } return; }
    if (k == "chold") { auto s = c ? c->cs.lock() : nullptr; if (s) { Time t = K->now + argn(o, 1) * MS; s->hold_until = t; auto p = s->peer.lock(); if (p) p->hold_until = t; K->fault_hits["session partition"]++; } return; }
    if (k == "cnet") {       // the connection breaks: rst (both ends), fail errno (client's end only)
        auto s = c ? c->cs.lock() : nullptr; if (!s || s->closed || s->st != Sock::CONN) return; c->net = true; auto p = s->peer.lock(); K->fault_hits["client connection " + arg(o, 1)]++;
        ext_fail(s.get(), argn(o, 2, ECONNRESET)); if (p && !p->closed) ext_fail(p.get(), ETIMEDOUT);
        return; }
    if (k == "nop") return;
    fprintf(stderr, "unknown op %s\n", k.c_str()); _exit(3);
}
void World::heal() {
    t_heal = K->now; K->note("heal: faults stop");
    if (plan.has("logfaults")) {             // the causes are gone, and the administrator re-opens the logs
        for (auto &o : plan.ops) { if (o.k == "disk") exec(Op{K->now, "undisk", {o.a[0]}}); if (o.k == "lockfile") exec(Op{K->now, "unlockfile", {o.a[0]}}); if (o.k == "blockdir") exec(Op{K->now, "unblockdir", {o.a[0]}}); }
        K->faults.clear(); exec(Op{K->now, "sig", {"1"}});
    }
    K->sigat.clear(); K->faults.clear(); K->kn.p_eintr = K->kn.p_eagain = 0;
    for (auto &h : K->hosts) { h.second.ok = true; h.second.delay = 0; } K->rdns_ok = true; K->rdns_delay = 0;
    if (!K->deny.empty() || !K->deny_names.empty()) { K->deny.clear(); K->deny_names.clear(); } acl_changed();
    for (auto &d : devs) {
        if (d->sp.type == 'U' && !fs_lookup(d->devpath())) exec(Op{K->now, "create", {d->sp.name}});
        if (d->mode != "accept") { d->mode = "accept"; d->slow_delay = 0; if (d->node && d->sp.type == 'U') d->node->listening = true; }
        if (d->tty) d->tty->gone = false;
        exec(Op{K->now, "devresume", {d->sp.name}});
    }
    for (auto &s : sess) { if (s.second->stalled) exec(Op{K->now, "resume", {s.first}}); s.second->rate = 0; if (s.second->s && s.second->t_close < 0) { auto p = s.second->s->peer.lock(); s.second->s->hold_until = std::min(s.second->s->hold_until, K->now); if (p) p->hold_until = std::min(p->hold_until, K->now); s.second->take(); s.second->flush(); } }
    for (auto &c : clients) {
        c.second->sigat.clear(); if (c.second->tty->stalled) tty_resume(c.second->tty);
        auto s = c.second->cs.lock(); if (s) { auto p = s->peer.lock(); s->hold_until = std::min(s->hold_until, K->now); if (p) p->hold_until = std::min(p->hold_until, K->now); }
        exec(Op{K->now, "ccont", {c.first}});
    }
}
