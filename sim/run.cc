// One simulated run: drive the operations, let the faults stop, probe, shut down.
#include "world.h"
#include <cerrno>
#include <sys/wait.h>

static Op mk(const std::string &k, std::vector<std::string> a) { return Op{0, k, std::move(a)}; }
void tty_resume(std::shared_ptr<Tty> t);

bool World::alive() { return K->fatal.empty() && !K->stop; }
static std::map<std::string, int> fd_tags(Proc *p) {
    std::map<std::string, int> m;
    for (auto &e : p->fds) { std::string t = e.second->sock && !e.second->sock->tag.empty() ? e.second->sock->tag : e.second->tag; m[t]++; }
    return m;
}
static bool settled(World *w) {
    for (auto &d : w->devs) if (d->sp.type != 'S' && !d->up()) return false;
    return true;
}
static Time max_retry(char t) { switch (t) { case 'T': return 1800 + 130; case 'U': return 62; case 'P': return 1800 + 5; case 'I': return 1800 + 305; default: return 0; } }

void World::run() {
    setup();
    for (auto &d : devs) { auto i = plan.opt.find("mode:" + d->sp.name); if (i != plan.opt.end()) exec(mk("mode", {d->sp.name, i->second})); }
    t_first = K->now;
    if (!plan.has("nostart")) {
        start_daemon();
        int lp = launches.back();
        K->run(K->now + 60 * SEC, [&] { if (!daemon()) return false; if (plan.num("fg", 0)) return true; Proc *p = K->proc(lp); return p && !p->alive; });
        if (!alive()) return;
        if (!daemon() && !plan.has("mayfail")) { Proc *p = K->proc(lp); viol("start", "no-daemon", fmt("the daemon did not start: launcher alive=%d status=0x%x stderr: %s", p->alive, p->status, p->err.c_str())); return; }
    }
    check_conf(); check_places(); if (!alive()) return;
    Time base = std::max<Time>(K->now, 2 * SEC);
    if (Proc *p = daemon()) { K->run(K->now + 500 * MS); if (!alive()) return; if (daemon()) { base_tags = fd_tags(p); base_ctx = 0; for (auto c : p->ctxs) if (c->state != CTX_DEAD) base_ctx++; } }
    if (plan.has("special")) { special(); return; }
    Time last = base;
    for (auto &o : plan.ops) {
        Time t = base + o.t; Time e = t;
        if (o.k == "burst") e += atol(o.a[2].c_str()) * atol(o.a[3].c_str()) * MS;
        if (o.k == "stop") e += atol(o.a[0].c_str()) * MS;
        last = std::max(last, e);
        K->at(t, [this, o] { exec(o); });
    }
    K->run(last + 2 * SEC); if (!alive()) return;
    for (size_t i = 0; i < daemons.size(); i++) if (daemons[i].t_term >= 0 && daemons[i].why == "term") {   // peers stay in whatever state they are
        Proc *p = K->proc(daemons[i].pid); Time sl = 0; for (auto &x : daemon_stopped) if (x.b > daemons[i].t_term) sl += x.b - x.a;
        t_end = daemons[i].t_term;
        K->run(std::max(K->now, daemons[i].t_term + (plan.has("dnsterm") ? 200 : 30) * SEC + sl), [&] { return !p->alive; }); if (!alive()) return;
        check_exit(p);
    }
    quiesce();
    check_all();
}
void World::quiesce() {
    heal();
    if (plan.has("crash") && !daemon()) {
        K->run(K->now + 5 * SEC, [&] { return daemon() != nullptr; }); if (!alive()) return;
        if (!daemon()) exec(mk("start", {}));
        K->run(K->now + 20 * SEC, [&] { return daemon() != nullptr; }); if (!alive()) return;
        if (!daemon()) viol("restart", "no-daemon", fmt("no daemon could be started after the crash: %s", restarts.empty() ? "" : K->proc(restarts.back().pid)->err.c_str()));
    }
    Proc *p = daemon();
    K->run(K->now + 2 * SEC); if (!alive()) return;
    if (!daemon()) { K->run(K->now + 2 * SEC); settle_clients(); for (auto &c : clients) if (c.second->alive) exec(mk("chup", {c.first})); t_end = K->now; K->run(K->now + 5 * SEC); return; }
    // every console must come back by itself
    Time lim = t_heal;
    for (auto &d : devs) if (!d->up()) lim = std::max(lim, t_heal + max_retry(d->sp.type) * SEC + 10 * SEC + plan.num("retry_slack", 0) * SEC);
    while (!settled(this) && K->now < lim && alive() && daemon()) { K->run(std::min(lim, K->now + 20 * SEC)); }
    if (!alive()) return;
    if (!daemon()) { t_end = K->now; return; }
    Time back = 0; for (size_t i = 0; i < jumps.size(); i++) { Time prev = i ? jumps[i - 1].second : 0; if (jumps[i].second < prev) back += prev - jumps[i].second; }
    std::vector<Dev *> late; for (auto &d : devs) if (d->sp.type != 'S' && !d->up()) late.push_back(d.get());
    if (!late.empty() && back > 0) {        // timers are kept in wall-clock time: they may be late by what the clock was set back
        lim += back + 30 * SEC; while (!settled(this) && K->now < lim && alive() && daemon()) K->run(std::min(lim, K->now + 20 * SEC));
        if (!alive()) return;
        if (!daemon()) { t_end = K->now; return; }
        for (auto d : late) if (d->up()) viol("reconnect", std::string("clock-back-") + d->sp.type, fmt("console %s (type %c) is reachable since t=%.3fs but was re-connected only %.3f s later, after the clock had been set back by %ld s", d->sp.name.c_str(), d->sp.type, t_heal / 1e6, (d->ups.back().a - t_heal) / 1e6, (long)(back / SEC)));
    }
    for (auto d : late) if (!d->up())
        viol("reconnect", std::string("never-") + d->sp.type, fmt("console %s (type %c) is reachable since t=%.3fs but was not re-connected by t=%.3fs; %zu attempts, last at %.3fs", d->sp.name.c_str(), d->sp.type, t_heal / 1e6, K->now / 1e6, d->attempts.size(), d->attempts.empty() ? -1.0 : d->attempts.back() / 1e6));
    K->run(K->now + 5 * SEC); if (!alive()) return;
    settle_clients();
    t_settled = K->now;
    if (!plan.has("noprobe")) probe();
    if (!alive() || !daemon()) { t_end = K->now; return; }
    // release of every session
    for (auto &s : sess) if (s.second->t_close < 0) s.second->finish("close");
    for (auto &c : clients) if (c.second->alive) { exec(mk("chup", {c.first})); }
    K->run(K->now + 10 * SEC + plan.num("rdns_wait", 0) * SEC); if (!alive()) return;
    p = daemon(); if (!p) { t_end = K->now; return; }
    auto tags = fd_tags(p);
    for (auto &e : tags) {
        if (e.first == "sess") viol("leak", "session-fd", fmt("%d session connection(s) still open 10 s after every session ended: %s", e.second, open_sessions().c_str()));
        else if (e.first.compare(0, 4, "dev:") == 0 || e.first.compare(0, 5, "file:") == 0 || e.first.compare(0, 4, "tty:") == 0) {
            int b = base_tags.count(e.first) ? base_tags[e.first] : 0;
            if (e.second > 1 && e.second > b && e.first[0] == 'f') viol("logname", "fd", fmt("%d descriptors open for %s", e.second, e.first.c_str()));
            if (e.second > 1 && e.second > b) viol("leak", "fd-" + e.first.substr(0, 3), fmt("%d descriptors open for %s", e.second, e.first.c_str()));
        } else if (e.second > (base_tags.count(e.first) ? base_tags[e.first] : 0) && e.first != "inet" && e.first != "unix")
            viol("leak", "fd-" + e.first, fmt("%d descriptors of kind %s open, %d after start-up", e.second, e.first.c_str(), base_tags.count(e.first) ? base_tags[e.first] : 0));
        else if (e.first == "inet" || e.first == "unix") viol("leak", "fd-" + e.first, fmt("%d unconnected sockets left open", e.second));
    }
    for (auto &s : order) {
        auto f = s->far.lock();
        if (f && !f->closed) viol("leak", "session-open", fmt("session %s ended (%s) at t=%.3fs, the daemon still holds its connection at t=%.3fs", s->id.c_str(), s->how.c_str(), s->t_close / 1e6, K->now / 1e6));
    }
    int nctx = 0; for (auto c : p->ctxs) if (c->state != CTX_DEAD) nctx++;
    nctx -= base_ctx - 1;
    if (nctx > 1) viol("leak", "thread", fmt("%d threads still exist after every session ended", nctx - 1));
    // idle
    for (auto &r : resets) if (r->t_end < 0 && r->t > 0) K->run(r->t + 62 * SEC);
    if (!alive()) return;
    uint64_t s0 = p->nsys; int nd = (int)devs.size(); K->run(K->now + 60 * SEC); if (!alive()) return;
    if (p->alive && p->nsys - s0 > 300 + 40 * (uint64_t)nd * (plan.num("tsmin", 0) ? 4 : 1)) viol("idle", "busy", fmt("the idle daemon made %lu system calls in 60 simulated seconds", p->nsys - s0));
    if (plan.has("leakcycles")) leak_cycles();
    if (plan.has("vanish")) vanish();
    if (!alive() || !daemon()) { t_end = K->now; return; }
    if (plan.has("noterm")) { t_end = K->now; return; }
    terminate(plan.num("endsig", SIGTERM));
}
std::string World::open_sessions() {
    std::string o; for (auto &s : sess) { auto f = s.second->far.lock(); if (f && !f->closed) o += s.first + "(" + s.second->how + ") "; } return o;
}
void World::terminate(int sig) {
    Proc *p = daemon(); if (!p) return;
    t_end = K->now;
    exec(mk("sig", {fmt("%d", sig)}));
    K->run(K->now + 30 * SEC, [&] { return !p->alive; });
    if (!alive()) return;
    check_exit(p);
    K->run(K->now + 2 * SEC);
}
void World::check_exit(Proc *p) {
    if (p->alive) { viol("term", "hang", fmt("the daemon is still running 30 s after the termination signal (blocked in: %s)", p->ctxs.empty() ? "?" : p->ctxs[0]->what)); K->die(p, 9); }
    else {
        if (p->status != 0) viol("term", "status", fmt("the daemon ended with wait status 0x%x on a termination signal: %s", p->status, p->err.c_str()));
        for (auto &d : daemons) if (d.pid > p->pid) return;     // all of it belongs to a successor
        std::string pf = pidfile(); if (!pf.empty() && fs_lookup(pf)) viol("term", "pidfile", "the PID file was left behind after a termination signal");
        if (K->listeners.count((int)plan.num("port", 7890))) viol("term", "listener", "the listening socket is still there after the daemon ended");
        for (auto &d : devs) { auto s = d->sut.lock(); if (s && !s->closed && d->sp.type != 'P') viol("term", "device-open", "connection to " + d->sp.name + " still open after exit"); }
        bool tc = plan.has("sysfaults"); for (auto &o : plan.ops) if (o.k == "fault" && o.a.size() > 1 && (o.a[1] == "*" || o.a[0].compare(0, 2, "tc") == 0)) tc = true;
        if (plan.has("serial") && daemons.size() == 1 && p->status == 0 && !tc) for (auto &d : devs) if (d->tty && !d->tty->washup) {
            auto &a = d->tty->tio, &b = d->tty->tio0; stat["serial lines restored"]++;
            if (a.c_iflag != b.c_iflag || a.c_oflag != b.c_oflag || a.c_lflag != b.c_lflag || a.c_cflag != b.c_cflag || memcmp(a.c_cc, b.c_cc, sizeof a.c_cc) || cfgetispeed(&a) != cfgetispeed(&b) || cfgetospeed(&a) != cfgetospeed(&b)) viol("serial", "not-restored", fmt("the line of console %s does not have its former settings after the daemon ended (iflag %x/%x oflag %x/%x lflag %x/%x cflag %x/%x)", d->sp.name.c_str(), a.c_iflag, b.c_iflag, a.c_oflag, b.c_oflag, a.c_lflag, b.c_lflag, a.c_cflag, b.c_cflag));
        }
    }
}
std::string World::pidfile() const {
    for (auto &l : plan.conf) { size_t q = l.find("pidfile="); if (q != std::string::npos) { size_t a = l.find('"', q), b = l.find('"', a + 1); return l.substr(a + 1, b - a - 1); } }
    return "";
}
void World::probe() {
    // 1. fresh output reaches the sessions that are still attached
    for (auto &d : devs) if (d->up()) d->emit(d->gen(180, 0));
    K->run(K->now + 2 * SEC); if (!alive() || !daemon()) return;
    // 2. the daemon answers a query
    if (!plan.num("denyprobe", 0)) {
        exec(mk("open", {"zq", "QUERY", "", ""})); K->run(K->now + 5 * SEC); if (!alive() || !daemon()) return;
        Sess *q = sess["zq"].get(); q->probe = true;
        if (q->st != 2) viol("serve", "query", fmt("after every fault stopped the daemon does not answer a query (state %d, %s)", q->st, q->rsp.c_str()));
        else if (q->granted.size() != devs.size()) viol("serve", "query-list", "query after the faults lists " + std::to_string(q->granted.size()) + " consoles: " + q->rsp);
    }
    // 3. a session can be opened to each console and its input arrives
    if (plan.num("probein", 1)) for (auto &d : devs) {
        std::string id = "zp" + d->sp.name;
        if (nsess >= 10) nsess = (nsess + 9) / 10 * 10;
        exec(mk("open", {id, "CONNECT", d->sp.name, "F"})); Sess *s = sess[id].get(); s->probe = true;
        s->alpha = "qzjxvkw"; s->alpha_shared = true;
        K->run(K->now + 3 * SEC); if (!alive() || !daemon()) return;
        if (s->st != 2) { viol("serve", "connect", fmt("after every fault stopped a session to %s is not granted (state %d, %s)", d->sp.name.c_str(), s->st, s->rsp.c_str())); continue; }
        if (d->sp.type == 'S' && !d->up()) K->run(K->now + 2 * SEC);
        if (!d->up()) { if (d->sp.type == 'S') viol("reconnect", "serial", "serial console " + d->sp.name + " is not re-opened for a new session"); continue; }
        size_t k0 = d->sink.size(); (void)k0;
        s->send_data(120); K->run(K->now + 2 * SEC); if (!alive() || !daemon()) return;
        if (d->sink.size() < 120 || d->sink.find(s->tx, k0 > 0 ? k0 - 1 : 0) == std::string::npos) viol("serve", "input", fmt("after every fault stopped input of a session does not reach console %s", d->sp.name.c_str()));
        std::string e = d->gen(150, 0); size_t c0 = d->consumed.size(), r0 = s->rx.size(); d->emit(e); K->run(K->now + 2 * SEC); if (!alive() || !daemon()) return;
        if (d->consumed.size() - c0 != e.size()) viol("serve", "unread", fmt("after every fault stopped the daemon does not read output of %s", d->sp.name.c_str()));
        else if (s->rx.find(e, r0) == std::string::npos) viol("serve", "output", fmt("after every fault stopped output of %s does not reach a new session", d->sp.name.c_str()));
        s->finish("close"); K->run(K->now + 100 * MS);
    }
    // 4. nothing a device produced may be left unread
    for (auto &d : devs) if (d->up() && !d->kinds.empty()) viol("unread", "device", fmt("%zu bytes of console %s were never read by the daemon", d->kinds.size(), d->sp.name.c_str()));
}
// A peer's machine disappears without a word. With keep-alive (the default) the daemon finds out; a peer that is merely
// silent for hours is left alone.
void World::vanish() {
    bool ka = true; for (auto &l : plan.conf) if (l.find("keepalive=off") != std::string::npos) ka = false;
    Dev *d = devs[0].get(); for (auto &x : devs) if (x->sp.type == 'T' && x->up()) { d = x.get(); break; }
    auto open = [&](const std::string &id, const char *cmd, const char *opt) { exec(mk("open", {id, cmd, d->sp.name, opt})); K->run(K->now + 3 * SEC); Sess *s = sess[id].get(); s->probe = true; return s; };
    Sess *live = open("zvl", "CONNECT", ""), *dead = open("zvd", plan.num("vanish", 0) & 1 ? "MONITOR" : "CONNECT", "J"); if (!alive() || !daemon()) return;
    if (live->st != 2 || dead->st != 2) return;
    bool dev = d->sp.type == 'T' && d->up() && (plan.num("vanish", 0) & 2); size_t up0 = d->ups.size();
    dead->finish("vanish"); if (dev) d->drop("vanish");
    K->run(K->now + 8100 * SEC); if (!alive() || !daemon()) return;
    auto f = dead->far.lock();
    if (ka && f && !f->closed) viol("leak", "vanished", "the connection of a session whose peer vanished is still held 8100 s later, although keep-alive is on");
    if (dev && ka) { K->run(K->now + 1900 * SEC, [&] { return d->ups.size() > up0; }); if (!alive() || !daemon()) return; K->run(K->now + SEC); if (d->ups.size() == up0) viol("reconnect", "vanished", fmt("console %s, whose device vanished and came back, was not re-connected within 10000 s although keep-alive is on", d->sp.name.c_str())); }
    if (!ka && f && !f->closed) { f->err = ETIMEDOUT; ext_fail(f.get(), ETIMEDOUT); }
    if (!ka && dev) if (auto x = d->sut.lock()) ext_fail(x.get(), ETIMEDOUT);
    K->run(K->now + 20 * SEC); if (!alive() || !daemon()) return;
    if (live->t_eof >= 0) viol("serve", "idle-session", fmt("a session that was silent for two hours was ended by the daemon at t=%.3fs", live->t_eof / 1e6));
    else if (d->up()) { size_t r0 = live->rx.size(); std::string e = d->gen(100, 0); d->emit(e); K->run(K->now + 2 * SEC); if (!alive() || !daemon()) return; if (live->rx.find(e, r0) == std::string::npos) viol("serve", "idle-session", "a session that was silent for two hours gets no output any more"); }
    live->finish("close"); K->run(K->now + 5 * SEC);
}
void World::leak_cycles() {
    std::vector<int64_t> a;
    auto cycle = [&](int i) {
        std::string id = fmt("zl%d", i);
        Dev *d = devs[0].get();
        exec(mk("open", {id, i % 2 ? "MONITOR" : "CONNECT", d->sp.name, ""})); K->run(K->now + 1 * SEC);
        if (!alive() || !daemon()) return;
        d->emit(std::string(50, 'x')); K->run(K->now + 500 * MS); sess[id]->probe = true;
        sess[id]->finish("close"); K->run(K->now + 1 * SEC);
        exec(mk("open", {id + "n", "CONNECT", "nosuchconsole", ""})); K->run(K->now + 1 * SEC); if (!alive() || !daemon()) return; sess[id + "n"]->finish("close"); K->run(K->now + 1 * SEC);
    };
    for (int i = 0; i < 14 && alive() && daemon(); i++) { cycle(i); if (i % 2) a.push_back((int64_t)daemon()->heap.size()); }
    if (!alive() || !daemon()) return;
    bool grows = true; for (size_t i = 2; i < a.size(); i++) if (a[i] <= a[i - 1]) grows = false;
    if (grows) { std::string s; for (auto x : a) s += fmt("%ld ", x); viol("leak", "memory", "every opened and closed session leaves memory allocated; live blocks after each cycle: " + s); }
}
