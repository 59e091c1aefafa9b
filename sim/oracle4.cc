// Log files: names, re-opening, preservation of what was written.
#include "model.h"
#include <fcntl.h>

// the documented expansion of conversion specifiers
static std::string expand(const World &w, const ConsoleSpec *c, const Dev *d, const std::string &f, time_t t, int pid) {
    (void)w; std::string o; struct tm tm; localtime_r(&t, &tm);
    auto san = [](std::string s) { for (auto &ch : s) if (ch == '/') ch = '_'; return s; };
    for (size_t i = 0; i < f.size(); i++) {
        if (f[i] != '%' || i + 1 >= f.size()) { o += f[i]; continue; }
        char k = f[++i]; char b[64], tf[3] = {'%', k, 0};
        switch (k) {
        case 'N': if (c) o += san(c->name); else o += "%N"; break;
        case 'D': if (c && (c->type == 'S' || c->type == 'U')) { std::string q = d->confdev(); size_t z = q.find(':'); if (c->type == 'U' && z != std::string::npos) q = q.substr(z + 1); z = q.rfind('/'); if (z != std::string::npos) q = q.substr(z + 1); o += san(q); } else if (c && c->type == 'T') { o += san(d->confdev()); } else if (!c) o += "%D"; break;
        case 'P': o += fmt("%d", pid); break;
        case '%': o += '%'; break;
        default: if (strchr("dgGHjmMsSuUVwWyY", k)) { strftime(b, sizeof b, tf, &tm); o += b; } else { o += '%'; o += k; } break;
        }
    }
    return o;
}
static std::string glob_of(std::string p) { std::string o; for (size_t i = 0; i < p.size(); i++) { if (p[i] == '%') { o += '*'; i++; } else o += p[i]; } return o; }
// when the log of a console was not recording, because of a failure
std::vector<Span> log_down(const World &w, const Dev &d) {
    std::vector<Span> v; if (d.sp.log.empty()) return v;
    std::string p = w.logpath(d.sp); size_t z; while ((z = p.find("%N")) != std::string::npos) p.replace(z, 2, d.sp.name); std::string g = glob_of(p);
    for (auto &e : w.fev) {
        bool dm = false; for (auto &x : w.daemons) if (x.pid == e.pid) dm = true;
        if (!dm || e.k == 'W' || fnmatch(g.c_str(), e.path.c_str(), 0)) continue;
        bool isdown = !v.empty() && v.back().b == FOREVER;
        if (e.k == 'O') { if (isdown) v.back().b = e.t + MS; }
        else if (!isdown) { Time a = e.t - 300 * MS - pause_slack(w, e.t - SEC, e.t); if (!v.empty() && v.back().b >= a) v.back().b = FOREVER; else v.push_back({a, FOREVER}); }
    }
    return v;
}
// every failure of a console's log is reported in the daemon's own log
void check_logfaults(World &w) {
    std::string dl; for (auto &l : w.plan.conf) { size_t q = l.find("server logfile=\""); if (q != std::string::npos) { size_t a = l.find('"', q), b = l.find('"', a + 1); dl = l.substr(a + 1, b - a - 1); } }
    if (dl.empty() || dl.find('%') != std::string::npos || dl.find(',') != std::string::npos || w.plan.num("fg", 0)) return;
    if (dl[0] != '/') dl = "/var/log/consoles/" + dl;
    std::vector<Span> off; for (auto &e : w.fev) if (e.path == dl && e.k != 'W') { bool isoff = !off.empty() && off.back().b == FOREVER; if (e.k == 'O') { if (isoff) off.back().b = e.t; } else if (!isoff) off.push_back({e.t, FOREVER}); }
    auto &lw = w.logw[dl];
    for (auto &e : w.fev) {
        if (e.k == 'O' || e.k == 'W' || e.path == dl || e.path.compare(0, 9, "/var/log/")) continue;
        const World::Daemon *dm = nullptr; for (auto &x : w.daemons) if (x.pid == e.pid) dm = &x;
        if (!dm || (dm->t1 >= 0 && dm->t1 < e.t + SEC) || overlaps(off, e.t - MS, e.t + SEC)) continue;
        Time lim = e.t + SEC + pause_slack(w, e.t - MS, e.t + SEC); bool ok = false;
        for (auto &x : lw) if (x.first >= e.t && x.first <= lim && x.second.find(e.path) != std::string::npos && x.second.find("nable to") != std::string::npos) { ok = true; break; }
        w.stat["log failures"]++;
        if (!ok) { w.viol("logfault", std::string("unreported-") + e.k, fmt("%s \"%s\" failed (%s) at t=%.6fs; the daemon's log does not report it", e.k == 'F' ? "opening" : e.k == 'K' ? "locking" : "writing to", e.path.c_str(), strerror(e.err), e.t / 1e6)); return; }
    }
}
static std::string conf_val(const World &w, const std::string &key) { std::string v; for (auto &l : w.plan.conf) { size_t q = l.find(key + "=\""); if (q != std::string::npos && (q == 0 || l[q - 1] == ' ')) { size_t a = l.find('"', q), b = l.find('"', a + 1); v = l.substr(a + 1, b - a - 1); } } return v; }
static std::set<Time> walls(const World &w, Time t) {       // the seconds the clock may have shown just before t
    std::set<Time> s; Time back = 300 * MS + w.plan.num("slack_ms", 0) * MS;
    for (auto &x : w.daemon_stopped) if (x.b >= t - back && x.a <= t) s.insert(wall_at(w, x.a)), s.insert(wall_at(w, x.a - 100 * MS)), s.insert(wall_at(w, x.a + 100 * MS));
    for (Time q : {t, t - MS, t - 20 * MS, t - 100 * MS, t - back}) s.insert(wall_at(w, q));
    for (auto &j : w.jumps) if (j.first <= t && j.first >= t - back) s.insert(wall_at(w, j.first - 1)), s.insert(wall_at(w, j.first));
    return s;
}
void check_logfiles(World &w) {
    struct L { std::string name, pat, glob; const ConsoleSpec *c; const Dev *d; std::vector<size_t> ops; Node *cur = nullptr, *prev = nullptr; int pid = 0; bool open = false; };
    std::vector<L> ls;
    for (auto &d : w.devs) if (!d->sp.log.empty()) { L l; l.name = "console " + d->sp.name; l.pat = d->sp.log[0] == '/' ? d->sp.log : "/var/log/consoles/" + d->sp.log; l.c = &d->sp; l.d = d.get(); ls.push_back(l); }
    std::string dl = conf_val(w, "logfile"); size_t cm = dl.find(','); if (cm != std::string::npos) dl.resize(cm);
    if (!dl.empty() && !w.plan.num("fg", 0)) { L l; l.name = "the daemon"; l.pat = dl[0] == '/' ? dl : "/var/log/consoles/" + dl; l.c = nullptr; l.d = nullptr; ls.push_back(l); }
    for (auto &l : ls) { std::string p = l.pat; size_t z; if (l.c) while ((z = p.find("%N")) != std::string::npos) p.replace(z, 2, l.c->name); l.glob = glob_of(p); }
    bool zero = w.plan.has("args") && w.plan.opt["args"].find("-z") != std::string::npos;
    std::map<std::string, int> opened;        // path -> daemon that opened it first
    for (size_t i = 0; i < w.fev.size(); i++) {
        auto &e = w.fev[i]; const World::Daemon *dm = nullptr; for (auto &x : w.daemons) if (x.pid == e.pid) dm = &x;
        if (!dm || e.path.compare(0, 9, "/var/log/")) continue;
        L *l = nullptr;
        for (auto &x : ls) if (!fnmatch(x.glob.c_str(), e.path.c_str(), 0)) {
            if (e.k == 'W' || e.k == 'X' || e.k == 'K') { if (x.cur == e.node.get() || !l) l = &x; continue; }
            for (Time t : walls(w, e.t)) if (expand(w, x.c, x.d, x.pat, t, e.pid) == e.path) l = &x;
        }
        if (!l) { w.viol("logname", e.k == 'W' ? "write" : "name", fmt("at t=%.3fs (clock %ld) the daemon %s \"%s\", which is not the name of any configured log at that time", e.t / 1e6, wall_at(w, e.t), e.k == 'W' ? "wrote to" : "opened", e.path.c_str())); continue; }
        if (e.k == 'X' || e.k == 'K') { if (l->c && l->cur == e.node.get()) l->cur = nullptr; if (!l->c && e.k == 'K') l->cur = l->prev; continue; }
        if (e.k == 'W') {
            if (l->cur != e.node.get() || l->pid != e.pid) w.viol("logname", "old-file", fmt("output of the log of %s went to \"%s\" at t=%.3fs, which is not the file opened last", l->name.c_str(), e.path.c_str(), e.t / 1e6));
            continue;
        }
        l->ops.push_back(i); l->pid = e.pid; if (e.k == 'O') l->prev = l->cur, l->cur = e.node.get(); else if (l->c) l->cur = nullptr;      // (the daemon's own log: the failure itself is reported in the old file)
        if (e.k == 'O' && (e.flags & O_TRUNC) && e.n > 0) {
            auto q = opened.find(e.path); bool first = q == opened.end() || q->second != e.pid;
            if (!zero || !first) w.viol("logname", "truncated", fmt("\"%s\" was truncated at t=%.3fs: %zu bytes lost", e.path.c_str(), e.t / 1e6, e.n));
        }
        opened[e.path] = e.pid;
    }
    for (auto &x : w.fexp) if (x.first->data != x.second.second && !x.first->name.empty()) {
        bool log = false; for (auto &e : w.fev) if (e.node.get() == x.first && !e.path.compare(0, 9, "/var/log/")) log = true;
        if (!log) continue;
        size_t k = 0; while (k < x.first->data.size() && k < x.second.second.size() && x.first->data[k] == x.second.second[k]) k++;
        w.viol("logname", "overwritten", fmt("log file %s: %zu bytes were written, the file holds %zu and differs from byte %zu", x.first->name.c_str(), x.second.second.size(), x.first->data.size(), k));
    }
    // every SIGHUP re-opens every log, after the signal
    for (auto &h : w.huprec) {
        const World::Daemon *dm = nullptr; for (auto &x : w.daemons) if (x.pid == h.pid) dm = &x;
        if (!dm) continue;
        Time lim = h.t + SEC + 8 * K->kn.jitter + w.plan.num("slack_ms", 0) * MS + pause_slack(w, h.t - SEC, h.t + SEC);
        if ((dm->t1 >= 0 && dm->t1 <= lim) || (dm->t_term >= 0 && dm->t_term <= lim) || K->now <= lim) continue;
        for (auto &l : ls) {
            bool ok = false; for (size_t i : l.ops) if (i >= h.idx && w.fev[i].pid == h.pid && w.fev[i].t <= lim) ok = true;
            w.stat["re-opened logs"] += ok;
            if (!ok) { Time nx = -1; for (size_t i : l.ops) if (i >= h.idx && nx < 0) nx = w.fev[i].t; w.viol("logname", "not-reopened", fmt("the log of %s was not re-opened after the SIGHUP at t=%.6fs (%s)", l.name.c_str(), h.t / 1e6, nx < 0 ? "never" : fmt("next at t=%.3fs", nx / 1e6).c_str())); break; }
        }
    }
}
// A serial line is used with the configured settings, and transparently.
void Dev::serial_used() {
    struct { int val; speed_t sp; } T[] = {{50, B50}, {75, B75}, {110, B110}, {134, B134}, {150, B150}, {200, B200}, {300, B300}, {600, B600}, {1200, B1200}, {1800, B1800}, {2400, B2400}, {4800, B4800}, {9600, B9600}, {19200, B19200}, {38400, B38400}, {57600, B57600}, {115200, B115200}, {230400, B230400}, {460800, B460800}};
    int bps = 9600, bits = 8, stop = 1; char par = 'n'; std::string all;
    for (auto &l : w->plan.conf) if (l.compare(0, 15, "global seropts=") == 0) all = l.substr(16, l.size() - 17);
    for (auto &s : {all, w->plan.has("ser:" + sp.name) ? w->plan.opt["ser:" + sp.name] : std::string()}) if (!s.empty()) sscanf(s.c_str(), "%d,%d%c%d", &bps, &bits, &par, &stop);
    speed_t want = 0; for (auto &x : T) if (x.val <= bps) want = x.sp;
    auto &t = tty->tio; w->stat["uses of serial lines checked"]++;
    const char *bad = cfgetispeed(&t) != want || cfgetospeed(&t) != want ? "speed" : (int)(t.c_cflag & CSIZE) != (bits == 5 ? CS5 : bits == 6 ? CS6 : bits == 7 ? CS7 : CS8) ? "data bits" : !!(t.c_cflag & PARENB) != (tolower(par) != 'n') || ((t.c_cflag & PARENB) && !!(t.c_cflag & PARODD) != (tolower(par) == 'o')) ? "parity" : !!(t.c_cflag & CSTOPB) != (stop == 2) ? "stop bits" : nullptr;
    if (bad) w->viol("serial", "settings", fmt("the line of console %s is used at t=%.3fs with another %s than configured (%d,%d%c%d): cflag %x", sp.name.c_str(), K->now / 1e6, bad, bps, bits, par, stop, t.c_cflag));
    else if ((t.c_iflag & (BRKINT | ICRNL | INLCR | IGNCR | ISTRIP | IXON | PARMRK)) || (t.c_lflag & (ICANON | ISIG | ECHO)) || (t.c_oflag & OPOST) || !(t.c_cflag & CLOCAL)) w->viol("serial", "cooked", fmt("the line of console %s is used at t=%.3fs in a mode that alters or intercepts data (iflag %x oflag %x lflag %x cflag %x)", sp.name.c_str(), K->now / 1e6, t.c_iflag, t.c_oflag, t.c_lflag, t.c_cflag));
}
// What is created is private as far as it has to be, and a program that the daemon starts gets nothing of the daemon's.
void check_private(World &w) {
    std::string dl = conf_val(w, "logfile"), pf = conf_val(w, "pidfile"); size_t cm = dl.find(','); if (cm != std::string::npos) dl.resize(cm); if (!dl.empty() && dl[0] != '/') dl = "/var/log/consoles/" + dl;
    std::string dg = dl.empty() ? "" : glob_of(dl);
    for (auto &m : w.made) {
        w.stat["created files"]++; int md = m.node->mode & 0777; bool reg = m.node->type == Node::REG, own = m.path == pf || (!dg.empty() && !fnmatch(dg.c_str(), m.path.c_str(), 0));
        if (md & 022) w.viol("private", reg ? "writable" : "dir-writable", fmt("\"%s\", created by %s at t=%.3fs, can be written by others (mode %04o)", m.path.c_str(), m.client ? "the client" : "the daemon", m.t / 1e6, md));
        else if (reg && !own && (md & 077)) w.viol("private", m.client ? "client-log" : "console-log", fmt("\"%s\", a record of a console's data created at t=%.3fs, can be read by others (mode %04o)", m.path.c_str(), m.t / 1e6, md));
    }
    w.stat["programs started"] += w.execs;
    for (auto &l : w.lent) w.viol("fdleak", l.tag.substr(0, l.tag.find(':')), fmt("the program \"%s\" started by the daemon at t=%.3fs (pid %d) was given descriptor %d of the daemon (%s)", l.prog.c_str(), l.t / 1e6, l.pid, l.fd, l.tag.c_str()));
}
// The daemon closes a console's connection only at its end, or when the connection failed.
void check_disturb(World &w) {
    if (w.plan.has("sysfaults")) return;
    for (auto &d : w.devs) for (Time t : d->cut) {
        bool ok = false; for (auto &x : w.daemons) if ((x.t_term >= 0 && t >= x.t_term && (x.t1 < 0 || t <= x.t1 + 10 * SEC)) || (x.t1 >= 0 && t >= x.t1 && t <= x.t1 + 10 * SEC)) ok = true;
        for (Time f : d->fsev) if (f <= t && f >= t - 2 * SEC - pause_slack(w, f, t)) ok = true;
        if (!ok) w.viol("disturb", std::string("closed-") + d->sp.type, fmt("the daemon closed the working connection to console %s (type %c) at t=%.6fs without a cause", d->sp.name.c_str(), d->sp.type, t / 1e6));
    }
}

// Interval timestamps: one message per multiple of the interval.
void check_tstamps(World &w) {
    long iv = w.plan.num("tsmin", 0) * 60;
    for (auto &dv : w.devs) {
        const ConsoleSpec &c = dv->sp; if (c.log.empty()) continue;
        std::string L; std::vector<Mark> lm; for (auto &x : w.log_writes(c)) { L += x.second; lm.push_back({x.first, L.size()}); }
        struct M { Time t; std::string text; }; std::vector<M> ms; size_t i = 0; std::string key = PRE + "Console [" + c.name + "] log at ";
        while ((i = L.find(key, i)) != std::string::npos) { size_t e = L.find("\r\n", i + key.size()); if (e == std::string::npos) break; Time t = FOREVER; for (auto &m : lm) if (m.n > i) { t = m.t; break; } ms.push_back({t, L.substr(i + key.size(), e - i - key.size())}); i = e; }
        if (!iv) { if (!ms.empty()) w.viol("tstamp", "unwanted", "the log of " + c.name + " has a timestamp message although none are configured"); continue; }
        auto down = log_down(w, *dv); bool taint = !down.empty() && !w.jumps.empty(); size_t k = 0;
        for (auto &dm : w.daemons) {
            Time t0 = dm.t0, end = std::min({dm.t1 >= 0 ? dm.t1 : K->now, dm.t_term >= 0 ? dm.t_term : FOREVER, w.t_end > 0 ? w.t_end : FOREVER});
            std::vector<M> mine; while (k < ms.size() && (dm.t1 < 0 || ms[k].t <= dm.t1)) mine.push_back(ms[k++]);
            // the first multiple after the start, from local midnight
            time_t n0 = wall_at(w, t0); struct tm tm; localtime_r(&n0, &tm); long since = tm.tm_hour * 3600 + tm.tm_min * 60 + tm.tm_sec; time_t mid = n0 - since; long q = (since / 60 * 60) / iv + 1;
            time_t S = mid + q * iv; auto when = [&](time_t s) { Time best = FOREVER; Time off = 0, from = 0; for (size_t j = 0; j <= w.jumps.size(); j++) { Time to = j < w.jumps.size() ? w.jumps[j].first : FOREVER; Time t = std::max(from, (Time)s * SEC - K->wall_base - off); if (t < to) best = std::min(best, t); if (j < w.jumps.size()) { off = w.jumps[j].second; from = to; } } return best; };
            size_t j = 0; Time tol = SEC + 8 * K->kn.jitter + 8 * w.plan.kn.jitter;
            auto at = [&](time_t s) { return local_stamp(s); };
            if (when(S) < t0 + 2 * SEC && (mine.empty() || (mine[0].t > when(S + iv) - MS && mine[0].text.compare(0, 19, at(S))))) S += iv;      // due while the daemon was starting
            for (;; S += iv) {
                Time due = when(S);
                if (due == FOREVER || due > end) break;
                Time lim = due + tol + pause_slack(w, due - SEC, due + SEC); for (auto &x : w.daemon_stopped) if (x.a <= lim && x.b > lim) lim = x.b + tol;
                if (overlaps(down, due - SEC, lim + SEC)) {      // the log failed around that time: this one may be missing, or written once the log works again
                    if (j < mine.size()) { bool is = false; for (time_t z = S; z <= S + 1 + (lim - due) / SEC; z++) if (!mine[j].text.compare(0, 19, at(z))) is = true; if (is && mine[j].t >= due - MS) j++; }
                    continue;
                }
                if (j >= mine.size()) { if (lim < end && w.jumps.empty() && !taint) { w.viol("tstamp", "missing", fmt("the log of %s has no timestamp message for %s (t=%.3fs, interval %ld min)", c.name.c_str(), at(S).c_str(), due / 1e6, iv / 60)); } break; }
                if (mine[j].t < due - MS && !taint) { w.viol("tstamp", "early", fmt("the log of %s has a timestamp message at t=%.6fs (\"%s\"), the next one is due for %s at t=%.6fs", c.name.c_str(), mine[j].t / 1e6, mine[j].text.c_str(), at(S).c_str(), due / 1e6)); break; }
                if (mine[j].t > lim && w.jumps.empty() && !taint) { w.viol("tstamp", "late", fmt("the timestamp message for %s was written to the log of %s at t=%.6fs, due at t=%.6fs", at(S).c_str(), c.name.c_str(), mine[j].t / 1e6, due / 1e6)); break; }
                if (mine[j].text.compare(0, 19, at(S)) && w.jumps.empty() && !taint) { bool ok = false; for (time_t z = S; z <= (time_t)wall_at(w, mine[j].t); z++) if (!mine[j].text.compare(0, 19, at(z))) { ok = true; break; } if (!ok) { w.viol("tstamp", "text", fmt("timestamp message \"%s\" in the log of %s, due for %s", mine[j].text.c_str(), c.name.c_str(), at(S).c_str())); break; } }
                j++; w.stat["timestamps checked"]++;
            }
            if (j < mine.size() && !taint && when(S) > end && !overlaps(down, end - 2 * SEC, end)) w.viol("tstamp", "extra", fmt("the log of %s has an extra timestamp message at t=%.6fs (\"%s\")", c.name.c_str(), mine[j].t / 1e6, mine[j].text.c_str()));
        }
    }
}

// C25: every start after a crash succeeds and leaves a correct PID file
void check_restarts(World &w) {
    for (auto &r : w.restarts) {
        Proc *p = K->proc(r.pid); if (!p) continue;
        Time end = p->alive ? K->now : p->t_exit; bool killed = false;
        for (auto t : w.killalls) if (t >= r.t && t <= end) killed = true;
        w.stat["restarts"]++;
        if (killed) { w.stat["killed while starting"]++; continue; }
        const World::Daemon *dm = nullptr; for (auto &x : w.daemons) if (x.launcher == r.pid) { dm = &x; break; }
        if (dm && dm->why == "kill" && dm->t_term <= end) continue;
        bool told = false; for (auto &k : w.kills) { Proc *f = K->proc(k.from), *q = K->proc(k.to); if (f && q && f->root != r.pid && q->root == r.pid && k.sig && k.t >= r.t && k.t <= end) told = true; }
        if (told) continue;             // a control command ended it while it was starting
        bool later = false; for (auto t : w.killalls) if (t >= r.t && (!dm || t <= dm->t0)) later = true;
        if (p->alive) { if (K->now > r.t + 20 * SEC) w.viol("restart", "hang", fmt("a start at t=%.6fs has not returned by t=%.6fs", r.t / 1e6, K->now / 1e6)); continue; }
        if (p->status) { w.viol("restart", "failed", fmt("the daemon could not be started again at t=%.6fs after a crash: wait status 0x%x, %s", r.t / 1e6, p->status, p->err.c_str())); continue; }
        if (!dm && !later) w.viol("restart", "nothing", fmt("the start at t=%.6fs after a crash reported success but no daemon listens", r.t / 1e6));
    }
    if (Proc *p = w.daemon()) { std::string pf = w.pidfile(); if (!pf.empty()) { auto n = fs_lookup(pf); if (!n || atoi(n->data.c_str()) != p->pid || n->data != fmt("%d\n", p->pid)) w.viol("restart", "pidfile", fmt("the PID file holds \"%s\" while daemon %d is running", n ? hexs(n->data).c_str() : "(missing)", p->pid)); } }
}

// Control commands and second starts. A daemon is surely active from the return of its start-up until it is told to end,
// surely absent while no process of any start-up exists; in between either answer is right.
void check_ctl(World &w) {
    std::map<int, Time> fam_end;             // start-up -> the time its last process was gone
    std::set<int> starters(w.launches.begin(), w.launches.end());
    for (auto &e : K->procs) { Proc *p = e.second; if (!starters.count(p->root) || p->mod != &MOD_CONMAND) continue; Time t = p->alive ? FOREVER : p->t_exit; auto &x = fam_end[p->root]; x = std::max(x, t); }
    for (auto &d : w.daemons) { auto &x = fam_end[d.launcher]; x = std::max(x, d.t1 < 0 ? FOREVER : d.t1); }   // (its number may belong to another process by now)
    std::vector<std::pair<Time, int>> who;   // daemons never overlap
    for (auto &d : w.daemons) for (auto &e : w.daemons) if (d.pid < e.pid) { Time b = d.t1 < 0 ? FOREVER : d.t1; if (e.t0 < b && e.t0 >= d.t0) w.viol("ctl", "two", fmt("daemon %d began to listen at t=%.6fs while daemon %d on the same configuration was running", e.pid, e.t0 / 1e6, d.pid)); }
    for (auto &c : w.cmds) {
        Proc *p = K->proc(c.pid); if (!p) continue; w.stat["control commands"]++;
        if (p->alive) { if (K->now > c.t + 20 * SEC) w.viol("ctl", "hang", fmt("conmand -%c started at t=%.6fs has not returned by t=%.6fs", c.kind, c.t / 1e6, K->now / 1e6)); continue; }
        Time a = c.t, b = p->t_exit;
        std::vector<World::Kill> ks; for (auto &k : w.kills) { Proc *f = K->proc(k.from); Proc *q = K->proc(k.to); if (f && f->root == c.pid && k.sig && !(q && q->root == c.pid)) ks.push_back(k); }
        const World::Daemon *D = nullptr;
        for (auto &d : w.daemons) {
            Proc *l = K->proc(d.launcher); if (!l || l->alive || l->t_exit > a || d.launcher == c.pid) continue;
            bool own = false; Time end = d.t_term < 0 ? FOREVER : d.t_term; if (c.kind == 'k') for (auto &k : ks) if (k.to == d.pid && k.t == end) end = FOREVER, own = true;
            if (end <= b || (d.t1 >= 0 && d.t1 <= b && !own)) continue;
            D = &d;
        }
        bool absent = true; for (auto &f : fam_end) { Proc *l = K->proc(f.first); if (!l || f.first == c.pid) continue; if (l->t_start <= b && f.second >= a) absent = false; }
        std::string what = fmt("conmand %s at t=%.6fs (wait status 0x%x, stdout \"%s\", stderr \"%s\")", c.kind == 's' ? "started" : (fmt("-%c", c.kind) + (c.P ? " -P" : "")).c_str(), c.t / 1e6, p->status, hexs(p->out, 80).c_str(), hexs(p->err, 160).c_str());
        for (auto &k : ks) {
            if (c.P && !D && w.bystanders.count(k.to) && k.t >= w.bystanders[k.to]) w.viol("ctl", "bystander", what + fmt(" sent signal %d to process %d, which is not a daemon", k.sig, k.to));
            else if (!k.daemon) w.viol("ctl", "wrong-target", what + fmt(" sent signal %d to process %d, which is not the daemon", k.sig, k.to));
        }
        if (c.kind == 's') {
            if (!ks.empty()) w.viol("ctl", "start-kills", what + " sent a signal");
            if (D) {
                w.stat["starts beside a running daemon"]++;
                if (p->status == 0) w.viol("ctl", "second", what + fmt(" reported success while daemon %d was running", D->pid));
                else if (p->err.empty()) w.viol("ctl", "silent", what + fmt(" was refused without a reason while daemon %d was running", D->pid));
                if (!w.pidfile().empty() && c.pidtxt != fmt("%d\n", D->pid)) w.viol("ctl", "pidfile", what + fmt(" left \"%s\" in the PID file of running daemon %d", hexs(c.pidtxt, 40).c_str(), D->pid));
                for (auto &f : w.fev) { Proc *q = K->proc(f.pid); if (q && q->root == c.pid && (f.k == 'O' || f.k == 'W')) { w.viol("ctl", "file", what + fmt(" opened or wrote %s, which belongs to running daemon %d", f.path.c_str(), D->pid)); break; } }
            } else if (absent) {
                bool hit = false; for (auto &k : w.kills) { Proc *q = K->proc(k.to); if (k.sig && k.sig != SIGHUP && q && q->root == c.pid && k.t <= b) hit = true; } for (auto t : w.killalls) if (t >= a && t <= b) hit = true; for (auto &d : w.daemons) if (d.launcher == c.pid && d.t_term >= 0 && d.t_term <= b) hit = true;
                w.stat["starts with no daemon"]++;
                const World::Daemon *N = nullptr; for (auto &d : w.daemons) if (d.launcher == c.pid) N = &d;
                if (hit) continue;
                if (p->status) w.viol("ctl", "start", what + " failed although no daemon was running");
                else if (!N) w.viol("ctl", "nothing", what + " reported success but no daemon listens");
            }
            continue;
        }
        if (D) {
            w.stat["commands to a running daemon"]++;
            if (p->status) { w.viol("ctl", "not-found", what + fmt(" failed while daemon %d was running", D->pid)); continue; }
            if (c.kind == 'q' && p->out != fmt("%d\n", D->pid)) w.viol("ctl", "query", what + fmt(" while daemon %d was running", D->pid));
            if (c.kind != 'q') { int n = 0; for (auto &k : ks) if (k.to == D->pid && k.sig == (c.kind == 'k' ? SIGTERM : SIGHUP)) n++; if (n != 1) w.viol("ctl", "unsent", what + fmt(" sent its signal %d times to running daemon %d", n, D->pid)); }
            else if (!ks.empty()) w.viol("ctl", "query-signal", what + " sent a signal");
        } else if (absent) {
            w.stat["commands with no daemon"]++;
            bool by = false; for (auto &x : w.bystanders) if (c.P && x.second <= b) by = true;
            if (p->status == 0) w.viol("ctl", by ? "bystander" : "found-none", what + " reported success although no daemon was running");
            else if (p->err.empty()) w.viol("ctl", "silent", what + " failed without a reason");
        } else w.stat["commands beside a start or an end"]++;
    }
}

// ------------------------------------------------------------- access control
void check_acl(World &w) {
    bool wrap = false, loop = true; std::string lf;
    for (auto l : w.plan.conf) {
        if (l.compare(0, 19, "Server TCPwrappers ") == 0) wrap = true;
        if (l.compare(0, 18, "server tcpwrappers") == 0) wrap = l.find("=on") != std::string::npos;
        if (l.compare(0, 15, "server loopback") == 0) loop = l.find("=on") != std::string::npos;
        if (l.compare(0, 14, "server logfile") == 0) { size_t a = l.find('"'); lf = l.substr(a + 1, l.find('"', a + 1) - a - 1); }
    }
    std::string log; if (!lf.empty()) { auto i = w.logs.find(lf); if (i != w.logs.end()) log = i->second; }
    auto rejections = [&](int port) { int n = 0; std::string pat = "TCP-Wrappers rejected connection from <", tail = fmt(":%d>", port); for (size_t q = 0; (q = log.find(pat, q)) != std::string::npos; q++) { size_t e = log.find('\n', q), z = log.find(tail, q); if (z != std::string::npos && z < e) n++; } return n; };
    auto denied = [&](const AclState &a, uint32_t ip) {
        auto i = a.ip.find(ip); if (i != a.ip.end() && i->second) return true;
        auto n = a.rdns.find(ip); return a.names.count(n != a.rdns.end() && a.rdns_ok ? n->second : "unknown") > 0;
    };
    for (auto &d : w.daemons) (void)d;
    for (auto &c : w.conns) {
        if (loop && (c.ip >> 24) != 127) { w.viol("acl", "remote", fmt("a connection from %u.%u.%u.%u was accepted while the daemon is to listen on the loopback address only", c.ip >> 24, (c.ip >> 16) & 255, (c.ip >> 8) & 255, c.ip & 255)); continue; }
        if (!c.s) continue;
        Time first = FOREVER; for (auto &e : w.sev) if (e.conn == c.id && e.k != 'X' && e.t >= c.t_acc) { first = e.t; break; }
        Time lim = std::min(first, c.t_acc + 30 * SEC); bool can = false, must = true; AclState base{0, {}, {}, {}, true}; const AclState *cur = &base;
        for (auto &a : w.acl) if (a.t < c.t_acc) cur = &a;
        auto see = [&](const AclState &a) { bool x = wrap && denied(a, c.ip); if (x) can = true; else must = false; };
        see(*cur); for (auto &a : w.acl) if (a.t >= c.t_acc && a.t <= lim) see(a);
        std::string who = fmt("session %s from %u.%u.%u.%u port %d, accepted at t=%.6fs", c.s->id.c_str(), c.ip >> 24, (c.ip >> 16) & 255, (c.ip >> 8) & 255, c.ip & 255, c.s->port, c.t_acc / 1e6);
        bool cut = false; for (auto &d : w.daemons) if (d.pid == c.pid && ((d.t1 >= 0 && d.t1 < c.t_acc + 40 * SEC) || (d.t_term >= 0 && d.t_term < c.t_acc + 40 * SEC))) cut = true;
        int n = rejections(c.s->port);
        if (must) {
            w.stat["denied connections"]++;
            if (!c.wr.empty()) w.viol("acl", "response", who + " is denied, but the daemon sent it \"" + hexs(c.wr, 100) + "\"");
            if (!cut && (c.t_close < 0 || c.t_close > c.t_acc + 12 * SEC + pause_slack(w, c.t_acc, c.t_acc + 12 * SEC)) && K->now > c.t_acc + 13 * SEC + pause_slack(w, c.t_acc, K->now)) w.viol("acl", "not-closed", who + " is denied, but was not disconnected");
            bool gone = c.s->how == "rst" && c.s->t_close >= 0 && (c.t_close < 0 || c.s->t_close <= c.t_close);
            if (!lf.empty() && !cut && n != 1 && !(gone && n == 0)) w.viol("acl", "unlogged", who + fmt(" was rejected, the log has %d entries about it", n));
        } else if (!can) {
            w.stat["allowed connections"]++;
            if (n) w.viol("acl", "rejected", who + " is allowed, but was rejected");
            if (!cut && wrap && c.wr.empty() && c.rd.find('\n') != std::string::npos && c.s->t_close < 0) w.viol("acl", "unanswered", who + " is allowed, but got no response");
        }
    }
    if (!loop) for (auto &s : w.order) if (s->ip >> 24 != 127 && s->st == 5 && s->how == "refused") {
        bool up = false; for (auto &d : w.daemons) if (d.t0 < s->t_open && (d.t1 < 0 || d.t1 > s->t_open) && (d.t_term < 0 || d.t_term > s->t_open)) up = true;
        if (up) w.viol("acl", "unreachable", fmt("session %s from a remote address was refused although the daemon is to listen on all addresses", s->id.c_str()));
    }
}
