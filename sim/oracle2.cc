// Oracles built on the session model: access, notices, input, breaks, resets.
#include "model.h"
#include <csignal>

// ------------------------------------------------------------- names
static bool name_less(const std::string &a, const std::string &b) {      // by name, trailing numbers in numeric order
    auto tail = [](const std::string &s) { size_t e = s.size(); while (e && isdigit((unsigned char)s[e - 1])) e--; return e; };
    size_t i = tail(a), j = tail(b);
    if (i < a.size() && j < b.size() && a.substr(0, i) == b.substr(0, j)) {
        auto num = [](std::string s) { size_t z = s.find_first_not_of('0'); return z == std::string::npos ? std::string() : s.substr(z); };
        std::string x = num(a.substr(i)), y = num(b.substr(j)); return x.size() != y.size() ? x.size() < y.size() : x < y;
    }
    return a < b;
}
std::vector<std::string> matching(World &w, const std::vector<std::string> &pats, bool regex, bool *bad) {
    std::vector<std::string> v; *bad = false;
    if (regex) {
        std::string all; for (auto &p : pats) { if (!all.empty()) all += "|"; all += p; } if (pats.empty()) all = ".*";
        regex_t r; if (regcomp(&r, all.c_str(), REG_EXTENDED | REG_ICASE)) { *bad = true; return v; }
        for (auto &d : w.devs) { regmatch_t m; if (!regexec(&r, d->sp.name.c_str(), 1, &m, 0) && m.rm_so == 0 && m.rm_eo == (int)d->sp.name.size()) v.push_back(d->sp.name); }
        regfree(&r);
    } else for (auto &d : w.devs) {
        bool hit = pats.empty(); for (auto &p : pats) if (!fnmatch(p.c_str(), d->sp.name.c_str(), 0)) hit = true;
        if (hit) v.push_back(d->sp.name);
    }
    std::stable_sort(v.begin(), v.end(), name_less);
    return v;
}

// ------------------------------------------------------------- model
Model::Model(World &w) : w(w) {
    for (auto &d : w.devs) { cons.push_back(std::make_unique<MCons>()); cons.back()->d = d.get(); }
    for (auto &l : w.plan.conf) { size_t q = l.find("resetcmd="); if (q != std::string::npos) { has_reset = true; size_t a = l.find('"', q), b = l.find('"', a + 1); resetcmd = l.substr(a + 1, b - a - 1); } }
}
void Model::note(MC &m, Time t, const std::string &k, const std::string &alt) { if (m.eof || m.closed || m.quiet) return; m.exp.push_back({t, k, alt}); }
void Model::notify(MCons &d, Time t, const std::string &k, const std::string &alt) {
    d.exp.push_back({t, k, alt});
    for (auto m : d.readers) note(*m, t, k, alt);
    for (auto m : d.writers) if (std::find(d.readers.begin(), d.readers.end(), m) == d.readers.end()) note(*m, t, k, alt);
}
void Model::link(MC &m, MCons &d, Time t) {
    bool stolen = m.F && !d.writers.empty(); std::string n = "Console [" + d.d->sp.name + "] ";
    notify(d, t, n + (stolen ? "stolen" : "joined") + (m.bcast ? " for B/C" : "") + " by " + m.who());
    for (auto x : d.writers) note(m, t, n + (stolen ? "stolen from " : "joined with ") + x->who());
    if (stolen) { auto old = d.writers; for (auto x : old) { unlink_all(*x, t); x->t_stolen = t; x->was_stolen = true; } w.stat["steals"]++; }
    else if (!d.writers.empty()) w.stat["joins"]++;
    d.writers.push_back(&m); m.to.push_back(&d);
}
template <class T> static bool drop_from(std::vector<T> &v, T x) { auto i = std::find(v.begin(), v.end(), x); if (i == v.end()) return false; v.erase(i); return true; }
void Model::unlink_to(MC &m, MCons &d, Time t) {
    drop_from(m.to, &d);
    if (drop_from(d.writers, &m)) notify(d, t, "Console [" + d.d->sp.name + "] departed by " + m.who());
    if (!m.from && m.to.empty() && !m.eof) { m.eof = true; m.t_eof = t; }
}
void Model::unlink_all(MC &m, Time t) {
    if (m.from) { drop_from(m.from->readers, &m); m.from = nullptr; if (m.to.empty() && !m.eof) { m.eof = true; m.t_eof = t; } }
    while (!m.to.empty()) unlink_to(m, *m.to[0], t);
}
void Model::header(MC &m, Time t) {            // consume greeting and request
    (void)t; std::string &rd = m.c->rd;
    while (m.line < 2) {
        static const size_t LIM = 2047; size_t start = m.line == 0 ? 0 : m.names[0].size(), z = start;
        while (z < m.hdr && z - start < LIM && rd[z] != '\n') z++;
        bool nl = z < m.hdr && z - start < LIM && rd[z] == '\n'; size_t len = nl ? z + 1 - start : z - start;
        if (!nl && len < LIM && !(m.hdr_eof && len)) return;
        m.names.push_back(rd.substr(start, len)); m.line++;
        std::string &l = m.names.back(); size_t p = 0;
        if (m.line == 1) { m.user = attr(l, "USER", &p); p = 0; m.tty = attr(l, "TTY", &p); }
        else {
            m.cmd = l.substr(0, l.find_first_of(" \n"));
            for (;;) { std::string n = attr(l, "CONSOLE", &p); if (p == std::string::npos) break; if (!n.empty()) m.pats.push_back(n); }
            m.F = l.find("OPTION=FORCE") != std::string::npos; m.J = l.find("OPTION=JOIN") != std::string::npos; m.quiet = l.find("OPTION=QUIET") != std::string::npos; m.regex = l.find("OPTION=REGEX") != std::string::npos; m.bflag = l.find("OPTION=BROADCAST") != std::string::npos;
        }
    }
}
void Model::granted(MC &m, Time t) {
    m.granted = true; m.t_grant = t; size_t e = m.c->wr.find('\n'); std::string l = m.c->wr.substr(e + 1); size_t p = 0; std::vector<MCons *> v;
    l = l.substr(0, l.find('\n'));
    for (;;) { std::string n = attr(l, "CONSOLE", &p); if (p == std::string::npos) break; MCons *c = con(n); if (!c) { w.viol("access", "unknown-console", "a session was granted the unknown console " + n); continue; } v.push_back(c); }
    if (m.cmd == "QUERY" || v.empty()) return;
    if (m.quiet) m.ever_quiet = true;
    m.bcast = m.bflag && v.size() > 1; w.stat["grants"]++;
    std::string who = m.s ? m.s->id : m.user;
    if (m.cmd == "MONITOR") { if (v.size() > 1) w.viol("access", "many", "monitor session " + who + " was granted several consoles"); v[0]->readers.push_back(&m); m.from = v[0]; return; }
    if (v.size() > 1 && !m.bflag) w.viol("access", "many", "session " + who + " was granted several consoles without asking for a broadcast");
    if (!m.F && !m.J) for (auto c : v) if (!c->writers.empty())
        w.viol("access", "shared", fmt("session %s was granted write access to %s at t=%.6fs without force or join while session %s holds it", who.c_str(), c->d->sp.name.c_str(), t / 1e6, c->writers[0]->user.c_str()));
    for (auto c : v) link(m, *c, t);
    if (!m.bcast) { v[0]->readers.push_back(&m); m.from = v[0]; }
}
void Model::refused(MC &m, Time t) {
    if (m.code != 7) return;
    std::string who = m.s ? m.s->id : m.user; bool bad; auto v = matching(w, m.pats, m.regex, &bad); bool held = false;
    if (m.F || m.J) { w.viol("access", "false-busy", "session " + who + " asked to force or join and was refused as busy"); return; }
    if (m.cmd != "CONNECT") { w.viol("access", "false-busy", "session " + who + " asked for no write access and was refused as busy"); return; }
    for (auto &n : v) if (MCons *c = con(n)) if (!c->writers.empty()) held = true;
    w.stat["busy refusals"]++;
    if (!held) w.viol("access", "false-busy", fmt("session %s was refused as busy at t=%.6fs although no session holds write access to any of its consoles", who.c_str(), t / 1e6));
}
void Model::reset(MC &m, Time t) {
    if (!has_reset) return;
    for (auto d : m.to) {
        std::string n = d->d->sp.name, cmd = resetcmd; size_t q; while ((q = cmd.find("%N")) != std::string::npos) cmd.replace(q, 2, n);
        ResetRun *r = nullptr; Time lim = t + 2 * SEC + pause_slack(w, t, t + 2 * SEC);
        // the daemon acts on what it read before it reads from a session again
        { auto i = std::upper_bound(main_reads.begin(), main_reads.end(), t); if (i != main_reads.end()) lim = std::min(lim, *i); }
        for (auto &x : w.resets) if (!used.count(x.get()) && x->cmd == cmd && x->tf >= t && x->tf <= lim) { r = x.get(); break; }
        MRun *last = nullptr; for (auto &x : d->resets) if (x.ran) last = &x;
        bool surely = last && last->r && (last->r->t_end < 0 || last->r->t_end > t) && t < last->t + 59 * SEC;
        bool maybe = last && (!last->r || last->r->t_end < 0 || last->r->t_end > t - SEC - pause_slack(w, t - 2 * SEC, t)) && t < last->t + 63 * SEC;
        if (r && surely) w.viol("reset", "concurrent", fmt("a reset of console %s was started at t=%.3fs while the previous one is still running", n.c_str(), r->t / 1e6));
        if (!r && !maybe && !w.plan.has("resetfaults") && t < w.t_end) w.viol("reset", "not-run", fmt("session %s requested a reset of console %s at t=%.3fs, no command was run", m.user.c_str(), n.c_str(), t / 1e6));
        if (r) used.insert(r);
        d->resets.push_back({t, m.user, r, r != nullptr}); w.stat[r ? "resets run" : "resets refused"]++;
        if (r) notify(*d, t, "Console [" + n + "] reset by <" + m.user + "@", w.plan.has("resetfaults") ? "Unable to reset console [" + n + "]" : "");
        else notify(*d, t, "Ignoring reset of console [" + n + "]", w.plan.has("resetfaults") ? "Unable to reset console [" + n + "]" : "");
    }
}
void Model::byte(MC &m, unsigned char c, Time t) {
    auto put = [&](unsigned char b) {
        for (auto d : m.to) { d->in += (char)b; d->it.push_back(t); if (d->in.size() - std::min(d->in.size(), upto(d->d->sm, t)) > 7800) d->over = true; }
    };
    if (!m.esc) { if (c == 255) m.esc = true; else put(c); return; }
    m.esc = false;
    auto access = [&](bool want) { if (m.bcast || !m.from) return; MCons *d = m.from; bool got = !m.to.empty(); if (got == want) return; if (got) unlink_to(m, *d, t); else link(m, *d, t); };
    switch (c) {
    case 255: put(c); break;
    case 'B': for (auto d : m.to) d->brk.push_back({d->in.size(), t}); break;
    case 'D': put(127); break;
    case 'F': m.F = true; m.J = false; access(true); break;
    case 'J': m.F = false; m.J = true; access(true); break;
    case 'M': m.F = m.J = false; access(false); break;
    case 'L': if (m.from && !m.eof) m.replays.push_back(t); break;
    case 'Q': m.quiet = !m.quiet; m.ever_quiet = true; m.quiet_at.push_back({t, m.quiet}); if (!m.eof && !m.closed) m.exp.push_back({t, m.quiet ? "Quiet-mode enabled" : "Quiet-mode disabled", ""}); break;
    case 'R': reset(m, t); break;
    case 'Z': m.susp = !m.susp; m.susp_at.push_back({t, m.susp}); break;
    default: break;
    }
}
void Model::run() {
    for (auto &c : w.conns) { cs.emplace_back(); MC &m = cs.back(); m.c = &c; m.s = c.s; m.daemon = c.pid; auto i = K->rdns.find(c.ip); m.host = i == K->rdns.end() ? "" : i->second; size_t q = m.host.find('.'); if (q != std::string::npos) m.host.resize(q); if (m.host.empty()) m.host = fmt("%u.%u.%u.%u", c.ip >> 24, (c.ip >> 16) & 255, (c.ip >> 8) & 255, c.ip & 255); }
    std::vector<size_t> wn(cs.size(), 0);
    { std::map<int, std::pair<size_t, int>> st; for (auto &e : w.sev) if (e.k == 'R') { auto &x = st[e.conn]; if (x.second >= 2) main_reads.push_back(e.t); const std::string &d = w.conns[e.conn].rd; for (size_t i = x.first; i < x.first + e.n && i < d.size(); i++) if (d[i] == '\n') x.second++; x.first += e.n; } }
    for (ev_i = 0; ev_i < w.sev.size(); ev_i++) {
        auto &e = w.sev[ev_i];
        if (e.k == 'X') {
            ended[e.conn] = e.t;
            for (auto &m : cs) if (m.daemon == e.conn && !m.closed) { m.closed = true; m.from = nullptr; m.to.clear(); }
            for (auto &c : cons) { c->readers.clear(); c->writers.clear(); }
            continue;
        }
        MC &m = cs[e.conn]; if (m.closed) continue;
        switch (e.k) {
        case 'W': {
            wn[e.conn] += e.n;
            if (m.susp && !m.eof && !m.viol_susp && e.t > m.susp_at.back().first + 100 * MS) { m.viol_susp = true; w.viol("suspend", "sent", fmt("session %s was sent %zu bytes at t=%.6fs while suspended since t=%.6fs", m.s ? m.s->id.c_str() : m.user.c_str(), e.n, e.t / 1e6, m.susp_at.back().first / 1e6)); }
            if (m.decided) break;
            std::string wr = m.c->wr.substr(0, wn[e.conn]); size_t a = wr.find('\n'); if (a == std::string::npos) break;
            if (wr.compare(0, 2, "OK")) { m.decided = true; break; }
            size_t b = wr.find('\n', a + 1); if (b == std::string::npos) break;
            m.decided = true;
            if (wr.compare(a + 1, 2, "OK") == 0) granted(m, e.t);
            else { size_t p = a; m.code = atoi(attr(wr, "CODE", &p).c_str()); refused(m, e.t); }
            break; }
        case 'R':
            m.rpos = m.hdr + e.n;
            if (m.line < 2) { m.hdr = m.rpos; header(m, e.t); }
            else { for (size_t i = m.hdr; i < m.rpos; i++) if (m.granted) byte(m, (unsigned char)m.c->rd[i], e.t); m.hdr = m.rpos; }
            break;
        case 'E': if (m.line < 2) { m.hdr_eof = true; header(m, e.t); } if (m.granted && !m.eof) { m.eof = true; m.t_eof = e.t; } break;
        case 'C': if (m.granted) { m.eof = true; if (m.t_eof < 0) m.t_eof = e.t; m.closed = true; unlink_all(m, e.t); } m.closed = true; break;
        }
    }
}

// ------------------------------------------------------------- checks on the model
static bool modelled(const std::string &t) {
    if (!t.compare(0, 16, "Ignoring reset o") || !t.compare(0, 11, "Quiet-mode ") || !t.compare(0, 15, "Unable to reset")) return true;
    if (t.compare(0, 9, "Console [")) return false;
    size_t q = t.find("] "); if (q == std::string::npos) return false;
    static const char *k[] = {"joined by <", "joined for B/C by <", "stolen by <", "stolen for B/C by <", "departed by <", "joined with <", "stolen from <", "reset by <"};
    for (auto x : k) if (!t.compare(q + 2, strlen(x), x)) return true;
    return false;
}
static bool agrees(const MNote &n, const std::string &t) { return !t.compare(0, n.key.size(), n.key) || (!n.alt.empty() && !t.compare(0, n.alt.size(), n.alt)); }
static void compare_notes(World &w, const std::string &who, const std::vector<MNote> &exp, const std::vector<Notice> &got, Time cover, bool full, const char *sig) {
    size_t i = 0;
    for (auto &n : got) {
        if (!modelled(n.text)) continue;
        if (i >= exp.size()) { w.viol("notice", std::string(sig) + "unexpected", fmt("%s received the unexpected message \"%s\"", who.c_str(), n.text.c_str())); return; }
        if (!agrees(exp[i], n.text)) { w.viol("notice", std::string(sig) + "wrong", fmt("%s received \"%s\" where \"%s...\" is due (t=%.3fs)", who.c_str(), n.text.c_str(), exp[i].key.c_str(), exp[i].t / 1e6)); return; }
        i++;
    }
    w.stat["notices checked"] += i;
    if (i < exp.size() && (full || exp[i].t < cover)) w.viol("notice", std::string(sig) + "missing", fmt("%s did not receive \"%s...\" (t=%.3fs)", who.c_str(), exp[i].key.c_str(), exp[i].t / 1e6));
}
static bool fault_seen(const World &w, const std::string &pre) { for (auto &f : K->fault_hits) if (!f.first.compare(0, pre.size(), pre) && f.second) return true; (void)w; return false; }
static Time term_of(const World &w, int pid) { for (auto &d : w.daemons) if (d.pid == pid) { Time t = FOREVER; if (d.t_term >= 0) t = d.t_term; if (d.t1 >= 0) t = std::min(t, d.t1); return t; } return FOREVER; }

static void check_notices(World &w, Model &M) {
    for (auto &m : M.cs) {
        if (!m.granted || m.cmd == "QUERY") continue;
        Sess *s = m.s; if (!s || s->st != 2) continue;
        if (!s->x_done || !s->x_strict) continue;
        Parsed p = parse_stream(s->rx.substr(s->body), true);
        if (!p.notes.empty() && !p.notes.back().whole) p.notes.pop_back();
        bool full = m.was_stolen && s->how == "eof" && s->eof_err == 0 && s->t_half < 0 && m.t_stolen < term_of(w, m.daemon) - 5 * SEC;
        for (auto &o : w.plan.ops) if (o.k == "fault" && o.a.size() > 1 && (o.a[1] == "sess" || o.a[1] == "*")) full = false;
        compare_notes(w, "session " + s->id, m.exp, p.notes, s->x_cover, full, "");
    }
}
// connects and disconnects of the device, as its sessions are told about them
static void check_device_notices(World &w, Model &M) {
    if (!w.jumps.empty()) return;
    for (auto &m : M.cs) {
        Sess *s = m.s; if (!m.granted || m.cmd == "QUERY" || !s || s->st != 2 || !s->x_done || !s->x_strict || m.hdr_eof) continue;
        Parsed p = parse_stream(s->rx.substr(s->body), true);
        if (!p.notes.empty() && !p.notes.back().whole) p.notes.pop_back();
        if (s->has('Q') && m.quiet_at.empty()) for (auto &n : p.notes) if (n.text.find("connected ") != std::string::npos && n.text.find("Console [") == 0) { w.viol("notice", "quiet", fmt("session %s is in quiet mode but received \"%s\"", s->id.c_str(), n.text.c_str())); break; }
        if (m.ever_quiet || s->has('Q')) continue;
        for (auto &name : s->granted) {
            Dev *d = w.dev(name); if (!d) continue;
            Time on = s->t_ok + SEC + pause_slack(w, s->t_req, s->t_ok + 2 * SEC), off = s->x_cover - SEC;
            int up = 0, dn = 0, now = 0, last = -1; std::string pre = "Console [" + name + "] ";
            for (auto &n : p.notes) {
                if (n.text.compare(0, pre.size(), pre)) continue; std::string t = n.text.substr(pre.size());
                int k = !t.compare(0, 13, "connected to ") ? 1 : !t.compare(0, 18, "disconnected from ") ? 0 : !t.compare(0, 28, "is currently disconnected fro") || !t.compare(0, 26, "is currently disconnected ") ? 2 : -1;
                if (k < 0) continue;
                if (k == 2) { now++; if (now > 1) w.viol("notice", "device-repeated", fmt("session %s was told twice at its start that console %s is disconnected", s->id.c_str(), name.c_str())); continue; }
                (k ? up : dn)++;
                if (last == k) w.viol("notice", "device-repeated", fmt("session %s received \"%s\" twice in a row", s->id.c_str(), n.text.c_str()));
                last = k;
            }
            int upl = 0, upu = 0, dnl = 0, dnu = 0; bool sure_up = false, maybe_up = false;
            for (auto &u : d->ups) {
                Time need = 3 * SEC + pause_slack(w, u.a - SEC, u.a + 5 * SEC); bool lng = u.b > u.a + need;
                if (u.a > on && u.a < off && lng && u.a + need < off) upl++;
                if (u.b >= s->t_req) upu++;
                if (u.b < FOREVER && u.b > on && u.b + 2 * SEC < off && lng && u.a + need < u.b) dnl++;
                if (u.b >= s->t_req - 2 * SEC - pause_slack(w, s->t_req - 2 * SEC, s->t_req) && u.b < FOREVER) dnu++;
                if (u.a < s->t_req - 2 * SEC - pause_slack(w, u.a, s->t_req) && u.b > on + SEC) sure_up = true;
                if (u.a < on + SEC && u.b > s->t_req - 2 * SEC - pause_slack(w, s->t_req - 4 * SEC, s->t_req)) maybe_up = true;
            }
            for (auto &x : w.daemon_stopped) for (auto &u : d->ups) if (u.b >= x.a - SEC && u.a <= x.b + SEC) { dnl = 0; upl = 0; }
            if (w.plan.has("mayfail") || w.daemons.size() != 1) upl = dnl = 0;
            if (w.plan.has("rdns_wait")) upl = dnl = 0;
            w.stat["device notices"] += up + dn + now;
            const char *f = "session %s was told %d times that console %s %s; the device did so between %d and %d times while it was attached";
            if (up < upl || up > upu) w.viol("notice", up < upl ? "device-missing" : "device-extra", fmt(f, s->id.c_str(), up, name.c_str(), "connected", upl, upu));
            if (dn < dnl || dn > dnu) w.viol("notice", dn < dnl ? "device-missing" : "device-extra", fmt(f, s->id.c_str(), dn, name.c_str(), "disconnected", dnl, dnu));
            if (now && sure_up) w.viol("notice", "device-currently", fmt("session %s was told that console %s is disconnected although it was up", s->id.c_str(), name.c_str()));
            if (!now && !maybe_up && off > on + SEC) w.viol("notice", "device-currently", fmt("session %s was not told that console %s is disconnected", s->id.c_str(), name.c_str()));
        }
    }
}
static void check_log_notices(World &w, Model &M) {
    if (w.daemons.size() != 1) return;
    for (auto &c : M.cons) {
        if (c->d->sp.log.empty() || !log_down(w, *c->d).empty()) continue;
        std::string L; for (auto &x : w.log_writes(c->d->sp)) L += x.second;
        std::vector<Notice> v; size_t i = 0;                 // a processed log starts a new line before every message
        while ((i = L.find(PRE, i)) != std::string::npos) { size_t e = L.find("\r\n", i + PRE.size()); if (e == std::string::npos) break; Notice n; n.text = L.substr(i + PRE.size(), e - i - PRE.size()); n.whole = true; v.push_back(n); i = e; }
        std::vector<MNote> exp; for (auto &n : c->exp) exp.push_back(n);
        Time lim = std::min(w.t_end, w.daemons[0].t1 >= 0 ? w.daemons[0].t1 : FOREVER) - SEC; for (auto &s : w.daemon_stopped) lim = std::min(lim, s.b >= lim ? s.a : lim);
        compare_notes(w, "the log of " + c->d->sp.name, exp, v, lim, false, "log-");
    }
}
static void check_input(World &w, Model &M) {
    if (!w.clients.empty()) return;            // what the real client types is not in the model of the sessions (C22 judges it)
    for (auto &c : M.cons) {
        Dev &d = *c->d;
        if (w.daemons.size() != 1) continue;
        size_t exact = d.sp.type == 'T' || d.sp.type == 'P';
        Time lim = std::min(w.t_end > 0 ? w.t_end : K->now, w.daemons[0].t1 >= 0 ? w.daemons[0].t1 : FOREVER) - 2 * SEC;
        for (auto &s : w.daemon_stopped) if (s.b >= lim) lim = std::min(lim, s.a - SEC);
        bool steady = d.ups.size() == 1 && !c->over && d.stalls.empty() && !d.tn_bad;
        if (steady && !c->it.empty() && c->it[0] < d.ups[0].a + SEC) steady = false;
        if (steady && !c->brk.empty() && c->brk[0].second < d.ups[0].a + SEC) steady = false;
        if (steady && d.ups[0].b < lim) steady = false;
        if (d.sp.type == 'P' && c->in.find('&') != std::string::npos) steady = false;
        if (steady) {
            w.stat["inputs exact"]++;
            size_t k = 0; while (k < d.sink.size() && k < c->in.size() && d.sink[k] == c->in[k]) k++;
            size_t need = 0; while (need < c->it.size() && c->it[need] < lim) need++;
            if (k < d.sink.size()) w.viol("input", "exact", fmt("console %s (type %c) received \"%s\" after %zu correct bytes; what its sessions sent with write access continues \"%s\"%s", d.sp.name.c_str(), d.sp.type, hexs(d.sink.substr(k, 40)).c_str(), k, hexs(c->in.substr(k, 40)).c_str(), k < c->it.size() ? fmt(" (t=%.3fs)", c->it[k] / 1e6).c_str() : ""));
            else if (d.sink.size() < need) w.viol("input", "exact-lost", fmt("console %s (type %c) received %zu of the %zu bytes its sessions sent with write access", d.sp.name.c_str(), d.sp.type, d.sink.size(), need));
            // breaks
            bool bf = fault_seen(w, "tcsendbreak") || d.sp.type == 'U';
            size_t bn = 0; for (auto &b : c->brk) if (b.second < lim) bn++;
            if (d.sink_breaks.size() > c->brk.size() || (!bf && d.sink_breaks.size() < bn)) w.viol("break", "count", fmt("console %s (type %c): %zu breaks were requested with write access, %zu were delivered", d.sp.name.c_str(), d.sp.type, c->brk.size(), d.sink_breaks.size()));
            else if (exact) for (size_t i = 0; i < d.sink_breaks.size(); i++) if (d.sink_breaks[i] != c->brk[i].first) { w.viol("break", "position", fmt("console %s (type %c): break %zu arrived after %zu bytes of input, it was requested after %zu", d.sp.name.c_str(), d.sp.type, i, d.sink_breaks[i], c->brk[i].first)); break; }
            if (bn) w.stat["breaks checked"] += bn;
        } else if (d.sink_breaks.size() > c->brk.size()) w.viol("break", "count", fmt("console %s (type %c): %zu breaks were requested with write access, %zu were delivered", d.sp.name.c_str(), d.sp.type, c->brk.size(), d.sink_breaks.size()));
        for (size_t i = 0; i < d.break_t.size(); i++) {      // never before its request
            size_t n = 0; for (auto &b : c->brk) if (b.second <= d.break_t[i]) n++;
            if (n < i + 1) { w.viol("break", "early", fmt("console %s received a break at t=%.3fs that no session had requested with write access", d.sp.name.c_str(), d.break_t[i] / 1e6)); break; }
        }
    }
}
static void check_resets(World &w, Model &M) {
    for (auto &r : w.resets) {
        if (!M.used.count(r.get())) w.viol("reset", "spurious", fmt("the command \"%s\" was run at t=%.3fs without a reset request by a session with write access", r->cmd.c_str(), r->t / 1e6));
        Time end = r->t_end >= 0 ? r->t_end : K->now; Time sl = 3 * SEC + pause_slack(w, r->t, end);
        bool dead = false; for (auto &d : w.daemons) if (d.t1 >= 0 && d.t1 < r->t + 60 * SEC) dead = true;
        if (!dead && end > r->t + 60 * SEC + sl) w.viol("reset", "unbounded", fmt("reset command \"%s\" ran for %.1f s", r->cmd.c_str(), (end - r->t) / 1e6));
        if (!dead && r->kid) { Proc *k = K->proc(r->kid); Time ke = k && !k->alive ? k->t_exit : K->now; if (ke > r->t + 60 * SEC + sl) w.viol("reset", "child-survives", "a child of the reset command survived its time limit"); }
        if (r->t_end >= 0 && !dead && (r->status & 0x7f) && r->t_end < r->t + 58 * SEC) w.viol("reset", "killed-early", fmt("reset command \"%s\" was killed after %.1f s", r->cmd.c_str(), (r->t_end - r->t) / 1e6));
    }
}
static void check_release(World &w, Model &M) {
    for (auto &m : M.cs) {
        Sess *s = m.s; if (!s) continue;
        Time term = term_of(w, m.daemon);
        if (m.was_stolen && m.t_stolen < term - 8 * SEC) {
            Time lim = m.t_stolen + 5 * SEC + slack(w, *s) + pause_slack(w, m.t_stolen, m.t_stolen + 6 * SEC);
            bool ok = s->stalls.empty() && s->holds.empty() && !s->rate0 && s->cap >= 16384;
            if (ok && K->now > lim && (m.c->t_close < 0 || m.c->t_close > lim)) w.viol("access", "stolen-open", fmt("session %s, whose console was taken over at t=%.3fs, was not disconnected (%s)", s->id.c_str(), m.t_stolen / 1e6, m.c->t_close < 0 ? "never" : fmt("t=%.3fs", m.c->t_close / 1e6).c_str()));
        }
        Time te = s->t_close; if (s->t_half >= 0 && (te < 0 || s->t_half < te) && s->stalls.empty() && !s->rate0 && s->holds.empty()) te = s->t_half;
        if (te >= 0 && te < term - 8 * SEC && m.c->t_acc >= 0) {
            Time from = std::max(te, m.c->t_acc), lim = from + 5 * SEC + slack(w, *s) + pause_slack(w, from, from + 6 * SEC) + w.plan.num("rdns_wait", 0) * SEC;
            for (auto &h : s->holds) if (h.b >= te - 2 * SEC) lim = std::max(lim, h.b + 5 * SEC);
            if (s->how != "vanish" && K->now > lim && (m.c->t_close < 0 || m.c->t_close > lim)) w.viol("leak", "late", fmt("session %s ended (%s) at t=%.3fs, the daemon closed it %s", s->id.c_str(), s->how.c_str(), te / 1e6, m.c->t_close < 0 ? "never" : fmt("at t=%.3fs", m.c->t_close / 1e6).c_str()));
        }
    }
}
static void check_answers(World &w) {          // a complete request is answered promptly
    if (w.plan.has("nolatency")) return;
    for (auto &p : w.sess) {
        Sess &s = *p.second; if (s.t_req < 0 || s.has('r') || s.has('g') || !s.raw_req.empty()) continue;
        Time lim = s.t_req + 3 * SEC + slack(w, s) + pause_slack(w, s.t_req, s.t_req + 4 * SEC); for (auto &h : s.holds) if (h.b > s.t_req) lim = std::max(lim, h.b + SEC);
        bool over = false; for (auto &d : w.daemons) { if (d.t_term >= 0 && d.t_term < lim && d.t1 > s.t_req) over = true; if (d.t1 >= 0 && d.t1 < lim && d.t1 > s.t_open) over = true; }
        if (s.st == 1 && s.t_close < 0 && K->now > lim && !over) w.viol("latency", "answer", fmt("the request of session %s at t=%.3fs was not answered", s.id.c_str(), s.t_req / 1e6));
        if (s.st == 2 && s.t_ok > lim && !over) w.viol("latency", "answer", fmt("the request of session %s at t=%.3fs was answered %.3f s later", s.id.c_str(), s.t_req / 1e6, (s.t_ok - s.t_req) / 1e6));
    }
}
static void check_queries(World &w, Model &M) {
    for (auto &m : M.cs) {
        if (m.line < 2 || !m.decided) continue;
        std::string who = m.s ? "session " + m.s->id : "a session of " + m.user, req = m.names[1].substr(0, m.names[1].find('\n')); if (req.size() > 200) req.resize(200);
        if (m.cmd != "QUERY" && m.cmd != "CONNECT" && m.cmd != "MONITOR") continue;
        if (m.s && !m.s->raw_req.empty()) continue;
        const std::string &wr = m.c->wr; size_t a = wr.find('\n'), b = wr.find('\n', a + 1); if (a == std::string::npos || b == std::string::npos) continue;
        std::string l = wr.substr(a + 1, b - a - 1); bool bad; auto v = matching(w, m.pats, m.regex, &bad);
        if (m.pats.empty() && m.cmd != "QUERY") { v.clear(); bad = false; }
        bool many = v.size() > 1 && (m.cmd == "MONITOR" || (m.cmd == "CONNECT" && !m.bflag));
        bool ok = l.compare(0, 2, "OK") == 0; std::vector<std::string> got; size_t p = 0; w.stat["queries checked"]++;
        std::string what = fmt("%s (\"%s\") ", who.c_str(), req.c_str());
        if (!ok && w.plan.kn.p_eagain && (l.compare(0, 5, "ERROR") || l.find("Console [") != std::string::npos)) continue;      // the simulated socket refused that write
        if (!ok) {
            p = 0; std::string msg = attr(l, "MESSAGE", &p); int want = bad ? 3 : v.empty() ? 5 : many ? 6 : 0;
            if (msg.empty()) w.viol("query", "no-message", what + "was refused without a message: " + l);
            if (want && m.code != want) { w.viol("query", "code", fmt("%swas answered with error %d, %d is due (%zu consoles match)", what.c_str(), m.code, want, v.size())); continue; }
            if (!want && m.code != 7 && m.code != 1) { w.viol("query", "refused", fmt("%swas refused with \"%s\" although %zu consoles match", what.c_str(), l.c_str(), v.size())); continue; }
            if (m.code != 6) continue;
            p = b + 1; for (;;) { size_t e = wr.find('\n', p); if (e == std::string::npos) break; got.push_back(wr.substr(p, e - p)); p = e + 1; }
            if (msg.find(std::to_string(v.size())) == std::string::npos) w.viol("query", "count", what + "was told \"" + msg + fmt("\" although %zu consoles match", v.size()));
            if (m.s && got.size() < v.size() && (!m.s->stalls.empty() || m.s->rate0 || !m.s->holds.empty() || m.s->cap < 16384 || (m.c->t_close >= 0 && m.s->t_close >= 0 && m.s->t_close <= m.c->t_close) || m.s->t_eof < 0 || m.s->eof_err || w.plan.has("sysfaults"))) v.resize(got.size());
            w.stat["name lists checked"]++;
        } else {
            if (bad || v.empty() || many) { w.viol("query", "granted", fmt("%swas granted (%s), it %s", what.c_str(), l.substr(0, 200).c_str(), bad ? "has a bad pattern" : v.empty() ? "matches no console" : "matches too many consoles")); continue; }
            for (;;) { std::string n = attr(l, "CONSOLE", &p); if (p == std::string::npos) break; got.push_back(n); }
        }
        std::vector<std::string> x = got, y = v; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
        if (x != y) {
            std::string d; for (auto &n : y) if (!std::count(x.begin(), x.end(), n)) { d = "lacks " + n; break; }
            if (d.empty()) for (auto &n : x) if (std::count(x.begin(), x.end(), n) != std::count(y.begin(), y.end(), n)) { d = "has " + n + (std::count(y.begin(), y.end(), n) ? " twice" : " in excess"); break; }
            w.viol("query", "set", fmt("%swas answered with %zu consoles, %zu match: the answer %s", what.c_str(), x.size(), y.size(), d.c_str())); continue;
        }
        for (size_t i = 1; i < got.size(); i++) if (name_less(got[i], got[i - 1])) { w.viol("query", "order", fmt("%swas answered with %s before %s", what.c_str(), got[i - 1].c_str(), got[i].c_str())); break; }
    }
}
void oracle_access(World &w) {
    Model M(w); M.run();
    check_notices(w, M); check_device_notices(w, M); check_log_notices(w, M); check_input(w, M); check_resets(w, M); check_release(w, M); check_answers(w); check_queries(w, M); check_replays(w, M); check_reconnects(w, M);
}

void World::check_all() { oracle_telnet(*this); oracle_streams(*this); oracle_logs(*this); oracle_input(*this); oracle_access(*this); check_logfiles(*this); check_disturb(*this); check_tstamps(*this); check_logfaults(*this); check_restarts(*this); check_ctl(*this); check_acl(*this); check_clients(*this); check_private(*this); }
