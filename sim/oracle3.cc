// Oracles for single mechanisms: telnet negotiation, log replay, queries, timestamps, reconnection.
#include "model.h"

static Time last_of(const World &w) {        // up to here everything due has happened
    Time lim = w.t_end > 0 ? w.t_end : K->now;
    for (auto &d : w.daemons) { if (d.t_term >= 0) lim = std::min(lim, d.t_term); if (d.t1 >= 0) lim = std::min(lim, d.t1); }
    return lim;
}
// every request for an unsupported option is refused exactly once, and nothing else is negotiated
void oracle_telnet(World &w) {
    for (auto &dp : w.devs) {
        Dev &d = *dp; if (d.sp.type != 'T') continue;
        if (d.tn_bad) w.viol("telnet", "invalid", fmt("console %s received an invalid telnet command from the daemon", d.sp.name.c_str()));
        std::map<std::pair<int, std::string>, std::pair<int, int>> due; std::map<std::pair<int, std::string>, int> got;     // due: surely, at most
        for (auto &r : d.tn_reqs) {
            if (r.t < 0) continue;
            size_t sp = r.cmd.find(' '); std::string verb = r.cmd.substr(0, sp); int opt = atoi(r.cmd.c_str() + sp + 1); std::string a;
            if (verb == "DO" && opt != 0 && opt != 3) a = fmt("WONT %d", opt);
            if (verb == "WILL" && opt != 0 && opt != 1 && opt != 3) a = fmt("DONT %d", opt);
            if (a.empty()) continue;
            auto &x = due[{r.conn, a}]; x.second++;
            Span u = r.conn >= 1 && r.conn <= (int)d.ups.size() ? d.ups[r.conn - 1] : Span{0, 0};
            Time lim = std::min(u.b, last_of(w));
            bool held = false; for (auto &q : d.stalls) if (q.b > r.t && q.a < lim) held = true;
            Time sl = 2 * SEC + pause_slack(w, r.t, r.t + 2 * SEC);
            if (!held && r.t + sl < lim && w.daemons.size() == 1) x.first++;
        }
        for (size_t i = 0; i < d.tn_cmds.size(); i++) got[{d.tn_conn[i], d.tn_cmds[i]}]++;
        for (int k = 1; k <= (int)d.ups.size() && w.daemons.size() == 1; k++) {      // the device is asked for the transparent mode, in both directions
            Span u = d.ups[k - 1]; Time sl = 2 * SEC + pause_slack(w, u.a, u.a + 2 * SEC); bool held = false; for (auto &q : d.stalls) if (q.b > u.a && q.a < u.a + sl) held = true;
            if (held || std::min(u.b, last_of(w)) < u.a + sl) continue;
            w.stat["telnet openings"]++;
            for (auto c : {"DO 0", "WILL 0"}) if (!got.count({k, c})) { w.viol("telnet", "binary", fmt("console %s: the daemon did not ask for binary transmission (\"%s\") on connection %d", d.sp.name.c_str(), c, k)); break; }
        }
        for (auto &x : due) {
            int n = got.count(x.first) ? got[x.first] : 0; w.stat["telnet requests"] += x.second.second;
            if (n < x.second.first) { w.viol("telnet", "unanswered", fmt("console %s: %d requests needed the answer \"%s\", the daemon sent %d", d.sp.name.c_str(), x.second.first, x.first.second.c_str(), n)); break; }
        }
        for (auto &g : got) {
            int most = due.count(g.first) ? due[g.first].second : 0; const std::string &c = g.first.second;
            if (c == "DO 0" || c == "DO 1" || c == "DO 3" || c == "WILL 0" || c == "WILL 3") most++;
            if (g.second > most) { w.viol("telnet", "unsolicited", fmt("console %s received \"%s\" %d times on one connection, at most %d are due: negotiation would not terminate", d.sp.name.c_str(), c.c_str(), g.second, most)); break; }
        }
    }
}
// a replay shows the latest 4 KB of the log as it was at that moment
void check_replays(World &w, Model &M) {
    if (w.daemons.size() != 1) return;
    for (auto &m : M.cs) {
        Sess *s = m.s; if (!m.granted || m.cmd == "QUERY" || !s || s->st != 2 || !s->x_done || !s->x_strict || s->granted.size() != 1 || m.hdr_eof) continue;
        Dev *d = w.dev(s->granted[0]); if (!d) continue;
        Parsed p = parse_stream(s->rx.substr(s->body), true);
        struct G { size_t off; const Replay *r; }; std::vector<G> got;
        for (auto &r : p.reps) got.push_back({r.off, &r});
        for (auto &n : p.notes) if (n.whole && n.text.find("] is not being logged -- cannot replay") != std::string::npos) got.push_back({n.off, nullptr});
        std::sort(got.begin(), got.end(), [](const G &a, const G &b) { return a.off < b.off; });
        size_t lo = 0; for (Time t : m.replays) if (t < s->x_cover - SEC) lo++;
        if (got.size() > m.replays.size()) { w.viol("replay", "extra", fmt("session %s received %zu replays, it had asked for %zu", s->id.c_str(), got.size(), m.replays.size())); continue; }
        if (got.size() < lo) { w.viol("replay", "missing", fmt("session %s received %zu replays, it had asked for %zu", s->id.c_str(), got.size(), lo)); continue; }
        std::string L; std::vector<Mark> lm; for (auto &x : w.log_writes(d->sp)) { L += x.second; lm.push_back({x.first, L.size()}); }
        auto dn = log_down(w, *d); bool had = !dn.empty();        // while writing to a log fails, what it holds is not known
        for (size_t i = 0; i < got.size(); i++) {
            Time t = m.replays[i]; const Replay *r = got[i].r;
            bool un = overlaps(dn, t - SEC, t + 2 * SEC + pause_slack(w, t, t + SEC));
            if (!r) { if (!d->sp.log.empty() && !un) w.viol("replay", "refused", fmt("session %s was told that console %s is not being logged (t=%.3fs), although it is", s->id.c_str(), d->sp.name.c_str(), t / 1e6)); continue; }
            if (d->sp.log.empty()) { w.viol("replay", "no-log", fmt("session %s received a replay of console %s, which has no log", s->id.c_str(), d->sp.name.c_str())); continue; }
            if (un || !r->whole) continue;
            size_t a = before(lm, t - 1), b = upto(lm, t + 2 * SEC + pause_slack(w, t, t + 2 * SEC)); bool ok = false; const std::string &D = r->data; bool longer = false;
            for (size_t x = std::max(a, D.size()); x <= b && !ok; x++) {
                if (L.compare(x - D.size(), D.size(), D)) continue;
                if (D.size() == std::min<size_t>(4096, x)) ok = true;
                else if (had && D.size() < 4096) ok = true;     // what was logged before the failure is gone
                else longer = true;
            }
            w.stat["replays checked"]++; w.stat[D.size() >= 4096 ? "replays full" : "replays short"]++;
            if (ok) continue;
            size_t k = 0; bool part = false; for (size_t q = D.size(); q >= 32 && !part; q--) for (size_t x = std::max(a, q); x <= b; x++) if (!L.compare(x - q, q, D, D.size() - q, q)) { part = true; k = q; break; }
            w.viol("replay", longer ? "length" : part ? "stale" : "content", fmt("the replay of console %s for session %s at t=%.3fs has %zu bytes \"%s\"; the last %zu of them are the latest logged ones, %zu to %zu bytes had been logged", d->sp.name.c_str(), s->id.c_str(), t / 1e6, D.size(), hexs(D.substr(0, 60)).c_str(), longer ? D.size() : k, a, b));
        }
    }
}
// attempts to reach a console: never two at once, spaced and backing off while it cannot be reached, immediate when asked for
void check_reconnects(World &w, Model &M) {
    for (auto &dp : w.devs) {
        Dev &d = *dp; char ty = d.sp.type; if (ty == 'S') continue;
        for (auto &a : d.atts) if (a.overlap) { w.viol("dup", std::string("connection-") + ty, fmt("console %s (type %c): a new connection was started at t=%.3fs while the previous one was still open", d.sp.name.c_str(), ty, a.t / 1e6)); break; }
        if (w.daemons.size() != 1) continue;
        bool backward = false; Time back = 0; for (size_t i = 0; i < w.jumps.size(); i++) { Time prev = i ? w.jumps[i - 1].second : 0; if (w.jumps[i].second < prev) backward = true, back += prev - w.jumps[i].second; }
        (void)back; (void)backward;
        const Time MIN = (ty == 'T' ? 15 : ty == 'P' ? 60 : ty == 'U' ? 1 : 60) * SEC, MAX = (ty == 'U' ? 60 : 1800) * SEC, STABLE = (ty == 'T' ? 15 : 60) * SEC, EPS = 500 * MS + 4 * K->kn.lat + 4 * K->kn.jitter;
        Time look = 0; for (auto &o : w.plan.ops) if (o.k == "rdns" || o.k == "dns") look = std::max<Time>(look, atol(o.a.back().c_str()) * MS);     // an attempt begins with a look-up of the name
        std::vector<Span> maybe; for (auto &m : M.cs) if (m.granted && m.cmd != "QUERY" && m.c->wr.find("CONSOLE='" + d.sp.name + "'") != std::string::npos) maybe.push_back({m.t_grant - EPS, m.t_grant + SEC + EPS + look});
        auto triggered = [&](Time t) {
            for (auto &m : maybe) if (t >= m.a && t <= m.b + pause_slack(w, m.a, t)) return true;
            for (Time g : d.created) if (t >= g - EPS && t <= g + EPS + pause_slack(w, g - EPS, t)) return true;
            return false;
        };
        bool quietclock = w.jumps.empty();
        bool zero = ty == 'T' || ty == 'P'; Time g1 = -1; bool g1ok = false;       // zero: the next retry may be immediate
        auto endof = [&](const Dev::Att &a, bool *was_up) { *was_up = a.up >= 0; if (a.up >= 0) return d.ups[a.up].b; return a.fail == FOREVER ? a.t : a.fail; };
        bool pauses = !w.daemon_stopped.empty(), dnsops = false; for (auto &o : w.plan.ops) if (o.k == "dns" || o.k == "fault" || o.k == "deny") dnsops = true;
        for (size_t i = 0; quietclock && i + 1 < d.atts.size(); i++) {
            bool up; Time f = endof(d.atts[i], &up); Time b = d.atts[i + 1].t; if (f == FOREVER || f > b) f = b;
            if (up && d.ups[d.atts[i].up].b - d.ups[d.atts[i].up].a > STABLE - EPS) zero = ty != 'I' && ty != 'U';
            Time gap = b - f; bool tr = triggered(b);
            bool free_ = tr || (zero && gap < MIN - EPS) || (ty == 'I' && up);
            if (!free_ && gap < MIN - EPS - pause_slack(w, f - SEC, b)) { w.viol("spacing", std::string("short-") + ty, fmt("console %s (type %c): an attempt at t=%.3fs followed a failure at t=%.3fs by %.3f s, the minimum interval is %ld s", d.sp.name.c_str(), ty, b / 1e6, f / 1e6, gap / 1e6, (long)(MIN / SEC))); break; }
            if (zero && !(tr && ty == 'P' && gap >= 0)) zero = false;
            w.stat["retries"]++;
            if (!tr && !pauses && !dnsops && !up && gap > MAX + EPS && !w.plan.has("sysfaults")) { w.viol("spacing", std::string("long-") + ty, fmt("console %s (type %c): an attempt at t=%.3fs followed a failure at t=%.3fs by %.3f s, the maximum interval is %ld s", d.sp.name.c_str(), ty, b / 1e6, f / 1e6, gap / 1e6, (long)(MAX / SEC))); break; }
            // a connection that lasted starts the backing off over
            if (up && !tr && !pauses && !dnsops && !w.plan.has("sysfaults") && !w.plan.has("vanish") && d.ups[d.atts[i].up].b - d.ups[d.atts[i].up].a > STABLE + 2 * SEC) {
                w.stat["retries after a lasting connection"]++;
                if (gap > MIN + EPS + 2 * SEC + break_time(f, f + SEC)) { w.viol("spacing", std::string("stale-") + ty, fmt("console %s (type %c) lost at t=%.3fs a connection that had lasted %.3f s, but the next attempt was made only %.3f s later", d.sp.name.c_str(), ty, f / 1e6, (d.ups[d.atts[i].up].b - d.ups[d.atts[i].up].a) / 1e6, gap / 1e6)); break; }
            }
            Time o = d.atts[i].t;      // a session resets the delay, also while an attempt is pending
            bool inner = false; for (auto &m : maybe) if (m.b > o && m.a < b) inner = true; for (Time g : d.created) if (g > o - SEC && g < b + EPS) inner = true;
            bool ok = !tr && !inner && !up && !pauses && !dnsops;
            if (ok && g1ok && gap < std::min(2 * g1, MAX) - EPS) { w.viol("spacing", std::string("backoff-") + ty, fmt("console %s (type %c): after waiting %.3f s the daemon waited only %.3f s before its attempt at t=%.3fs", d.sp.name.c_str(), ty, g1 / 1e6, gap / 1e6, b / 1e6)); break; }
            if (ok && g1ok && g1 >= MIN - EPS && gap < std::min<Time>(MAX, g1 * 3) && gap > 0) w.stat["backoffs checked"]++;
            g1 = gap; g1ok = ok;
        }
        // a new session, or a new socket file, leads to an attempt at once unless one is under way
        if (w.plan.has("sysfaults") || dnsops || pauses) continue;
        auto expect = [&](Time t, const char *what) {
            if (t > last_of(w) - 2 * SEC) return;
            for (auto &u : d.ups) if (u.a <= t + SEC && u.b >= t - 2 * SEC) return;
            for (auto &a : d.atts) { if (a.t >= t - SEC && a.t <= t + SEC) return; bool up; if (a.t < t && endof(a, &up) > t - SEC) return; }
            w.viol("reconnect", std::string("trigger-") + ty, fmt("console %s (type %c) was not connected at t=%.3fs when %s, and no attempt was made", d.sp.name.c_str(), ty, t / 1e6, what));
        };
        for (auto &c : w.order) if (c->st == 2 && c->cmd != "QUERY" && std::find(c->granted.begin(), c->granted.end(), d.sp.name) != c->granted.end() && c->holds.empty() && (c->t_close < 0 || c->t_close > c->t_ok + 2 * SEC)) { w.stat["trigger checks"]++; expect(c->t_ok, "a session was opened"); }
        for (Time t : d.created) if (t < w.t_heal) { w.stat["creations"]++; expect(t, "its socket was created"); }
    }
}
