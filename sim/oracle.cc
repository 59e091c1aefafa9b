// Oracles over the recorded history of a run.
#include "oracle.h"

std::string strip_notices(const std::string &s, std::vector<std::pair<size_t, std::string>> *out) {
    Parsed p = parse_stream(s, false);
    if (out) for (auto &n : p.notes) out->push_back({n.pos, n.text});
    return p.data;
}

// what a session must have received: whether it ever fell behind, and up to which time everything is due
struct Deliv { bool strict = true, behind = false; Time te = 0, tpk = 0, sl = 0, drain = 0, cover = 0, t_fast = 0; };
static Deliv deliv(const World &w, Sess &s, const SessState &st, const Dev *d, size_t a0, size_t note_bytes, const std::vector<size_t> &rep_bytes) {
    Deliv v; v.te = end_of(w, s); v.sl = slack(w, s); Time te = v.te, sl = v.sl;
    size_t peak = note_bytes, base = s.body;                     // how much output was waiting inside the daemon at most
    Time tpk = te; for (auto &c : w.conns) if (c.s == &s) tpk = std::max(tpk, c.t_close < 0 ? K->now : c.t_close);
    v.tpk = tpk;
    auto at = [&](Time t, size_t wr) {                           // note_bytes: messages that may have been waiting at any time; rep_bytes: replays, once asked for
        size_t fwd = d ? upto(d->cm, t) : 0; fwd = fwd > a0 ? fwd - a0 : 0; wr = wr > base ? wr - base : 0;
        size_t pend = fwd + note_bytes; for (size_t k = 0; k < rep_bytes.size() && k < st.replays.size() && st.replays[k] <= t; k++) pend += rep_bytes[k];
        peak = std::max(peak, pend > wr ? pend - wr : 0);
    };
    if (d) { peak = 0; for (auto &m : d->cm) if (m.t >= s.t_req && m.t <= tpk) at(m.t, upto(s.wm, m.t)); for (size_t i = 0; i < s.wm.size(); i++) if (s.wm[i].t >= s.t_req && s.wm[i].t <= tpk) at(s.wm[i].t, i ? s.wm[i - 1].n : 0); at(tpk, upto(s.wm, tpk)); }
    v.strict = peak <= 16383;
    v.drain = (Time)(16384 / std::max<size_t>(1, s.cap) + 1) * (2 * s.lat + 2 * K->kn.jitter);    // a slow link holds back one buffer's worth for this long
    if (s.cap >= 65536) v.drain = 0;
    Time cover = te - sl - v.drain;
    cover -= break_time(te - 3 * SEC, te);
    if (overlaps(w.daemon_stopped, te - 2 * SEC, te + SEC)) cover = te - 10 * SEC;
    v.t_fast = s.rate0 ? (w.t_heal >= 0 ? w.t_heal + SEC : FOREVER) : 0;       // reads at full speed from then on
    if (v.t_fast > te - sl) cover = 0, v.behind = true;
    std::vector<Span> idle = st.susp; for (auto &q : {s.stalls, s.holds}) idle.insert(idle.end(), q.begin(), q.end());
    for (bool more = true; more;) {           // a chain of pauses that lasted up to the end
        more = false;
        for (auto &x : idle) { Time c = x.a - sl - v.drain - break_time(x.a - 3 * SEC, x.a); if (x.a < te && c < cover && x.b > cover - 2 * SEC - sl) { cover = c; more = true; v.behind = true; } }
    }
    if (v.t_fast > cover) cover = 0, v.behind = true;            // paused ever since, and slow before
    v.cover = cover; s.x_done = true; s.x_strict = v.strict; s.x_cover = cover;
    return v;
}
static void stream_session(World &w, Sess &s) {
    if (s.st != 2 || s.cmd == "QUERY" || s.t_ok < 0) return;
    Parsed p = parse_stream(s.rx.substr(s.body), true);
    bool bcast = s.granted.size() > 1;
    SessState st = state_of(s);
    if (bcast) {
        if (!p.data.empty()) {
            std::string x = p.data; bool tail = x.size() < PRE.size() && PRE.compare(0, x.size(), x) == 0;
            if (!tail) w.viol("bcast", "output", fmt("broadcast session %s received console output \"%s\"", s.id.c_str(), hexs(x).c_str()));
        }
        deliv(w, s, st, nullptr, 0, p.note_bytes, {});
        return;
    }
    if (s.granted.empty()) return;
    Dev *d = w.dev(s.granted[0]); if (!d) { w.viol("stream", "unknown-console", "session granted an unknown console " + s.granted[0]); return; }
    size_t a0, a1; attach_range(w, s, *d, &a0, &a1);
    size_t whole = 0; for (auto &r : p.reps) whole += r.whole;
    size_t nb = p.note_bytes; std::vector<size_t> rb; std::string L; if (!p.reps.empty()) for (auto &x : w.log_writes(d->sp)) L += x.second;
    for (auto &r : p.reps) if (r.whole) {                         // a replay of the right length lost nothing in the buffer
        bool full = r.data.size() == 4096 ? L.find(r.data) != std::string::npos : r.data.size() < 4096 && !L.compare(0, r.data.size(), r.data);
        rb.push_back(full ? r.end - r.off : 4300); nb -= r.end - r.off;
    }
    while (rb.size() < st.replays.size()) rb.push_back(4300);                                        // may have been overwritten
    Deliv dv = deliv(w, s, st, d, a0, nb, rb);
    Time te = dv.te, sl = dv.sl, drain = dv.drain, cover = dv.cover, t_fast = dv.t_fast; bool strict = dv.strict, behind = dv.behind; size_t base = s.body;
    w.stat["peak"] = std::max(w.stat["peak"], (double)s.wn);
    if (!strict && st.replays.size() > whole) return;             // the marks of a replay were overwritten: its text looks like repeated output
    // a message cut short by the end of the session
    std::string D = p.data;
    auto trim_tail = [&](std::string x) { for (size_t k = std::min(x.size(), PRE.size() - 1); k > 0; k--) if (x.compare(x.size() - k, k, PRE, 0, k) == 0) return x.substr(0, x.size() - k); return x; };
    Match m = strict ? match_strict(D, d->consumed, a0, a1) : match_gaps(D, d->consumed, a0, a1, true);
    if (!m.ok && strict) { std::string t = trim_tail(D); if (t.size() != D.size()) { Match m2 = match_strict(t, d->consumed, a0, a1); if (m2.ok) m = m2; } }
    if (!m.ok) { w.viol("stream", m.why.substr(0, m.why.find(':')), fmt("session %s on console %s (type %c, %s): %s", s.id.c_str(), d->sp.name.c_str(), d->sp.type, strict ? "never behind by 16 KB" : "fell behind", m.why.c_str())); return; }
    // a session that only closed its own side and reads on is owed what the daemon had read by then
    if (strict && s.t_half >= 0 && s.how == "eof" && !s.eof_err && !w.plan.has("sysfaults")) {
        Time tE = -1; for (auto &c : w.conns) if (c.s == &s) for (auto &e : w.sev) if (e.k == 'E' && e.conn == c.id && tE < 0) tE = e.t;
        bool ended = false; for (auto &q : w.daemons) if ((q.t_term >= 0 && q.t_term <= s.t_eof) || (q.t1 >= 0 && q.t1 <= s.t_eof)) ended = true;
        if (s.opts.find('Q') != std::string::npos) ended = true;                     // is not told when its console is stolen
        for (auto &n : p.notes) if (n.text.find("] stolen ") != std::string::npos) ended = true;    // linked to the console no longer
        if (tE >= 0 && !ended && !overlaps(st.susp, tE - SEC, s.t_eof)) {
            size_t due = upto(d->cm, tE - 1); w.stat["half-closed sessions checked"]++;
            if (due > m.end && due > a1) w.viol("stream", "missing-half", fmt("session %s on console %s (type %c) closed its sending side and read until the daemon closed the connection at t=%.6fs, but did not receive the last %zu bytes read from the console before t=%.6fs", s.id.c_str(), d->sp.name.c_str(), d->sp.type, s.t_eof / 1e6, due - std::max(m.end, a1), tE / 1e6));
        }
    }
    size_t need = upto(d->cm, cover);
    if (cover > s.t_ok + sl && need > m.end && need > a1) {
        size_t miss = need - std::max(m.end, a1);
        if (miss) w.viol("stream", "missing-end", fmt("session %s on console %s (type %c) did not receive the last %zu bytes read from the console before t=%.6fs (session ended %s at t=%.6fs)", s.id.c_str(), d->sp.name.c_str(), d->sp.type, need - m.end, cover / 1e6, s.how.c_str(), te / 1e6));
    }
    if (!strict && !behind && m.ok && need > a1) {
        // the most recent 8 KB must have survived
        size_t want = std::min<size_t>(8192, need - a1);
        if (m.last_run < want && !m.gaps.empty() && m.gaps.back().a >= a1 && need <= m.end && m.end >= upto(d->cm, te) && m.gaps.back().b + want > m.end + 0) {
            bool junkcut = false; for (auto &n : p.notes) if (n.pos + want > D.size()) junkcut = true; for (auto &r : p.reps) if (r.pos + want > D.size()) junkcut = true;
            if (!junkcut) w.viol("stream", "recent-lost", fmt("session %s fell behind and lost recent output: the last contiguous piece has %zu bytes", s.id.c_str(), m.last_run));
        }
        for (auto &g : m.gaps) w.stat["gaps"]++, (void)g;
    }
    // output that was lost needs a session that was behind at that moment
    if (!strict) for (auto &g : m.gaps) {
        bool any = false;
        for (auto &mk : d->cm) if (mk.n > g.a && mk.t <= dv.tpk) { size_t wr = upto(s.wm, mk.t); wr = wr > base ? wr - base : 0; size_t pend = mk.n - a0 + p.note_bytes; pend = pend > wr ? pend - wr : 0; if (pend > 16383 - 400) any = true; }
        if (!any) w.viol("stream", "gap-not-behind", fmt("session %s lost %zu bytes although it was not behind", s.id.c_str(), g.b - g.a));
    }
    // timely delivery to a session that keeps reading
    if (strict && m.ok && drain < 200 * MS && s.stalls.empty() && s.holds.empty() && !w.plan.has("nolatency")) {
        size_t ri = 0, got = 0;
        for (auto &c : d->cm) {
            if (c.n <= a1 || c.t > te - 3 * SEC || c.t < t_fast) continue;
            if (overlaps(w.daemon_stopped, c.t - SEC, c.t + 3 * SEC)) continue;
            bool sus = false; for (auto &x : st.susp) if (x.a <= c.t + 3 * SEC && x.b >= c.t - SEC) sus = true;
            if (sus) continue;
            size_t n = upto(s.rm, c.t + 2 * SEC + 4 * s.lat);
            while (ri < p.at.size() && p.at[ri] + s.body < n) ri++;
            got = ri;
            if (m.start + got < c.n && got < D.size()) { w.viol("latency", "session", fmt("output read from console %s at t=%.3fs reached session %s more than 2 s later", d->sp.name.c_str(), c.t / 1e6, s.id.c_str())); break; }
        }
    }
    // messages are whole
    for (size_t i = 0; i + 1 < p.notes.size(); i++) if (strict && !p.notes[i].whole) w.viol("stream", "message-cut", "session " + s.id + " received an incomplete message: " + p.notes[i].text);
}

void oracle_streams(World &w) { for (auto s : w.order) stream_session(w, *s); }

// ------------------------------------------------------------- logs
struct LogModel {                             // documented transformation of a processed log
    bool san, ts; enum { INIT, DATA, CR, LF } st = INIT;
    std::string feed(unsigned char c, bool *stamp) {
        std::string o; *stamp = false;
        if (c == '\r') { if (st == DATA) st = CR; else if (st == INIT) { if (ts) *stamp = true; st = CR; } return o; }
        if (c == '\n') { if (st == INIT || st == LF) *stamp = ts; o = "\r\n"; st = LF; return o; }
        if (c == 0 && (st == CR || st == LF)) return o;
        if (st == CR) o = "\r\n";
        if (st != DATA) *stamp = ts;
        bool pre = *stamp && !o.empty();
        st = DATA; std::string d;
        if (san) { int k = c & 0x7f; if (k < 0x20) { d += (c & 0x80) ? '~' : '^'; d += (char)(k + '@'); } else if (k == 0x7f) { d += (c & 0x80) ? '~' : '^'; d += '?'; } else { if (c & 0x80) d += '`'; d += (char)k; } }
        else d += (char)c;
        (void)pre; split = o.size(); return o + d;
    }
    size_t split = 0;                         // the timestamp goes after this many bytes
};
std::string World::logopts(const ConsoleSpec &c) const {
    std::string o; for (auto &l : plan.conf) { size_t q = l.find("logopts="); if (q != std::string::npos) { size_t a = l.find('"', q), b = l.find('"', a + 1); o = l.substr(a + 1, b - a - 1); } }
    return o + "," + c.logopts;
}
// the console log as one history: every write in time order
std::vector<std::pair<Time, std::string>> World::log_writes(const ConsoleSpec &c) const {
    std::vector<std::pair<Time, std::string>> v;
    for (auto &p : paths_of(*this, c)) { auto i = logw.find(p); if (i != logw.end()) v.insert(v.end(), i->second.begin(), i->second.end()); }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    return v;
}
// can the log be the console's output with pieces missing, and fragments of messages left over, only inside the given zones?
static std::string zwhy;
static bool match_zones(const std::string &got, const std::string &ref, std::vector<std::pair<size_t, size_t>> z, size_t need) {
    std::sort(z.begin(), z.end()); std::vector<std::pair<size_t, size_t>> m;
    for (auto &x : z) { if (!m.empty() && x.first <= m.back().second) m.back().second = std::max(m.back().second, x.second); else m.push_back(x); }
    auto zone = [&](size_t j) -> const std::pair<size_t, size_t> * { for (auto &x : m) if (j >= x.first && j <= x.second) return &x; return nullptr; };
    std::vector<size_t> cur = {0}; std::map<size_t, int> junk;          // positions in ref; position -> junk bytes still allowed
    auto close = [&]() {
        std::sort(cur.begin(), cur.end()); cur.erase(std::unique(cur.begin(), cur.end()), cur.end());
        std::vector<size_t> o; size_t done = 0;
        for (size_t j : cur) { if (!o.empty() && j < done) continue; if (auto x = zone(j)) { for (size_t q = j; q <= x->second; q++) o.push_back(q); done = x->second + 1; } else { o.push_back(j); done = j + 1; } }
        cur.swap(o);
    };
    close();
    size_t work = 0;
    for (size_t i = 0; i < got.size(); i++) {
        unsigned char c = got[i]; std::vector<size_t> nx; std::map<size_t, int> nj; bool pr = (c >= 32 && c < 127) || c == '\r' || c == '\n';
        for (auto &y : junk) { if (pr && y.second > 0) nj[y.first] = y.second - 1; auto x = zone(y.first); for (size_t q = y.first; q <= x->second && q < ref.size(); q++) if ((unsigned char)ref[q] == c) nx.push_back(q + 1); }
        std::pair<size_t, size_t> const *lz = nullptr;
        for (size_t j : cur) { if (j < ref.size() && (unsigned char)ref[j] == c) nx.push_back(j + 1); if (pr) { auto x = zone(j); if (x && x != lz) { lz = x; auto &v = nj[j]; v = std::max(v, 160); } } }
        work += cur.size(); if (work > 400000000) return true;
        cur.swap(nx); junk.swap(nj); close();
        if (cur.empty() && junk.empty()) { zwhy = fmt("zones: mismatch at %zu of %zu after %s then %s", i, got.size(), hexs(got.substr(i > 60 ? i - 60 : 0, std::min<size_t>(i, 60))).c_str(), hexs(got.substr(i, 40)).c_str()); for (auto &x : m) zwhy += fmt(" zone %zu..%zu", x.first, x.second); return false; }
    }
    zwhy = fmt("zones: end %zu need %zu ref %zu", cur.empty() ? 0 : cur.back(), need, ref.size());
    for (size_t j : cur) if (j >= need) return true;
    for (auto &y : junk) if (zone(y.first)->second >= need) return true;
    return false;
}
static void log_console(World &w, Dev &d) {
    if (d.sp.log.empty()) return;
    std::string o = w.logopts(d.sp); bool san = opt_on(o, "sanitize", false), ts = opt_on(o, "timestamp", false);
    std::string L; for (auto &x : w.log_writes(d.sp)) L += x.second;
    // moments around which output read from the console need not have been logged
    std::vector<Span> excuse = w.log_excuse;
    Time tlast = FOREVER;
    for (auto &x : w.daemons) { if (x.t1 >= 0 && x.why == "kill") excuse.push_back({x.t1 - 500 * MS - pause_slack(w, x.t1 - SEC, x.t1), x.t1 + MS}); if (x.t1 >= 0) tlast = x.t1; }
    for (auto &x : log_down(w, d)) excuse.push_back(x);
    Time fin = tlast < FOREVER ? tlast : K->now;
    bool alive_end = tlast == FOREVER || (w.daemon() != nullptr);
    size_t need = alive_end ? upto(d.cm, K->now - 200 * MS) : d.consumed.size();
    (void)fin;
    if (san || ts) {
        if (!excuse.empty()) return;
        // Walk the log against the model.  A message re-starts the line state; bytes that leave no trace in the log may lie
        // on either side of it, so every possible position is followed.
        const std::string &C = d.consumed; std::string why;
        std::vector<std::pair<size_t, size_t>> segs;       // log text between messages
        size_t i = 0, segb = 0;
        for (;;) {
            size_t q = L.find(PRE, i); if (q == std::string::npos) { segs.push_back({segb, L.size()}); break; }
            segs.push_back({segb, q}); size_t e = L.find("\r\n", q + PRE.size());
            if (e == std::string::npos) { why = "incomplete message"; break; }
            i = segb = e + 2;
        }
        size_t stamps = 0; std::set<size_t> states = {0}; size_t farthest = 0;
        for (size_t si = 0; si < segs.size() && why.empty(); si++) {
            std::set<size_t> next; std::string err; size_t errpos = 0;
            for (size_t p0 : states) {
                LogModel m; m.san = san; m.ts = ts; size_t pos = p0, j = segs[si].first, je = segs[si].second; std::string bad;
                while (j < je) {
                    if (pos >= C.size()) { bad = fmt("extra text in the log: \"%s\"", hexs(L.substr(j, 60)).c_str()); break; }
                    bool stamp; m.split = 0; std::string x = m.feed(C[pos], &stamp); size_t k = 0, j0 = j; bool need_stamp = stamp;
                    while (k < x.size() || stamp) {
                        if (stamp && k == m.split) {
                            Time t; size_t len; if (!parse_stamp(L, j, &t, &len) || j + len > je) { bad = "!"; break; }
                            Time rt = reader_time(d, pos), want = wall_at(w, rt), w2 = wall_at(w, rt + 100 * MS);      // the clock may be set in between
                            std::string txt = L.substr(j, 19); bool good = false; for (Time q : {want - 1, want, want + 1, w2 - 1, w2, w2 + 1}) if (local_stamp(q) == txt) good = true;
                            if (!good) { bad = fmt("timestamp %ld differs from the arrival time %ld of the line's first character (console byte %zu)", t, want, pos); break; }
                            j += len; stamp = false; stamps++; continue;
                        }
                        if (k >= x.size()) break;
                        if (j >= je || L[j] != x[k]) { bad = "!"; break; }
                        j++; k++;
                    }
                    if (bad == "!") bad = fmt("log has \"%s\" where console byte %zu (\"%s\") should give %s\"%s\"", hexs(L.substr(j0, 48)).c_str(), pos, hexs(C.substr(pos, 20)).c_str(), need_stamp ? "a timestamp and " : "", hexs(x).c_str());
                    if (!bad.empty()) break;
                    pos++;
                }
                farthest = std::max(farthest, pos);
                if (!bad.empty()) { if (err.empty() || pos > errpos) { err = bad; errpos = pos; } continue; }
                for (;;) { next.insert(pos); if (pos >= C.size()) break; bool stamp; std::string x = m.feed(C[pos], &stamp); if (!x.empty() || stamp) break; pos++; }
            }
            if (next.empty()) { why = err; break; }
            states = next;
        }
        if (why.empty() && *states.rbegin() < need) why = fmt("log ends after console byte %zu of %zu", *states.rbegin(), C.size());
        w.stat["stamps"] += stamps;
        if (!why.empty()) w.viol("logfmt", san && ts ? "both" : san ? "sanitize" : "timestamp", fmt("log of console %s (type %c, %s%s): ", d.sp.name.c_str(), d.sp.type, san ? "sanitize " : "", ts ? "timestamp" : "") + why);
        if (san) { for (auto &x : w.log_writes(d.sp)) for (unsigned char c : x.second) if (!((c >= 32 && c < 127) || c == '\r' || c == '\n')) { w.viol("logfmt", "unprintable", fmt("sanitized log of %s contains byte 0x%02x", d.sp.name.c_str(), c)); goto out; } }
    out:
        return;
    }
    Parsed p = parse_stream(L, false);
    if (excuse.empty()) {
        Match m = match_strict(p.data, d.consumed, 0, 0);
        if (!m.ok) { w.viol("log", m.why.substr(0, m.why.find(':')), fmt("log of console %s (type %c): %s", d.sp.name.c_str(), d.sp.type, m.why.c_str())); return; }
        if (m.end < need) w.viol("log", "missing-end", fmt("log of console %s (type %c) lacks the last %zu bytes read from the console", d.sp.name.c_str(), d.sp.type, need - m.end));
        for (auto &n : p.notes) if (!n.whole) w.viol("log", "message-cut", "incomplete message in the log of " + d.sp.name + ": " + n.text);
        return;
    }
    Match m = match_gaps(p.data, d.consumed, 0, 0, true);
    auto lo_of = [&](const Span &e) { size_t x = before(d.cm, e.a); return x > 2 ? x - 2 : 0; };    // the rest of a cut message may look whole after a CR or CR LF
    auto zones_ok = [&]() { std::vector<std::pair<size_t, size_t>> z; for (auto &e : excuse) z.push_back({lo_of(e), upto(d.cm, e.b)}); w.stat["log second opinions"]++; return match_zones(p.data, d.consumed, z, need); };
    if (!m.ok) { if (zones_ok()) return; w.viol("log", m.why.substr(0, m.why.find(':')), fmt("log of console %s (type %c): %s", d.sp.name.c_str(), d.sp.type, m.why.c_str())); return; }
    if (m.start > 0) m.gaps.insert(m.gaps.begin(), Gap{0, m.start});
    if (m.end < need) m.gaps.push_back({m.end, need});
    for (auto &g : m.gaps) {
        bool ok = false;
        for (size_t a = g.a, b = g.b;; a--, b--) {      // the same text may begin what was lost and what follows
            for (auto &e : excuse) { size_t lo = lo_of(e), hi = upto(d.cm, e.b); if (a >= lo && b <= hi) ok = true; }
            if (ok || !a || d.consumed[a - 1] != d.consumed[b - 1]) break;
        }
        if (!ok) { if (zones_ok()) return; w.viol("log", "lost", fmt("log of console %s (type %c) lacks bytes %zu..%zu, read from the console between t=%.3fs and t=%.3fs, without a cause (%s)", d.sp.name.c_str(), d.sp.type, g.a, g.b, reader_time(d, g.a) / 1e6, reader_time(d, g.b - 1) / 1e6, zwhy.c_str())); return; }
        w.stat["log gaps"]++;
    }
}
void oracle_logs(World &w) { for (auto &d : w.devs) log_console(w, *d); }

// ------------------------------------------------------------- input
struct Exp { std::string data; std::vector<Time> t; bool del = false; };
static std::string filt(const std::string &s, const std::string &alpha, bool del, size_t lim) {
    bool in[256] = {false}; for (unsigned char c : alpha) in[c] = true; if (del) in[127] = true;
    std::string o; for (size_t i = 0; i < s.size() && i < lim; i++) if (in[(unsigned char)s[i]]) o += s[i];
    return o;
}
struct Writer { std::string id, alpha; Time t_ok, t_end, t_all = 0; std::vector<std::string> cons; std::vector<TxEv> txl; std::string tx; bool w0; bool clean; bool stolen; bool client; };
static void input_writer(World &w, const Writer &s, int ndel) {
    Exp e; bool wr = s.w0; bool multi = s.cons.size() > 1;
    std::vector<Time> tt; bool ro_seen = false;
    for (auto &x : s.txl) {
        if (x.kind == 'D') { if (wr) { e.data += s.tx.substr(x.pos, x.len); tt.insert(tt.end(), x.len, x.t); } else ro_seen = true; }
        else if (x.kind == 'E') { char c = x.arg[0]; if (c == 'M' && !multi) wr = false; else if ((c == 'F' || c == 'J') && !multi) wr = true; else if (c == 'D') { e.del = true; if (wr) { e.data += '\x7f'; tt.push_back(x.t); } } }
    }
    if (e.del && ndel > 1) return;
    for (auto &d : w.devs) {
        bool mine = std::find(s.cons.begin(), s.cons.end(), d->sp.name) != s.cons.end();
        size_t lim = w.t_settled >= 0 ? upto(d->sm, w.t_settled) : d->sink.size();
        std::string F = filt(d->sink, s.alpha, e.del, lim);
        if (!mine) { if (!F.empty()) w.viol("input", "wrong-console", fmt("input of session %s reached console %s: \"%s\"", s.id.c_str(), d->sp.name.c_str(), hexs(F).c_str())); continue; }
        // was the console up throughout, and did it keep reading?
        Time t0 = s.t_ok - SEC, t1 = std::max(s.t_all, s.t_end) + SEC; bool steady = false;
        for (auto &u : d->ups) if (u.a <= s.t_ok && (u.b >= t1 + 2 * SEC || u.b == FOREVER)) steady = true;
        if (e.data.size() > 12000 || !d->stalls.empty()) { if (e.data.size() + 4000 > 12000) steady = false; }
        bool dstall = overlaps(d->stalls, t0, t1);
        (void)t0;
        size_t tot = 0; for (auto &q : w.order) tot += q->tx.size();
        if (dstall && tot > 12000) steady = false;
        if (steady) {
            size_t k = 0; while (k < F.size() && k < e.data.size() && F[k] == e.data[k]) k++;
            if (k < F.size()) {
                std::string kind = F.size() > e.data.size() && k == e.data.size() ? "extra" : ro_seen ? "leak-or-order" : "altered";
                w.viol("input", kind, fmt("console %s (type %c) received \"%s\" after %zu bytes of session %s, which sent \"%s\"", d->sp.name.c_str(), d->sp.type, hexs(F.substr(k, 40)).c_str(), k, s.id.c_str(), hexs(e.data.substr(k, 40)).c_str()));
                continue;
            }
            size_t need = e.data.size();
            if (s.stolen) need = 0;      // it may see that late; the model of the sessions has the exact time
            else if (!s.clean) { need = 0; while (need < tt.size() && tt[need] < s.t_end - SEC) need++; }
            if (w.daemon_stopped.size() && !s.clean) need = 0;
            if (F.size() < need) w.viol("input", "lost", fmt("console %s (type %c) received only %zu of the %zu bytes session %s sent; next \"%s\"", d->sp.name.c_str(), d->sp.type, F.size(), need, s.id.c_str(), hexs(e.data.substr(F.size(), 40)).c_str()));
        } else {
            size_t j = 0; bool ok = true; size_t i = 0;
            for (; i < F.size(); i++) { j = e.data.find(F[i], j); if (j == std::string::npos) { ok = false; break; } j++; }
            if (!ok) w.viol("input", "not-in-order", fmt("console %s (type %c) received from session %s bytes it never sent in that order: \"%s\"", d->sp.name.c_str(), d->sp.type, s.id.c_str(), hexs(F.substr(i > 8 ? i - 8 : 0, 40)).c_str()));
        }
    }
}
void oracle_input(World &w) {
    std::vector<Writer> v;
    for (auto &p : w.sess) {
        Sess &s = *p.second; if (s.alpha_shared) continue;
        Writer x; x.id = s.id; x.alpha = s.alpha; x.t_ok = s.t_ok; x.t_end = x.t_all = end_of(w, s); x.cons = s.st == 2 && s.cmd != "QUERY" ? s.granted : std::vector<std::string>(); x.txl = s.txl; x.tx = s.tx; x.w0 = s.cmd == "CONNECT"; x.client = false;
        x.stolen = s.how == "eof"; x.clean = !x.stolen && s.how != "rst" && s.how != "fail";
        if (s.how == "close") { auto f = s.far.lock(); if (s.stalled || !s.stalls.empty() || s.rate || s.wn > s.rx.size()) x.clean = false; }   // unread data turns the close into a reset
        for (auto &h : s.holds) if (h.b > x.t_end - 2 * SEC) { x.clean = false; x.t_end = std::min(x.t_end, h.a); }   // what a dead link held back need not arrive
        // a session that does not read does not see that its console was stolen
        Time te0 = x.t_end;
        if (!x.cons.empty()) for (auto &q : w.sess) if (q.second.get() != &s && q.second->st == 2 && std::any_of(s.granted.begin(), s.granted.end(), [&](const std::string &c) { return std::find(q.second->granted.begin(), q.second->granted.end(), c) != q.second->granted.end(); })) {
            if (q.second->has('F') && q.second->t_ok > s.t_req) x.t_end = std::min(x.t_end, std::max(q.second->t_req, s.t_req));
            for (auto &e : q.second->txl) if (e.kind == 'E' && e.arg == "F" && e.t > s.t_req) x.t_end = std::min(x.t_end, e.t);
        }
        if (x.t_end < te0) x.clean = false;
        for (auto &d : w.daemons) if (d.t_term >= 0 && d.t_term < x.t_end + SEC) x.clean = false;
        if (!s.out.empty()) x.clean = false;
        v.push_back(x);
    }
    std::map<std::string, int> users; int ndel = 0; for (auto &x : v) { if (!x.tx.empty()) users[x.alpha]++; for (auto &e : x.txl) if (e.kind == 'E' && e.arg == "D") { ndel++; break; } }
    std::set<std::string> done;
    for (auto &x : v) if (users[x.alpha] <= 1 && !(x.tx.empty() && users[x.alpha] == 1)) { if (x.tx.empty() && !done.insert(x.alpha).second) continue; input_writer(w, x, ndel); }
    // nothing but session input is ever sent to a console
    if (w.plan.has("nosessinput")) for (auto &d : w.devs) { size_t lim = w.t_settled >= 0 ? upto(d->sm, w.t_settled) : d->sink.size(); if (lim) w.viol("input", "spurious", fmt("console %s received \"%s\" although no session sent anything", d->sp.name.c_str(), hexs(d->sink.substr(0, std::min<size_t>(lim, 40))).c_str())); }
}
