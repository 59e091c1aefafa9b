// The real client on a simulated terminal: terminal settings, exit status, relayed keys, displayed and logged output.
#include "model.h"
#include <csignal>
#include <sstream>
#include <sys/wait.h>

// What the keys the client read must have caused, from the documented behaviour alone.
struct CRef {
    std::string want;                          // bytes for the server after the request
    std::vector<std::pair<char, std::string>> shown;   // local output: s(tatus) word, e(cho) text, h(elp), i(nfo) text
    std::vector<size_t> due;                   // for each of these: how much of `want` was sent before it
    bool closed = false, stuck = false, over = false;  // user closed; suspended right now; key after the close
    bool echo = false, quiet = false;
    bool mon, bcast;
    void show(std::pair<char, std::string> b) { shown.push_back(b); due.push_back(want.size()); }
};
static std::string caret(unsigned char c) { c &= 0x7f; if (c < 32) return std::string("^") + (char)(c + 64); if (c == 127) return "^?"; return std::string(1, (char)c); }
static bool flag(const Client &c, char f) { for (size_t i = 1; i < c.argv.size(); i++) { auto &a = c.argv[i]; if (a.size() > 1 && a[0] == '-' && a[1] == f) return true; } return false; }
static std::string optval(const Client &c, char f) { for (size_t i = 1; i < c.argv.size(); i++) { auto &a = c.argv[i]; if (a.size() > 1 && a[0] == '-' && a[1] == f) return a.size() > 2 ? a.substr(2) : i + 1 < c.argv.size() ? c.argv[i + 1] : ""; } return ""; }
static unsigned char escape_of(const Client &c) { std::string v = optval(c, 'e'); if (!v.empty()) return v[0]; for (auto &e : c.env) if (!e.compare(0, 14, "CONMAN_ESCAPE=") && e.size() > 14) return e[14]; return '&'; }

struct Rsp { bool l1 = false, ok1 = false, l2 = false, ok2 = false; std::string s1, s2, err; size_t body = 0; std::vector<std::string> names; bool reset = false; bool granted() const { return ok1 && ok2; } };
static Rsp response(const std::string &r) {
    Rsp x; size_t a = r.find('\n'); if (a == std::string::npos) return x; x.l1 = true; x.s1 = r.substr(0, a); x.ok1 = !x.s1.compare(0, 2, "OK");
    if (!x.ok1) { x.body = a + 1; if (!x.s1.compare(0, 5, "ERROR")) { size_t p = 0; x.err = attr(x.s1, "MESSAGE", &p); } return x; }
    size_t b = r.find('\n', a + 1); if (b == std::string::npos) return x; x.l2 = true; x.s2 = r.substr(a + 1, b - a - 1); x.ok2 = !x.s2.compare(0, 2, "OK"); x.body = b + 1;
    if (!x.ok2) { if (!x.s2.compare(0, 5, "ERROR")) { size_t p = 0; x.err = attr(x.s2, "MESSAGE", &p); } return x; }
    size_t p = 0; for (;;) { std::string n = attr(x.s2, "CONSOLE", &p); if (p == std::string::npos) break; x.names.push_back(n); }
    x.reset = x.s2.find("OPTION=RESET") != std::string::npos; return x;
}
static CRef refer(const Client &c, const Rsp &r) {
    CRef m; unsigned char esc = escape_of(c); bool inesc = false;
    m.mon = flag(c, 'm'); m.bcast = flag(c, 'b') && !m.mon && r.names.size() > 1; m.quiet = flag(c, 'Q');
    m.show({'s', "opened"});
    auto data = [&](unsigned char k) { if (m.mon) return true; if (m.closed) { m.over = true; return false; } m.want += (char)k; if (k == 0xff) m.want += (char)k; return true; };
    auto req = [&](unsigned char k) { if (m.closed) { m.over = true; return false; } m.want += '\xff'; m.want += (char)k; return true; };
    for (size_t i = 0; i < c.keys.size() && !m.over; i++) {
        unsigned char k = c.keys[i];
        if (!inesc) { if (k == esc) inesc = true; else data(k); continue; }
        inesc = false;
        if (k == esc) { data(k); continue; }
        switch (k) {
        case 'B': case 'D': if (!m.mon) req(k); break;
        case '.': m.show({'e', caret(esc) + "."}); m.show({'s', "closed"}); m.closed = true; break;
        case 'E': if (!m.mon) m.echo = !m.echo; break;
        case 'F': case 'J': if (m.mon && req(k)) m.mon = false; break;
        case 'M': if (!m.mon && !m.bcast && req(k)) m.mon = true; break;
        case '?': m.show({'h', ""}); break;
        case 'I': m.show({'i', m.bcast ? "Broadcasting" : m.mon ? "R/O" : "R/W"}); break;
        case 'L': if (!m.bcast) req(k); break;
        case 'Q': m.quiet = !m.quiet; req(k); break;
        case 'R': if (!m.mon && r.reset) req(k); break;
        case 'Z': m.show({'e', caret(esc) + "Z"}); if (!req(k)) break; m.show({'s', "suspended"});
            if (c.alive && c.p->stopped && i + 1 == c.keys.size()) { m.stuck = true; break; }
            m.show({'s', "resumed"}); req(k); m.echo = false; break;
        default: if (data(esc)) data(k);
        }
    }
    return m;
}
// Is the screen the server's output with the local messages in between, each once, whole and in order?
struct Shuf { bool ok = false, full = false; size_t at = 0; std::string why; };
static size_t block_len(const std::string &s, size_t i, const std::pair<char, std::string> &b, bool *part) {   // length of that message at s[i], 0 if it is not there
    auto lit = [&](const std::string &t, size_t at) { size_t n = std::min(t.size(), s.size() - at); if (s.compare(at, n, t, 0, n)) return false; if (n < t.size()) *part = true; return true; };
    if (b.first == 'e') { if (!lit(b.second, i)) return 0; return *part ? s.size() - i : b.second.size(); }
    if (b.first == 'h') {
        size_t e = i; if (!lit("\r\n", i)) return 0; if (*part) return s.size() - i;
        e = i + 2; int lines = 0; while (lines < 20) { size_t q = s.find("\r\n", e); if (q == std::string::npos) { if (e == s.size() && lines > 3) return e - i; if (s.size() - e < 100 && (lines <= 3 || !s.compare(e, std::min<size_t>(2, s.size() - e), "  ", std::min<size_t>(2, s.size() - e)))) *part = true; return *part ? s.size() - i : lines > 3 ? e - i : 0; } std::string l = s.substr(e, q - e); if (lines == 0 ? l.find("Escape Sequences") == std::string::npos : !(l.size() > 6 && l.compare(0, 2, "  ") == 0 && l.find(" -  ") != std::string::npos)) break; lines++; e = q + 2; }
        return lines > 3 ? e - i : 0;
    }
    if (!lit("\r\n<ConMan> ", i)) return 0; if (*part) return s.size() - i;
    size_t q = s.find("\r\n", i + 11); if (q == std::string::npos) { if (s.size() - i > 300) return 0; *part = true; return s.size() - i; }
    return q - i < 300 && s.substr(i, q - i).find(b.second) != std::string::npos ? q + 2 - i : 0;
}
static Shuf shuffled(const std::string &s, const std::string &r, const std::vector<std::pair<char, std::string>> &bl) {
    // states: number of messages seen; the position in r follows from the position on the screen and the messages' lengths
    Shuf o; std::map<size_t, std::set<std::pair<size_t, size_t>>> at; at[0].insert({0, 0}); size_t far = 0;
    while (!at.empty()) {
        size_t i = at.begin()->first; auto v = at.begin()->second; at.erase(at.begin());
        for (auto &x : v) {
            size_t rp = x.first, b = x.second; far = std::max(far, i);
            if (i == s.size()) { o.ok = true; if (rp == r.size() && b == bl.size()) o.full = true; continue; }
            if (b < bl.size()) { bool part = false; size_t n = block_len(s, i, bl[b], &part); if (n) { if (part) o.ok = true, far = s.size(); else at[i + n].insert({rp, b + 1}); } }
            size_t k = 0; while (i + k < s.size() && rp + k < r.size() && s[i + k] == r[rp + k]) { k++; if (b < bl.size() && i + k < s.size()) { bool part = false; if (block_len(s, i + k, bl[b], &part)) at[i + k].insert({rp + k, b}); } }
            if (k) at[i + k].insert({rp + k, b});
        }
    }
    o.at = far; return o;
}
static bool has_fault(const World &w, const Client &c, const char *sys = nullptr) {
    for (auto &o : w.plan.ops) if (o.k == "fault" && o.a.size() > 1 && (o.a[1] == "term:" + c.id || o.a[1] == "csess:" + c.id || o.a[1] == "file:" + c.logf || o.a[1] == "*") && (!sys || o.a[0] == sys)) return true;
    for (auto &o : w.plan.ops) if (o.k == "disk" && o.a.size() && o.a[0] == c.logf && (!sys || !strcmp(sys, "write"))) return true;
    return false;
}
static bool has_sig(const Client &c, int s) { for (int x : c.sigs) if (x == s) return true; return false; }
// The request the command line asks for, as the server understands it (C22)
static std::string show_req(const std::string &cmd, const std::set<std::string> &opt, const std::multiset<std::string> &names) { std::string s = cmd; for (auto &x : opt) s += " " + x; for (auto &x : names) s += " '" + x + "'"; return s; }
static void check_request(World &w, Client &c) {
    size_t b1 = c.sent.find('\n'), b2 = b1 == std::string::npos ? b1 : c.sent.find('\n', b1 + 1);
    auto dec = [](std::string s) { for (char &x : s) x &= 0x7f; return s; };
    if (!c.dialed.empty()) {                   // where the user told it to connect
        std::string host = "127.0.0.1"; int port = 7890; auto set = [&](const std::string &v) { size_t q = v.find(':'); if (q != std::string::npos && atoi(v.c_str() + q + 1) > 0) port = atoi(v.c_str() + q + 1); if (q != 0 && !v.empty()) host = v.substr(0, q); };
        for (auto &e : c.env) if (!e.compare(0, 12, "CONMAN_HOST=")) set(e.substr(12));
        for (auto &e : c.env) if (!e.compare(0, 12, "CONMAN_PORT=") && atoi(e.c_str() + 12) > 0) port = atoi(e.c_str() + 12);
        for (size_t i = 1; i < c.argv.size(); i++) if (c.argv[i] == "-d") set(c.argv[i + 1]);
        uint32_t a, b, x, y; bool num = sscanf(host.c_str(), "%u.%u.%u.%u", &a, &b, &x, &y) == 4; uint32_t ip = num ? a << 24 | b << 16 | x << 8 | y : c.dialed[0].first;
        for (auto &d : c.dialed) if (d.first != ip || d.second != port) { w.viol("relay", "destination", fmt("client %s was told to use the server at %s:%d and connects to %u.%u.%u.%u:%d", c.id.c_str(), host.c_str(), port, d.first >> 24, d.first >> 16 & 255, d.first >> 8 & 255, d.first & 255, d.second)); break; }
    }
    if (b1 == std::string::npos) return;
    std::string g = c.sent.substr(0, b1 + 1); size_t p = 0; std::string user = dec(attr(g, "USER", &p));
    if (g.compare(0, 6, "HELLO ") || user != c.p->login) w.viol("relay", "greeting", fmt("client %s of user %s greets the server with \"%s\"", c.id.c_str(), c.p->login.c_str(), hexs(g, 100).c_str()));
    p = 0; std::string tty = dec(attr(g, "TTY", &p)), mine = c.notty ? "" : c.tty->path; if (p == std::string::npos) tty = "";
    if (mine.empty() ? !tty.empty() : tty != mine && "/dev/" + tty != mine) w.viol("relay", "greeting-tty", fmt("client %s on terminal \"%s\" tells the server \"%s\"", c.id.c_str(), mine.c_str(), hexs(g, 100).c_str()));
    if (b2 == std::string::npos) return;
    std::string cmd = "CONNECT"; std::set<std::string> opt; std::multiset<std::string> names; char fj = 0; bool bc = false;
    auto split = [&](const std::string &a) { std::istringstream in(a); std::string t; while (std::getline(in, t, ',')) if (!t.empty()) names.insert(t); };
    for (size_t i = 1; i < c.argv.size(); i++) {
        const std::string &a = c.argv[i]; if (a.size() < 2 || a[0] != '-') { split(a); continue; }
        switch (a[1]) {
        case 'q': cmd = "QUERY"; break; case 'm': cmd = "MONITOR"; break; case 'f': case 'j': fj = a[1]; break; case 'b': bc = true; break;
        case 'Q': opt.insert("QUIET"); break; case 'r': opt.insert("REGEX"); break;
        case 'd': case 'l': case 'e': if (a.size() == 2) i++; break;
        case 'F': { auto n = fs_lookup(a.size() > 2 ? a.substr(2) : c.argv[++i]); if (!n) return; std::istringstream in(n->data); std::string l; while (std::getline(in, l)) { size_t x = l.find_first_not_of(" \t\r"), y = l.find_last_not_of(" \t\r"); if (x == std::string::npos || l[x] == '#') continue; names.insert(l.substr(x, y - x + 1)); } break; }
        }
    }
    if (cmd == "CONNECT") { if (fj) opt.insert(fj == 'f' ? "FORCE" : "JOIN"); if (bc) opt.insert("BROADCAST"); }
    std::string l = c.sent.substr(b1 + 1, b2 - b1), gc = l.substr(0, l.find_first_of(" \n")); std::set<std::string> go; std::multiset<std::string> gn;
    for (p = 0;;) { std::string v = attr(l, " OPTION", &p); if (p == std::string::npos) break; go.insert(v); }
    for (p = 0;;) { std::string v = dec(attr(l, " CONSOLE", &p)); if (p == std::string::npos) break; gn.insert(v); }
    if (gc != cmd || go != opt || gn != names) w.viol("relay", "request", fmt("client %s was told to do: %s; it asks the server: \"%s\"", c.id.c_str(), show_req(cmd, opt, names).c_str(), hexs(l, 200).c_str()));
    w.stat["client requests checked"]++;
}
void World::client_check(Client &c, bool end) {
    std::string id = c.id; Rsp r = response(c.recv); c.logf = optval(c, 'l');
    bool query = flag(c, 'q'), sess = r.granted() && !query && !c.notty;
    std::string errs = c.notty ? c.p->err : c.screen;
    bool bad = has_fault(*this, c), reset = c.net || bad;
    for (auto &d : daemons) if (d.t1 >= 0 && (d.status & 0x7f)) reset = true;    // a killed daemon may reset connections
    Conn *k = c.conn;
    bool rst = reset || (k && k->t_close >= 0 && k->rd.size() < c.sent.size()) || (!k && c.cs.lock() == nullptr);
    CRef m; if (sess) { m = refer(c, r); stat["client keys checked"] += c.keys.size(); }
    bool dead = !c.alive, sigd = dead && WIFSIGNALED(c.status), killed = sigd && WTERMSIG(c.status) == SIGKILL;
    auto tell = [&](const std::string &s) { return "client " + id + " " + s; };
    if (end) check_request(*this, c);
    if (dead && end) {
        // C21: terminal
        if (!c.tty_ok && !killed && !c.hup && !c.tty->hup && !has_fault(*this, c, "tcsetattr"))
            viol("tty", sigd ? "signal" : fmt("exit-%d", WEXITSTATUS(c.status)), tell(fmt("ended (wait status 0x%x) and left its terminal in other settings than before (lflag %x, was %x); last shown: %s", c.status, c.tty->tio.c_lflag, c.tio0.c_lflag, hexs(c.screen.substr(c.screen.size() > 120 ? c.screen.size() - 120 : 0), 200).c_str())));
        // C21: exit status
        if (sigd) { if (!has_sig(c, WTERMSIG(c.status)) && !(WTERMSIG(c.status) == SIGHUP && c.hup) && WTERMSIG(c.status) != SIGPIPE) viol("clstatus", fmt("signal-%d", WTERMSIG(c.status)), tell(fmt("died of signal %d: %s", WTERMSIG(c.status), errs.c_str())));
            for (auto &h : c.handled) if (h.first == WTERMSIG(c.status)) viol("clstatus", "unhandled", tell("died of a signal it handles")); }
        else if (WEXITSTATUS(c.status) == 0) {
            if (!r.granted() && !flag(c, 'h') && !flag(c, 'V') && !flag(c, 'L') && !(c.hup)) viol("clstatus", "zero", tell(fmt("exits with status 0 although it was not granted %s; received \"%s\"", query ? "its query" : "a session", hexs(c.recv, 200).c_str())));
            if (c.notty && !query && !flag(c, 'h')) viol("clstatus", "zero-notty", tell("exits with status 0 without having been on a terminal"));
        } else {
            if (errs.empty() && !c.hup && !bad) viol("clstatus", "silent", tell(fmt("exits with status %d and says nothing", WEXITSTATUS(c.status))));
            if (r.granted() && !c.hup && !bad && !c.net && (query || (!c.notty && !rst)) ) viol("clstatus", "nonzero", tell(fmt("exits with status %d although its %s succeeded: %s", WEXITSTATUS(c.status), query ? "query" : "session", hexs(errs.substr(errs.size() > 200 ? errs.size() - 200 : 0), 300).c_str())));
            if (!r.err.empty() && !c.hup && !bad && !plan.kn.p_eagain && errs.find(r.err) != std::string::npos && !rst && k && k->wr.size() > r.body && errs.find(k->wr.substr(r.body)) == std::string::npos) viol("clstatus", "reason-detail", tell("was refused with \"" + r.err + "\" and \"" + hexs(k->wr.substr(r.body), 200) + "\", and reports: " + hexs(errs, 300)));
            if (!r.err.empty() && !c.hup && !bad && !plan.kn.p_eagain && errs.find(r.err) == std::string::npos) viol("clstatus", "reason", tell("was refused with \"" + r.err + "\" and reports: " + hexs(errs, 300)));
        }
        stat["client endings checked"]++;
        if (!sigd && WEXITSTATUS(c.status) == 0 && query && r.granted()) {
            std::string want; for (auto &n : r.names) want += n + "\n"; std::string got = c.notty ? c.p->out : c.screen;
            if (!c.logf.empty() && !bad) { auto n = fs_lookup(c.logf); if (!n || n->data.find(want) == std::string::npos) viol("relay", "query-log", tell("log " + c.logf + " lacks the answer to its query")); }
            if (got != want && !c.hup) viol("relay", "query", tell("shows \"" + hexs(got, 200) + "\" for the answer " + r.s2));
        }
    }
    if (!sess) return;
    // C22: keys -> server
    size_t b1 = c.sent.find('\n'), b2 = b1 == std::string::npos ? b1 : c.sent.find('\n', b1 + 1);
    std::string body = b2 == std::string::npos ? "" : c.sent.substr(b2 + 1);
    bool cut = killed || rst || c.hup || m.over || (c.alive && c.p->stopped);
    if (m.want.compare(0, body.size(), body) || (!cut && body.size() < m.want.size())) {
        size_t i = 0; while (i < body.size() && i < m.want.size() && body[i] == m.want[i]) i++;
        bool pre = i == body.size();
        viol("relay", pre ? "keys-lost" : "keys", tell(fmt("sent the server \"%s\" at byte %zu of what was typed, \"%s\" is due (escape character 0x%02x, keys read: %s)", hexs(body.substr(i, 30)).c_str(), i, hexs(m.want.substr(i, 30)).c_str(), escape_of(c), hexs(c.keys.substr(c.keys.size() > 60 ? c.keys.size() - 60 : 0), 120).c_str())));
    }
    // C22: server -> screen
    std::string R = c.recv.substr(r.body);
    if (rst && body.size() < m.want.size()) { while (!m.due.empty() && m.due.back() > body.size()) { m.due.pop_back(); m.shown.pop_back(); } }   // the session ended with the write that failed
    auto bl = m.shown;
    if (dead && !m.closed) bl.push_back({'s', "terminated by server"});
    std::string scr = c.screen; bool errtail = dead && !sigd && WEXITSTATUS(c.status) != 0;
    Shuf sh = shuffled(scr, R, bl);
    bool partial = killed || sigd || c.hup || bad || rst || m.over || errtail || (c.alive && (c.p->stopped || !c.handled.empty() || c.eof));
    if (!sh.ok && !errtail && !(bad && sigd)) viol("relay", "screen", tell(fmt("shows \"%s\" at byte %zu of its terminal, which is neither the server's output nor a message of its own; the server sent %zu bytes, ending \"%s\"", hexs(scr.substr(sh.at > 20 ? sh.at - 20 : 0, 60), 120).c_str(), sh.at, R.size(), hexs(R.substr(R.size() > 30 ? R.size() - 30 : 0), 60).c_str())));
    else if (!sh.full && !partial) viol("relay", "screen-lost", tell(fmt("read %zu bytes of output from the server and shows %zu bytes on its terminal, where %zu messages of its own are due: \"%s\"", R.size(), scr.size(), bl.size(), hexs(scr.substr(scr.size() > 100 ? scr.size() - 100 : 0), 200).c_str())));
    else if (errtail && !c.hup && !bad) {        // everything it read must still be there, before the error report
        Shuf best; bool any = false; for (size_t cutn = 1; cutn < 400 && cutn <= scr.size() && !any; cutn++) { Shuf q = shuffled(scr.substr(0, scr.size() - cutn), R, m.shown); if (q.full) any = true; if (cutn > 60 && R.size() > 20000) break; }
        if (!any && R.size() < 20000) viol("relay", "screen-lost", tell(fmt("ended with an error; of %zu bytes read from the server not all are on its terminal: \"%s\"", R.size(), hexs(scr.substr(scr.size() > 100 ? scr.size() - 100 : 0), 200).c_str())));
    }
    stat["client screens checked"]++; stat["client bytes displayed"] += R.size();
    // everything the server sent arrives
    if (k && !rst && !c.hup && c.handled.empty() && !killed && !m.over && !(c.alive && c.p->stopped)) {
        size_t n = k->wr.size(); if (c.recv.size() < n) viol("relay", "unread", tell(fmt("read %zu of %zu bytes the server sent", c.recv.size(), n)));
    }
    if (k && k->wr.compare(0, c.recv.size(), c.recv)) viol("relay", "sim", tell("received other bytes than the server sent"));
    // session log
    if (!c.logf.empty() && !bad) {
        auto n = fs_lookup(c.logf); std::string L = n ? n->data : "", P = "\r\n<ConMan> "; if (!c.logpre.empty()) { if (!L.compare(0, c.logpre.size(), c.logpre)) L.erase(0, c.logpre.size()); else viol("relay", "log-overwritten", tell("log " + c.logf + " no longer begins with what it held before")); } size_t a = L.find("\r\n", 11);
        std::string got = a == std::string::npos ? "" : L.substr(a + 2), why;
        if (L.compare(0, P.size(), P) || a == std::string::npos) why = "has no heading";
        else if (got.compare(0, std::min(got.size(), R.size()), R, 0, std::min(got.size(), R.size())) || (got.size() < R.size() && !killed && !c.hup)) why = fmt("lacks or changes output: %zu of %zu bytes agree", (size_t)(std::mismatch(got.begin(), got.begin() + std::min(got.size(), R.size()), R.begin()).first - got.begin()), R.size());
        else if (got.size() > R.size() && (got.compare(R.size(), P.size(), P) || !dead)) why = "has more than the output: " + hexs(got.substr(R.size()), 100);
        if (!why.empty()) viol("relay", "log", tell("log " + c.logf + " " + why));
        stat["client logs checked"]++;
    }
}
// While a session waits for keys its terminal must hand over every key as typed, and show output as sent.
void World::client_waiting(Client &c) {
    if (!c.alive || c.p->stopped || c.tty->hup || c.p->ctxs.empty() || !c.kq.empty()) return;
    if (strstr(c.p->ctxs[0]->what, "select") == nullptr || has_fault(*this, c, "tcsetattr") || has_fault(*this, c, "tcgetattr")) return;
    Rsp r = response(c.recv); if (!r.granted() || c.notty || flag(c, 'q')) return;
    CRef m = refer(c, r); if (m.closed || m.over || m.stuck) return;
    auto &t = c.tty->tio; stat["client terminals checked while in a session"]++;
    if ((t.c_iflag & (ICRNL | INLCR | IGNCR | PARMRK | ISTRIP | IXON)) || (t.c_lflag & (ICANON | ISIG)) || (t.c_oflag & OPOST) || (t.c_cflag & CSIZE) != CS8)
        viol("relay", "cooked", fmt("client %s waits for keys at t=%.6fs while its terminal translates or intercepts keys or output (iflag %x oflag %x cflag %x lflag %x)", c.id.c_str(), K->now / 1e6, t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag));
    else if (!!(t.c_lflag & ECHO) != m.echo) viol("relay", "echo", fmt("client %s: its terminal %s at t=%.6fs, the user asked for the opposite", c.id.c_str(), m.echo ? "does not echo keys" : "echoes keys", K->now / 1e6));
}
// Faults have stopped and everything had time to get through.
void World::settle_clients() {
    for (auto &x : clients) {
        Client &c = *x.second; if (!c.alive) continue;
        if (c.p->stopped) { client_stopped(c); client_check(c, false); continue; }
        client_check(c, false); client_waiting(c);
        Rsp r = response(c.recv); std::string where = c.p->ctxs.empty() ? "?" : c.p->ctxs[0]->what;
        auto s = c.cs.lock(); bool gone = s && (s->st == Sock::DEAD || s->rx_fin);
        for (auto &h : c.handled) if (h.first == SIGTERM || h.first == SIGINT || h.first == SIGQUIT || h.first == SIGHUP) { viol("clstatus", "term-hang", fmt("client %s was sent signal %d at t=%.6fs, has a handler for it and still runs at t=%.3fs (in: %s)", c.id.c_str(), h.first, h.second / 1e6, K->now / 1e6, where.c_str())); break; }
        if (gone) viol("clstatus", "eof-hang", fmt("the server closed the connection of client %s, which still runs (in: %s)", c.id.c_str(), where.c_str()));
        else if (c.conn && r.granted() && c.raw() && !c.kq.empty()) viol("relay", "keys-unread", fmt("client %s leaves %zu typed keys unread (in: %s)", c.id.c_str(), c.kq.size(), where.c_str()));
    }
}
void check_clients(World &w) {
    for (auto &x : w.clients) {
        Client &c = *x.second;
        if (c.alive) { w.viol("clstatus", "hang", fmt("client %s still runs after its terminal was hung up (in: %s)", c.id.c_str(), c.p->ctxs.empty() ? "?" : c.p->ctxs[0]->what)); continue; }
        w.client_check(c, true);
    }
}
