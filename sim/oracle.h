// Helpers shared by the oracles.
#pragma once
#include "world.h"
#include <cerrno>
#include <cstring>
#include <ctime>
#include <fnmatch.h>
#include <regex.h>

static const std::string PRE = "\r\n<ConMan> ";
struct Notice { size_t pos, off; std::string text; bool whole; };       // position in the data, offset in the stream
struct Replay { size_t pos, off, end; std::string data; bool whole, none; };
struct Parsed { std::string data; std::vector<Notice> notes; std::vector<Replay> reps; std::vector<size_t> at; size_t note_bytes = 0; };

// Separates informational messages and replays from console output.
static inline Parsed parse_stream(const std::string &s, bool replays) {
    Parsed p; size_t i = 0;
    while (i < s.size()) {
        if (s[i] == '\r' && s.compare(i, PRE.size(), PRE) == 0) {
            size_t e = s.find("\r\n", i + PRE.size());
            std::string t = s.substr(i + PRE.size(), e == std::string::npos ? std::string::npos : e - i - PRE.size());
            if (replays && t.compare(0, 16, "Begin log replay") == 0 && e != std::string::npos) {
                Replay r; r.pos = p.data.size(); r.off = i;
                size_t b = e + 2, q = s.find(PRE + "End log replay", b);
                r.whole = q != std::string::npos;
                size_t z = r.whole ? s.find("\r\n", q + PRE.size()) : std::string::npos;
                r.data = s.substr(b, r.whole ? q - b : std::string::npos); r.none = false;
                r.end = z == std::string::npos ? s.size() : z + 2; if (z == std::string::npos) r.whole = false;
                p.reps.push_back(r); p.note_bytes += r.end - i; i = r.end; continue;
            }
            Notice n; n.pos = p.data.size(); n.off = i; n.text = t; n.whole = e != std::string::npos; p.notes.push_back(n);
            size_t z = n.whole ? e + 2 : s.size(); p.note_bytes += z - i; i = z; continue;
        }
        p.data += s[i]; p.at.push_back(i); i++;
    }
    return p;
}
struct Gap { size_t a, b; };                 // ref[a,b) missing
struct Match { bool ok = false; size_t start = 0, end = 0; std::vector<Gap> gaps; std::string why; size_t last_run = 0; };

static inline Match match_strict(const std::string &got, const std::string &ref, size_t a0, size_t a1) {
    Match m;
    if (a1 > ref.size()) a1 = ref.size();
    size_t best = 0, besta = a0;
    for (size_t a = a1 + 1; a-- > a0;) {
        size_t k = 0, lim = std::min(got.size(), ref.size() - a);
        while (k < lim && got[k] == ref[a + k]) k++;
        if (k == got.size()) { m.ok = true; m.start = a; m.end = a + k; m.last_run = k; return m; }
        if (k >= best) { best = k; besta = a; }
    }
    size_t j = besta + best;
    m.start = besta; m.end = j;
    std::string kind;
    if (j >= ref.size()) kind = "extra";
    else {
        std::string w = got.substr(best, 24);
        if (w.size() >= 6 && ref.find(w, j) != std::string::npos) kind = "lost";
        else if (w.size() >= 6 && ref.find(w) != std::string::npos) kind = "repeated";
        else kind = "altered";
    }
    m.why = kind + fmt(": after %zu matching bytes received \"%s\", the console produced \"%s\"", best, hexs(got.substr(best, 40)).c_str(), hexs(ref.substr(j, 40)).c_str());
    return m;
}
// got must be an ordered sequence of pieces of ref; junk left by cut messages is skipped
static inline Match match_gaps(const std::string &got, const std::string &ref, size_t a0, size_t a1, bool junk) {
    Match m; size_t i = 0, j = a0; (void)a1;
    size_t run = 0; bool first = true; int skips = 0;
    while (i < got.size()) {
        size_t k = 0; while (i + k < got.size() && j + k < ref.size() && got[i + k] == ref[j + k]) k++;
        i += k; j += k; run += k;
        if (i >= got.size()) break;
        bool found = false;
        if (junk && skips < 200) for (size_t k = 1; k < 160 && i + k < got.size() && !found; k++) {   // a fragment of a cut message, then nothing missing
            unsigned char c = got[i + k - 1]; if (!(c >= 32 && c < 127) && c != '\r' && c != '\n') break;
            size_t W = std::min<size_t>(12, std::min(got.size() - i - k, ref.size() - j));
            if (W >= 6 && !got.compare(i + k, W, ref, j, W)) { i += k; skips++; found = true; }
        }
        if (found) continue;
        for (size_t W : {24, 10, 5}) for (size_t b = 0; b <= std::min<size_t>(run, W / 2) && !found; b++) {
            std::string w = got.substr(i - b, W);
            if (w.size() < std::min<size_t>(W, 8) && i - b + w.size() < got.size()) continue;
            size_t q = ref.find(w, j - b);
            if (q == std::string::npos) continue;
            size_t ra = j - b; if (!(first && run == b)) m.gaps.push_back({ra, q}); else m.start = q;
            i -= b; j = q; found = true; run = 0; first = false;
        }
        if (found) continue;
        if (junk) {                          // rest of a message whose beginning was overwritten, or a cut message
            size_t e = got.find("\r\n", i);
            size_t f = 0;                        // the remains may end without a line break
            for (size_t k = 1; k < 160 && i + k + 24 <= got.size() && !f; k++) {
                unsigned char c = got[i + k - 1]; if (!(c >= 32 && c < 127) && c != '\r' && c != '\n') break;
                if (ref.find(got.substr(i + k, 24), j) != std::string::npos) f = k;
            }
            if (f && skips++ < 200) { i += f; continue; }
            if (e != std::string::npos && e - i < 400 && skips++ < 200) { i = e + 2; continue; }
            if (e == std::string::npos && got.size() - i < 400) { i = got.size(); break; }
            size_t k = 0;                    // the beginning of a message whose end was overwritten
            while (k < 120 && i + k < got.size() && !found && skips < 200) {
                unsigned char c = got[i + k]; if (!(c >= 32 && c < 127) && c != '\r' && c != '\n') break;
                k++; std::string w = got.substr(i + k, 24); if (w.size() == 24 && ref.find(w, j) != std::string::npos) found = true;
            }
            if (found) { skips++; i += k; continue; }
        }
        bool rep = ref.find(got.substr(i, 24)) != std::string::npos;
        m.why = std::string(rep ? "repeated or out of order" : "altered") + fmt(": at byte %zu (after \"%s\") received \"%s\", expected \"%s\" or something later", i, hexs(got.substr(i > 40 ? i - 40 : 0, std::min<size_t>(i, 40))).c_str(), hexs(got.substr(i, 40)).c_str(), hexs(ref.substr(j, 40)).c_str());
        m.end = j; return m;
    }
    if (first) m.start = a0;
    m.ok = true; m.end = j; m.last_run = run; return m;
}

// ------------------------------------------------------------- session state from what it sent
struct SessState {
    std::vector<Span> susp;                  // suspended, as far as the session knows
    std::vector<std::pair<Time, bool>> wr;   // write access requested by escapes
    bool quiet0 = false; std::vector<std::pair<Time, bool>> quiet;
    std::vector<Time> replays, resets, breaks;
    bool write_at(Time t) const { bool w = false; for (auto &x : wr) if (x.first <= t) w = x.second; return w; }
};
static inline SessState state_of(const Sess &s) {
    SessState r; bool w = s.cmd == "CONNECT", z = false, q = s.has('Q'); r.quiet0 = q; r.wr.push_back({s.t_req, w}); r.quiet.push_back({s.t_req, q});
    for (auto &e : s.txl) if (e.kind == 'E') switch (e.arg[0]) {
        case 'Z': z = !z; if (z) r.susp.push_back({e.t, FOREVER}); else r.susp.back().b = e.t; break;
        case 'M': if (s.granted.size() == 1) r.wr.push_back({e.t, false}); break;
        case 'F': case 'J': if (s.granted.size() == 1) r.wr.push_back({e.t, true}); break;
        case 'Q': q = !q; r.quiet.push_back({e.t, q}); break;
        case 'L': r.replays.push_back(e.t); break;
        case 'R': r.resets.push_back(e.t); break;
        case 'B': r.breaks.push_back(e.t); break;
    }
    return r;
}
static inline Time end_of(const World &w, const Sess &s) {
    Time e = s.t_close >= 0 ? s.t_close : K->now;
    if (s.t_eof >= 0) e = std::min(e, s.t_eof);
    if (s.t_half >= 0) e = std::min(e, s.t_half);
    for (auto &d : w.daemons) { if (d.t_term >= 0 && d.t_term > s.t_open && d.t0 < s.t_ok) e = std::min(e, d.t_term); if (d.t1 >= 0 && d.t0 < s.t_ok && d.t1 > s.t_open) e = std::min(e, d.t1); }
    return e;
}
static inline Time break_time(Time a, Time b) { Time s = 0; for (auto &x : K->breaks) if (x.first <= b && x.second >= a) s += x.second - x.first; return s; }
static inline Time pause_slack(const World &w, Time a, Time b) { Time s = break_time(a, b); for (auto &x : w.daemon_stopped) if (x.a <= b && x.b >= a) s += x.b - x.a; return s; }
static inline bool overlaps(const std::vector<Span> &v, Time a, Time b) { for (auto &x : v) if (x.a <= b && x.b >= a) return true; return false; }
static inline Time slack(const World &w, const Sess &s) { return 300 * MS + 4 * s.lat + 8 * K->kn.jitter + w.plan.num("slack_ms", 0) * MS; }

// the range of reader positions at which a session may have been attached
static inline void attach_range(const World &w, const Sess &s, const Dev &d, size_t *a0, size_t *a1) {
    *a0 = before(d.cm, s.t_req); *a1 = upto(d.cm, s.t_ok + slack(w, s) + pause_slack(w, s.t_req, s.t_ok + SEC));
}

static inline bool parse_stamp(const std::string &s, size_t at, Time *t, size_t *len) {
    struct tm tm; memset(&tm, 0, sizeof tm); int n = 0;
    if (at + 20 > s.size()) return false;
    std::string x = s.substr(at, 20);
    if (sscanf(x.c_str(), "%4d-%2d-%2d %2d:%2d:%2d%n", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &n) != 6 || n != 19 || x[19] != ' ') return false;
    tm.tm_year -= 1900; tm.tm_mon--; tm.tm_isdst = -1; *t = (Time)timegm(&tm); *len = 20; return true;
}
static inline std::string local_stamp(Time x) { time_t t = x; struct tm tm; localtime_r(&t, &tm); char b[64]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm); return b; }
static inline Time wall_at(const World &w, Time t) { Time off = 0; for (auto &j : w.jumps) if (j.first <= t) off = j.second; return (K->wall_base + off + t) / SEC; }
static inline Time reader_time(const Dev &d, size_t pos) { for (auto &m : d.cm) if (m.n > pos) return m.t; return FOREVER; }
static inline std::vector<std::string> paths_of(const World &w, const ConsoleSpec &c) {
    std::string p = w.logpath(c); std::vector<std::string> v;
    size_t q = p.find('%');
    if (q == std::string::npos) { v.push_back(p); return v; }
    for (auto &l : w.logw) { std::string pat = p; size_t z; while ((z = pat.find('%')) != std::string::npos) pat.replace(z, 2, "*"); if (!fnmatch(pat.c_str(), l.first.c_str(), 0)) v.push_back(l.first); }
    return v;
}
std::vector<Span> log_down(const World &w, const Dev &d);
static inline bool opt_on(const std::string &o, const char *name, bool dflt) {
    bool v = dflt; size_t i = 0;
    while (i < o.size()) { size_t e = o.find(',', i); if (e == std::string::npos) e = o.size(); std::string t = o.substr(i, e - i); if (t == name) v = true; if (t == std::string("no") + name) v = false; i = e + 1; }
    return v;
}
