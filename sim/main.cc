// Command line: run one seed, replay a file, or search many seeds for a property.
#include "world.h"
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fnmatch.h>
#include <fstream>
#include <sstream>
#include <chrono>
#include <unordered_set>
#include <sanitizer/common_interface_defs.h>
#include "internal.h"

extern "C" const char *__asan_default_options() { return "detect_stack_use_after_return=0:detect_leaks=0:detect_odr_violation=0:symbolize=1:handle_segv=1:allocator_may_return_null=1:quarantine_size_mb=16:exitcode=77:abort_on_error=0:max_malloc_fill_size=4096:malloc_fill_byte=190"; }

static double wall_now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------- one run in a child
static const size_t RES_SIZE = 8 << 20;
struct Slot { char *buf; int errfd; pid_t pid = 0; double t0 = 0; uint64_t idx = 0; uint64_t seed = 0; };
static uint8_t *shared_cov;
static char *res_buf; static bool res_done;
static std::string esc_line(const std::string &s) { std::string o; for (char c : s) { if (c == '\n') o += "\\n"; else o += c; } return o; }
static void write_result(const char *status) {
    if (res_done) return;
    res_done = true;
    std::string o; Kernel &k = *K;
    o += std::string("status ") + status + "\n";
    o += "fatal " + esc_line(k.fatal) + "\n";
    o += fmt("num %lu %ld %lu %lu %lu %lu %lu %lu\n", k.hash, k.now, k.nsys, k.nswitch, k.npreempt, k.nsig, k.nevents, CH.count);
    if (W) {
        for (auto &v : W->viols) o += "viol " + v.prop + " " + v.sig + " " + esc_line(v.msg) + "\n";
        for (auto &e : W->stat) o += fmt("stat %.17g ", e.second) + e.first + "\n";
        int g = 0; for (auto &s : W->sess) if (s.second->st >= 2 && !s.second->granted.empty()) g++;
        size_t out = 0, in = 0; for (auto &d : W->devs) out += d->consumed.size(), in += d->sink.size();
        o += fmt("work %d %zu %zu %zu\n", g, out, in, W->clients.size());
    }
    for (auto &e : k.fault_hits) o += fmt("hit %lu ", e.second) + e.first + "\n";
    for (auto &e : k.cover) o += fmt("cover %lu ", e.second) + e.first + "\n";
    o += "made"; for (auto &m : CH.made) { o += fmt(" %lu:%u", m.first, m.second); if (o.size() > RES_SIZE - 4096) break; } o += "\n";
    size_t n = std::min(o.size(), RES_SIZE - 1); memcpy(res_buf, o.data(), n); res_buf[n] = 0;
    if (shared_cov) for (size_t i = 0; i < sizeof cov_map; i++) if (cov_map[i]) shared_cov[i] = 1;
}
extern "C" void sim_unsupported(const char *n) { fprintf(stderr, "unsupported call: %s\n", n); write_result("unsupported"); _exit(3); }
static void on_asan_death() { write_result("asan"); }

static void boot() {
    setenv("TZ", "UTC0", 1); tzset();
    K = new Kernel; fs_mkdirs("/tmp"); kernel_init_modules();
}
static void run_here(const Plan &p, const std::map<uint64_t, uint32_t> *script) {
    if (p.has("tz")) { setenv("TZ", p.opt.at("tz").c_str(), 1); tzset(); }
    CH.rng = Rng(p.seed * 2654435761u + 99);
    if (script) { CH.replay = true; CH.script = *script; }
    auto w = new World(p);
    w->run();
    if (!K->fatal.empty() || (W && false)) {}
}

struct Result {
    std::string status = "none", fatal, err; uint64_t hash = 0, nsys = 0, nswitch = 0, npreempt = 0, nsig = 0, nevents = 0, nchoice = 0; Time now = 0;
    std::vector<Viol> viols; std::map<std::string, double> stat; std::map<std::string, uint64_t> hits, cover; std::string made; int grants = 0; size_t out = 0, in = 0, clients = 0;
    bool ok() const { return status == "ok" && fatal.empty(); }
};
static Result parse_result(const char *buf, const std::string &err, int wst) {
    Result r; r.err = err; std::istringstream in(buf); std::string l;
    while (std::getline(in, l)) {
        size_t sp = l.find(' '); std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
        if (k == "status") r.status = v;
        else if (k == "fatal") r.fatal = v;
        else if (k == "num") sscanf(v.c_str(), "%lu %ld %lu %lu %lu %lu %lu %lu", &r.hash, &r.now, &r.nsys, &r.nswitch, &r.npreempt, &r.nsig, &r.nevents, &r.nchoice);
        else if (k == "viol") { size_t a = v.find(' '), b = v.find(' ', a + 1); r.viols.push_back({v.substr(0, a), v.substr(a + 1, b - a - 1), v.substr(b + 1)}); }
        else if (k == "stat") { size_t a = v.find(' '); r.stat[v.substr(a + 1)] = atof(v.c_str()); }
        else if (k == "hit") { size_t a = v.find(' '); r.hits[v.substr(a + 1)] = strtoull(v.c_str(), nullptr, 10); }
        else if (k == "cover") { size_t a = v.find(' '); r.cover[v.substr(a + 1)] = strtoull(v.c_str(), nullptr, 10); }
        else if (k == "work") sscanf(v.c_str(), "%d %zu %zu %zu", &r.grants, &r.out, &r.in, &r.clients);
        else if (k == "made") r.made = v;
    }
    if (r.status == "asan") {
        size_t q = err.find("AddressSanitizer: "); std::string what = "memory-error", where;
        if (q != std::string::npos) { what = err.substr(q + 18, err.find_first_of(" \n(", q + 18) - q - 18); }
        // the first frame inside the program under test
        std::istringstream e(err); std::string x; while (std::getline(e, x)) { size_t a = x.find(" in "), b = x.find("/src/"); if (x.find("    #") == 0 && a != std::string::npos && b != std::string::npos && x.find("/sim/") == std::string::npos) { where = x.substr(a + 4, x.find(' ', a + 4) - a - 4); break; } }
        std::string lines; std::istringstream e2(err); int n = 0; while (std::getline(e2, x) && n < 14) if (x.find("ERROR: ") != std::string::npos || x.find("    #") == 0) { lines += x + " | "; n++; }
        r.viols.push_back({"DEATH", "asan-" + what + (where.empty() ? "" : "-" + where), "invalid memory access by the program: " + lines});
    } else if (!r.fatal.empty()) {
        std::string s; for (char c : r.fatal.substr(0, 40)) s += isalnum((unsigned char)c) ? c : '-';
        r.viols.push_back({"DEATH", s, r.fatal});
    } else if (r.status == "none") {
        if (WIFSIGNALED(wst) && (WTERMSIG(wst) == SIGSEGV || WTERMSIG(wst) == SIGBUS || WTERMSIG(wst) == SIGILL)) r.viols.push_back({"DEATH", "signal", fmt("the program crashed with signal %d", WTERMSIG(wst))});
        else r.status = fmt("lost-%x", wst);
    }
    return r;
}
static Slot new_slot() { Slot s; s.buf = (char *)mmap(nullptr, RES_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); s.errfd = memfd_create("err", 0); return s; }
static void launch(Slot &s, const Plan &p, const std::map<uint64_t, uint32_t> *script) {
    s.buf[0] = 0; ftruncate(s.errfd, 0); lseek(s.errfd, 0, SEEK_SET); s.t0 = wall_now();
    s.pid = fork();
    if (s.pid == 0) {
        dup2(s.errfd, 2); int n = open("/dev/null", O_WRONLY); dup2(n, 1);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        res_buf = s.buf; __sanitizer_set_death_callback(on_asan_death);
        alarm(120);
        run_here(p, script); write_result("ok"); _exit(0);
    }
}
static std::string slot_err(Slot &s) { std::string e; off_t n = lseek(s.errfd, 0, SEEK_END); e.resize(std::min<off_t>(n, 60000)); pread(s.errfd, &e[0], e.size(), 0); return e; }
static std::vector<Result> run_many(const std::vector<std::pair<Plan, const std::map<uint64_t, uint32_t> *>> &v) {
    static std::vector<Slot> slots; while (slots.size() < v.size()) slots.push_back(new_slot());
    std::vector<Result> r; for (size_t i = 0; i < v.size(); i++) launch(slots[i], v[i].first, v[i].second);
    for (size_t i = 0; i < v.size(); i++) { int st; waitpid(slots[i].pid, &st, 0); r.push_back(parse_result(slots[i].buf, slot_err(slots[i]), st)); }
    return r;
}
static Result run_one(const Plan &p, const std::map<uint64_t, uint32_t> *script = nullptr) { return run_many({{p, script}})[0]; }

// ------------------------------------------------------------- properties
static const std::map<std::string, std::vector<std::string>> KINDS = {
    {"C01", {"stream", "bcast", "unread", "serve", "latency"}},
    {"C02", {"log", "unread", "logfmt"}},
    {"C03", {"input", "serve", "bcast"}},
    {"C04", {"access", "input", "notice", "serve"}},
    {"C05", {"access", "input", "bcast", "reset", "break"}},
    {"C06", {"disturb", "stream", "log", "input", "latency", "serve", "unread"}},
    {"C07", {"serve", "reconnect", "start", "term", "busy"}},
    {"C08", {"leak", "idle", "serve", "busy"}},
    {"C09", {"disturb", "reconnect", "spacing", "serve", "dup"}},
    {"C10", {"stream", "log", "input", "telnet", "serve", "break"}},
    {"C11", {"logfmt", "log"}},
    {"C12", {"log", "stream", "input", "disturb", "logfmt", "serve", "logname"}},
    {"C13", {"replay", "stream"}},
    {"C14", {"reset", "latency", "stream", "input", "serve"}},
    {"C15", {"break", "input", "stream"}},
    {"C16", {"query", "stream", "input", "serve", "latency"}},
    {"C17", {"startup", "start"}},
    {"C18", {"ctl", "restart", "start", "serve", "term"}},
    {"C19", {"term", "log", "stream"}},
    {"C20", {"tstamp", "idle"}},
    {"C21", {"tty", "clstatus"}},
    {"C22", {"relay"}},
    {"C23", {"acl", "access", "stream", "input", "reset", "serve"}},
    {"C24", {"notice", "stream", "bcast"}},
    {"C25", {"restart", "start", "log", "logname", "logfmt", "serve", "reconnect", "unread", "idle"}},
    {"C26", {"suspend", "stream", "leak", "log", "input", "busy", "idle"}},
    {"C27", {"log", "stream", "input", "serve", "logfault", "logname", "logfmt", "notice", "disturb", "replay", "latency"}},
    {"C28", {"private", "fdleak"}},
    {"C29", {"serial", "stream", "input", "log"}},
    {"C30", {"conf", "leak", "ipmi", "start", "log", "logname", "logfmt", "query", "serial", "reset", "tstamp", "stream", "input", "serve", "reconnect"}},
};
static bool counts(const std::string &prop, const Viol &v) {
    if (v.prop == "DEATH") return true;
    auto i = KINDS.find(prop); if (i == KINDS.end()) return true;
    return std::find(i->second.begin(), i->second.end(), v.prop) != i->second.end();
}
struct Known { std::string prop, kind, sig, text; };
static std::string jget(const std::string &l, const std::string &k) {
    size_t q = l.find("\"" + k + "\""); if (q == std::string::npos) return "";
    q = l.find('"', l.find(':', q) + 1); if (q == std::string::npos) return "";
    std::string o; for (q++; q < l.size() && l[q] != '"'; q++) { if (l[q] == '\\' && q + 1 < l.size()) q++; o += l[q]; } return o;
}
static std::vector<Known> load_known(const std::string &f, const std::string &prop) {
    std::vector<Known> v; std::ifstream in(f); std::string l;
    while (std::getline(in, l)) { if (l.empty() || l[0] != '{') continue; Known k{jget(l, "property"), jget(l, "kind"), jget(l, "signature"), jget(l, "what")}; if (k.prop == prop || k.prop == "*") v.push_back(k); }
    return v;
}
static const Known *known(const std::vector<Known> &ks, const Viol &v) { for (auto &k : ks) if (k.kind == v.prop && !fnmatch(k.sig.c_str(), (v.sig + " " + v.msg).c_str(), 0)) return &k; return nullptr; }
static uint64_t seed_of(uint64_t base, const std::string &prop, uint64_t i) {
    uint64_t h = 1469598103934665603ULL; for (char c : prop) h = (h ^ (unsigned char)c) * 1099511628211ULL;
    h ^= base * 0x9E3779B97F4A7C15ULL; h = (h ^ (h >> 31)) * 0xBF58476D1CE4E5B9ULL; h ^= i * 0x94D049BB133111EBULL; h = (h ^ (h >> 29)) * 0xBF58476D1CE4E5B9ULL;
    return (h ^ (h >> 32)) & 0xffffffffffffULL;
}

// ------------------------------------------------------------- minimiser
static bool same(const Result &r, const Viol &v) { for (auto &x : r.viols) if (x.prop == v.prop && x.sig == v.sig) return true; return false; }
struct Minimised { Plan p; std::map<uint64_t, uint32_t> trace; Result r; int tries = 0; bool ok = false; };
static std::map<uint64_t, uint32_t> to_trace(const std::string &s) { std::map<uint64_t, uint32_t> m; std::istringstream in(s); std::string t; while (in >> t) { uint64_t a; unsigned b; if (sscanf(t.c_str(), "%lu:%u", &a, &b) == 2) m[a] = b; } return m; }
static Minimised minimise(const Plan &p0, const Viol &v, double budget) {
    Minimised m; m.p = p0; double end = wall_now() + budget;
    auto tryall = [&](const std::vector<Plan> &c) -> int {     // index of the first that still fails
        for (size_t i = 0; i < c.size(); i += 8) {
            std::vector<std::pair<Plan, const std::map<uint64_t, uint32_t> *>> b;
            for (size_t j = i; j < c.size() && j < i + 8; j++) b.push_back({c[j], nullptr});
            auto r = run_many(b); m.tries += b.size();
            for (size_t j = 0; j < r.size(); j++) if (same(r[j], v)) return (int)(i + j);
            if (wall_now() > end) return -1;
        }
        return -1;
    };
    // operations
    auto ddmin = [&](auto get, size_t n0) {
        (void)n0; size_t chunk = std::max<size_t>(1, get(m.p).size() / 2);
        while (wall_now() < end) {
            bool any = false; auto n = get(m.p).size(); if (!n) break;
            std::vector<Plan> c; for (size_t i = 0; i < n; i += chunk) { Plan q = m.p; auto &vv = get(q); vv.erase(vv.begin() + i, vv.begin() + std::min(n, i + chunk)); c.push_back(q); }
            int k = tryall(c); if (k >= 0) { m.p = c[k]; any = true; }
            if (!any) { if (chunk == 1) break; chunk = std::max<size_t>(1, chunk / 2); } else chunk = std::min(chunk, std::max<size_t>(1, get(m.p).size()));
        }
    };
    ddmin([](Plan &q) -> std::vector<Op> & { return q.ops; }, 0);
    ddmin([](Plan &q) -> std::vector<FaultRule> & { return q.faults; }, 0);
    ddmin([](Plan &q) -> std::vector<ConsoleSpec> & { return q.cons; }, 0);
    for (int i = 0; i < 10 && wall_now() < end; i++) {
        Plan q = m.p; int *f[] = {&q.kn.p_yield, &q.kn.p_pick, &q.kn.bb_slice, &q.kn.p_shortr, &q.kn.p_shortw, &q.kn.p_eintr, &q.kn.p_eagain, &q.kn.jitter, &q.kn.p_split, &q.kn.p_sigbb};
        if (*f[i] == 0) continue;
        *f[i] = 0; if (tryall({q}) == 0) m.p = q;
    }
    // schedule
    Result r = run_one(m.p); m.tries++;
    m.trace = to_trace(r.made); Result rr = run_one(m.p, &m.trace); m.tries++;
    if (!same(rr, v)) { m.r = r; m.ok = same(r, v) ; m.p.opt["seeded"] = "1"; return m; }
    m.r = rr; m.ok = true;
    std::vector<std::pair<uint64_t, uint32_t>> t(m.trace.begin(), m.trace.end());
    for (size_t chunk = std::max<size_t>(1, t.size() / 2); wall_now() < end && !t.empty();) {
        bool any = false;
        for (size_t i = 0; i < t.size() && wall_now() < end; i += chunk * 8) {
            std::vector<std::map<uint64_t, uint32_t>> ms; std::vector<std::pair<Plan, const std::map<uint64_t, uint32_t> *>> b;
            std::vector<size_t> at; for (size_t j = i; j < t.size() && at.size() < 8; j += chunk) at.push_back(j);
            for (size_t a : at) { auto u = t; u.erase(u.begin() + a, u.begin() + std::min(u.size(), a + chunk)); ms.emplace_back(u.begin(), u.end()); }
            for (auto &x : ms) b.push_back({m.p, &x});
            auto rs = run_many(b); m.tries += b.size();
            for (size_t j = 0; j < rs.size(); j++) if (same(rs[j], v)) { t.erase(t.begin() + at[j], t.begin() + std::min(t.size(), at[j] + chunk)); any = true; break; }
        }
        if (!any) { if (chunk == 1) break; chunk = std::max<size_t>(1, chunk / 2); } else chunk = std::min(chunk, std::max<size_t>(1, t.size() / 2));
    }
    m.trace = std::map<uint64_t, uint32_t>(t.begin(), t.end());
    rr = run_one(m.p, &m.trace); m.tries++; if (same(rr, v)) m.r = rr; else m.ok = false;
    return m;
}
static std::string replay_text(const Plan &p, const std::map<uint64_t, uint32_t> &t, const Viol &v, const std::string &prop, uint64_t hash) {
    std::string o = "# violation of " + prop + ": " + v.prop + " " + v.sig + "\n# " + esc_line(v.msg) + "\n# replay with: checks/replay.sh THIS-FILE\n# expect " + prop + " " + v.prop + " " + v.sig + fmt(" %lu", hash) + "\n" + p.text();
    std::string l; int n = 0; for (auto &e : t) { if (n == 0) l = "trace"; l += fmt(" %lu:%u", e.first, e.second); if (++n == 16) { o += l + "\n"; n = 0; } } if (n) o += l + "\n";
    return o;
}

// ------------------------------------------------------------- search
static std::string js(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += (char)c; } return o + "\""; }
struct Stats { uint64_t runs = 0, nontrivial = 0, incon = 0, nsys = 0, nswitch = 0, npre = 0, nsig = 0, choices = 0, off = 0; double sim = 0; std::map<std::string, uint64_t> hits, cover; std::map<std::string, double> stat; std::unordered_set<uint64_t> hashes; size_t out = 0, in = 0, grants = 0, clients = 0; std::map<std::string, uint64_t> offk, inc; std::map<std::string, std::pair<int, std::string>> survey; };

static int do_check(int argc, char **argv) {
    std::string prop = argv[2], tier = "quick", outf, dir = ".", kf; uint64_t seed = 1; long n = 2000; double budget = 400; int jobs = 8;
    for (int i = 3; i + 1 < argc; i += 2) { std::string a = argv[i], b = argv[i + 1]; if (a == "--tier") tier = b; else if (a == "--seed") seed = strtoull(b.c_str(), nullptr, 10); else if (a == "--runs") n = atol(b.c_str()); else if (a == "--budget") budget = atof(b.c_str()); else if (a == "--evidence") outf = b; else if (a == "--replays") dir = b; else if (a == "--known") kf = b; else if (a == "--jobs") jobs = atoi(b.c_str()); }
    shared_cov = (uint8_t *)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    boot(); auto ks = load_known(kf, prop);
    double t0 = wall_now(); Stats st; std::vector<Slot> slots; for (int i = 0; i < jobs; i++) slots.push_back(new_slot());
    long next = 0, running = 0; bool found = false; Plan fp; Viol fv; uint64_t fidx = 0; std::map<std::string, int> known_seen; std::vector<std::string> samples;
    std::map<uint64_t, uint64_t> recheck;    // run index -> hash, for the determinism gate
    long done_until = n;
    auto harvest = [&](Slot &s, int wst) {
        Result r = parse_result(s.buf, slot_err(s), wst); st.runs++;
        if (r.status != "ok" && r.status != "asan") { if (r.status != "none" || r.viols.empty()) { st.incon++; st.inc[r.status + " " + r.err.substr(0, 100)]++; } }
        st.nsys += r.nsys; st.nswitch += r.nswitch; st.npre += r.npreempt; st.nsig += r.nsig; st.choices += r.nchoice; st.sim += r.now / 1e6; st.out += r.out; st.in += r.in; st.grants += r.grants; st.clients += r.clients;
        for (auto &e : r.hits) st.hits[e.first] += e.second;
        for (auto &e : r.cover) st.cover[e.first] += e.second;
        for (auto &e : r.stat) if (e.first == "peak") st.stat[e.first] = std::max(st.stat[e.first], e.second); else st.stat[e.first] += e.second;
        bool nt = r.nsys > 200 && (r.grants || r.out || r.clients || !r.hits.empty());
        if (st.hashes.insert(r.hash).second && nt) st.nontrivial++;
        if (s.idx < 24) recheck[s.idx] = r.hash;
        if (samples.size() < 2 && s.idx < 2) samples.push_back(fmt("seed %lu: %.1f simulated s, %lu system calls, %lu choices, ", s.seed, r.now / 1e6, r.nsys, r.nchoice) + generate(prop, s.seed, tier).text().substr(0, 1500));
        if (getenv("SURVEY")) { for (auto &v : r.viols) { auto &e = st.survey[std::string(counts(prop, v) ? "VIOL " : "other ") + v.prop + "/" + v.sig]; if (!e.first++) e.second = fmt("seed %lu: ", s.seed) + v.msg; } return; }
        for (auto &v : r.viols) {
            if (!counts(prop, v)) { st.off++; st.offk[v.prop + "/" + v.sig + " seed " + std::to_string(s.seed)]++; continue; }
            if (const Known *k = known(ks, v)) { known_seen[k->text]++; continue; }
            if (!found || s.idx < fidx) { found = true; fp = generate(prop, s.seed, tier); fv = v; fidx = s.idx; done_until = std::min<long>(done_until, (long)fidx); break; }
        }
    };
    while (next < done_until || running) {
        for (auto &s : slots) if (!s.pid && next < done_until && wall_now() - t0 < budget) { s.idx = next; s.seed = seed_of(seed, prop, next); next++; launch(s, generate(prop, s.seed, tier), nullptr); running++; }
        if (!running) break;
        int wst; pid_t p = waitpid(-1, &wst, 0); if (p < 0) break;
        for (auto &s : slots) if (s.pid == p) { s.pid = 0; running--; harvest(s, wst); }
    }
    double t_search = wall_now() - t0;
    // determinism gate: repeating a seed must repeat the execution exactly
    int det = 0, detbad = 0;
    for (auto &e : recheck) { Plan p = generate(prop, seed_of(seed, prop, e.first), tier); Result r = run_one(p); det++; if (r.hash != e.second) { detbad++; fprintf(stderr, "not deterministic: run %lu\n", e.first); } if (det >= (tier == "quick" ? 6 : 24)) break; }
    // replay of a recorded schedule must repeat it as well
    if (!recheck.empty()) { Plan p = generate(prop, seed_of(seed, prop, 0), tier); Result a = run_one(p); auto tr = to_trace(a.made); Result b = run_one(p, &tr); det++; if (a.hash != b.hash && a.made.size() < RES_SIZE - 8192) { detbad++; fprintf(stderr, "replay of a recorded schedule differs\n"); } }
    int rc = 0; std::string rp; double t_min = 0; int tries = 0;
    if (found) {
        double a = wall_now(); Minimised m = minimise(fp, fv, tier == "quick" ? 60 : 180); t_min = wall_now() - a; tries = m.tries;
        Viol v = fv; for (auto &x : m.r.viols) if (x.prop == fv.prop && x.sig == fv.sig) v = x;
        mkdir(dir.c_str(), 0755); rp = dir + "/" + prop + "-" + std::to_string(fp.seed) + ".replay";
        if (!m.ok) { m.p = fp; m.trace.clear(); m.p.opt["seeded"] = "1"; Result r = run_one(m.p); m.r = r; }
        std::ofstream(rp) << replay_text(m.p, m.trace, v, prop, m.r.hash);
        // exact reproduction from the file
        std::ifstream in(rp); std::stringstream ss; ss << in.rdbuf(); Plan q; std::map<uint64_t, uint32_t> tr; Plan::parse(ss.str(), &q, &tr); Result r1 = run_one(q, q.has("seeded") ? nullptr : &tr), r2 = run_one(q, q.has("seeded") ? nullptr : &tr);
        bool rep = same(r1, fv) && r1.hash == r2.hash;
        printf("%s\n  first seen in run %lu, seed %lu; minimised in %d runs (%.0f s) to %zu operations, %zu faults, %zu scheduling decisions; replay %s\n", (v.prop + "/" + v.sig + ": " + v.msg).c_str(), fidx, fp.seed, tries, t_min, m.p.ops.size(), m.p.faults.size(), m.trace.size(), rep ? "reproduces it exactly" : "does not reproduce it");
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), rp.c_str()); rc = 1;
    }
    for (auto &k : ks) if (k.prop == prop) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.text.c_str());
    size_t cov = 0; for (int i = 0; i < (1 << 16); i++) cov += shared_cov[i] != 0;
    double w = wall_now() - t0;
    if (!outf.empty()) {
        std::string o = "{\n"; auto kv = [&](const std::string &k, const std::string &v) { o += "  " + js(k) + ": " + v + ",\n"; };
        kv("property", js(prop)); kv("tier", js(tier)); kv("seed", std::to_string(seed)); kv("level", js("exploration"));
        auto mp = [&](const std::map<std::string, uint64_t> &m) { std::string s = "{"; for (auto &e : m) s += (s.size() > 1 ? ", " : "") + js(e.first) + ": " + std::to_string(e.second); return s + "}"; };
        o += "  \"coverage\": {\n";
        auto cv = [&](const std::string &k, const std::string &v) { o += "    " + js(k) + ": " + v + ",\n"; };
        cv("evaluations", std::to_string(st.runs)); cv("distinct_nontrivial", std::to_string(st.nontrivial));
        cv("rule", js("one evaluation = one simulated execution of the real conmand/conman under a seed that determines the configuration, the operations, the faults and every scheduling decision; distinct = different hash over every scheduling switch, system call result and delivered event of the execution; non-trivial = more than 200 system calls and at least one granted session, console byte, client or injected fault"));
        std::string ss = "["; for (auto &x : samples) ss += (ss.size() > 1 ? ", " : "") + js(x); cv("samples", ss + "]");
        cv("seeds_per_hour", std::to_string((long)(st.runs / std::max(t_search, 0.001) * 3600))); cv("simulated_seconds", fmt("%.0f", st.sim)); cv("simulated_seconds_per_wall_second", fmt("%.0f", st.sim / std::max(t_search, 0.001)));
        cv("fault_and_event_injections", mp(st.hits)); cv("situations_reached", mp(st.cover)); { std::map<std::string, uint64_t> m; for (auto &e : st.stat) m[e.first == "peak" ? "most bytes sent to one session" : e.first] = (uint64_t)e.second; cv("oracle_observations", mp(m)); }
        cv("distinct_executions", std::to_string(st.hashes.size())); cv("basic_blocks_reached", std::to_string(cov)); cv("scheduling_decisions", std::to_string(st.choices)); cv("context_switches", std::to_string(st.nswitch)); cv("preemptions", std::to_string(st.npre)); cv("signals_handled", std::to_string(st.nsig)); cv("system_calls", std::to_string(st.nsys));
        cv("sessions_granted", std::to_string(st.grants)); cv("clients_run", std::to_string(st.clients)); cv("console_bytes_out", std::to_string(st.out)); cv("console_bytes_in", std::to_string(st.in));
        cv("inconclusive_runs", std::to_string(st.incon)); cv("inconclusive_reasons", mp(st.inc)); cv("findings_outside_this_property", std::to_string(st.off)); cv("determinism_checks", std::to_string(det)); cv("determinism_failures", std::to_string(detbad));
        cv("real_components", js("conmand and conman: every object file of /repo, with AddressSanitizer; glibc regex, fnmatch, time conversion and stdio formatting"));
        o += "    \"stub_components\": " + js("kernel (processes, threads, signals, poll, sockets, files, locks, ttys, inotify, clocks), resolver, TCP-wrappers library, libipmiconsole, console devices, /bin/sh and console processes, session peers other than conman") + "\n  },\n";
        kv("assumptions", "[" + js("the simulated kernel follows the documented Linux behaviour of each call; a property is only judged on executions the simulator can produce") + ", " + js("data races are explored at basic-block granularity with sequentially consistent memory") + "]");
        std::string kn = "["; for (auto &e : known_seen) kn += (kn.size() > 1 ? ", " : "") + js(e.first + fmt(" (seen %d times)", e.second)); kv("known_findings_seen", kn + "]");
        kv("violations", rc ? "[" + js(fv.prop + "/" + fv.sig + ": " + fv.msg + " replay " + rp) + "]" : "[]");
        o += "  \"wall_s\": " + fmt("%.1f", w) + "\n}\n";
        std::ofstream(outf + ".tmp") << o; rename((outf + ".tmp").c_str(), outf.c_str());
    }
    printf("%s %s: %lu runs, %lu distinct non-trivial, %.0f simulated s, %.1f wall s, %zu basic blocks, %lu inconclusive, %lu off-property, determinism %d/%d\n", prop.c_str(), tier.c_str(), st.runs, st.nontrivial, st.sim, w, cov, st.incon, st.off, det - detbad, det);
    for (auto &e : st.inc) printf("  inconclusive %s: %lu\n", e.first.c_str(), e.second);
    for (auto &e : st.survey) printf("  %s x%d %s\n", e.first.c_str(), e.second.first, e.second.second.substr(0, 400).c_str());
    if (getenv("SHOW_OFF")) for (auto &e : st.offk) printf("  off-property %s: %lu\n", e.first.c_str(), e.second);
    return rc;
}
static void print_run(const Result &r, const std::string &prop) {
    printf("status %s fatal '%s' hash %lx sim %.3f s nsys %lu switches %lu preempt %lu choices %lu grants %d out %zu in %zu\n", r.status.c_str(), r.fatal.c_str(), r.hash, r.now / 1e6, r.nsys, r.nswitch, r.npreempt, r.nchoice, r.grants, r.out, r.in);
    for (auto &v : r.viols) printf("%s %s/%s: %s\n", counts(prop, v) ? "VIOL" : "other", v.prop.c_str(), v.sig.c_str(), v.msg.c_str());
    if (r.status != "ok") printf("%s\n", r.err.substr(0, 3000).c_str());
}
int main(int argc, char **argv) {
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "check" && argc > 2) return do_check(argc, argv);
    if (mode == "plan" && argc > 3) { printf("%s", generate(argv[2], strtoull(argv[3], nullptr, 10), argc > 4 ? argv[4] : "quick").text().c_str()); return 0; }
    if (mode == "min" && argc > 5) {         // min PROP SEED KIND SIG: minimise one seed into /tmp/min.replay
        boot(); Plan q = generate(argv[2], strtoull(argv[3], nullptr, 10), "quick"); Viol v{argv[4], argv[5], ""}; Result r = run_one(q); if (!same(r, v)) { printf("not reproduced\n"); return 1; }
        Minimised m = minimise(q, v, 60); for (auto &x : m.r.viols) if (x.prop == v.prop && x.sig == v.sig) v = x;
        std::ofstream("/tmp/min.replay") << replay_text(m.p, m.trace, v, argv[2], m.r.hash); printf("%s\n", replay_text(m.p, m.trace, v, argv[2], m.r.hash).c_str()); return 0;
    }
    bool trace = getenv("TRACE") != nullptr;
    Plan p; std::map<uint64_t, uint32_t> tr; bool scripted = false; std::string text, prop, expect;
    if (mode == "run" && argc > 3) { p = generate(argv[2], strtoull(argv[3], nullptr, 10), argc > 4 ? argv[4] : "quick"); prop = argv[2]; }
    else if (mode == "replay" && argc > 2) {
        std::ifstream in(argv[2]); std::stringstream ss; ss << in.rdbuf(); text = ss.str(); if (text.empty()) { fprintf(stderr, "cannot read %s\n", argv[2]); return 2; }
        Plan::parse(text, &p, &tr); scripted = !p.has("seeded") && text.find("# expect") != std::string::npos; prop = p.prop;
        size_t q = text.find("# expect "); if (q != std::string::npos) expect = text.substr(q + 9, text.find('\n', q) - q - 9);
    } else { fprintf(stderr, "usage: consim check PROP [--tier T --seed N --runs N --budget S --evidence F --replays D --known F] | run PROP SEED | plan PROP SEED | replay FILE\n"); return 2; }
    boot();
    if (trace) {
        K->tracing = true; static Slot s = new_slot(); res_buf = s.buf;
        __sanitizer_set_death_callback([] { for (auto &r : K->trace) printf("%11.6f %d/%d %s\n", r.t / 1e6, r.pid, r.ctx, r.s.c_str()); fflush(stdout); write_result("asan"); });
        run_here(p, scripted ? &tr : nullptr); write_result("ok");
        for (auto &r : K->trace) printf("%11.6f %d/%d %s\n", r.t / 1e6, r.pid, r.ctx, r.s.c_str());
        for (auto &l : K->syslog_lines) printf("syslog %s\n", l.c_str());
        for (auto &e : K->procs) if (!e.second->out.empty() || !e.second->err.empty()) printf("pid %d stdout<%s> stderr<%s>\n", e.first, hexs(e.second->out, 3000).c_str(), hexs(e.second->err, 3000).c_str());
        if (getenv("LOGS")) for (auto &l : W->logs) printf("log %s: %s\n", l.first.c_str(), hexs(l.second, 20000).c_str());
        if (getenv("RX")) for (auto &x : W->sess) printf("sess %s st %d rx: %s\n", x.first.c_str(), x.second->st, hexs(x.second->rx, 20000).c_str());
        if (getenv("RX")) for (auto &x : W->clients) printf("client %s status 0x%x ttyok %d screen: %s\n", x.first.c_str(), x.second->status, x.second->tty_ok, hexs(x.second->screen, 20000).c_str());
        Result r = parse_result(s.buf, "", 0); print_run(r, prop); return 0;
    }
    Result r = run_one(p, scripted ? &tr : nullptr);
    print_run(r, prop);
    if (mode == "replay" && !expect.empty()) {
        std::istringstream e(expect); std::string pr, k, sg; uint64_t h = 0; e >> pr >> k >> sg >> h;
        bool hit = same(r, Viol{k, sg, ""});
        printf("%s; execution hash %s\n", hit ? "violation reproduced" : "violation not reproduced", r.hash == h ? "identical" : "different");
        if (hit) { printf("VIOLATION property=%s replay=%s\n", pr.c_str(), argv[2]); return 1; }
        return 0;
    }
    for (auto &v : r.viols) if (counts(prop, v)) return 1;
    return 0;
}
