// The configuration file: the same settings, written in any of the ways the documentation allows.
#include "world.h"
#include <ipmiconsole.h>

struct Tok { char k; std::string t; };      // w(ord) i(nteger) s(tring) =
static std::vector<Tok> toks_of(const std::string &l) {
    std::vector<Tok> v;
    for (size_t i = 0; i < l.size();) {
        if (isspace((unsigned char)l[i])) { i++; continue; }
        size_t j = i + 1;
        if (l[i] == '"') { while (l[j] != '"') j++; v.push_back({'s', l.substr(i + 1, j - i - 1)}); i = j + 1; continue; }
        if (isalpha((unsigned char)l[i]) || l[i] == '_') { while (j < l.size() && (isalnum((unsigned char)l[j]) || l[j] == '_')) j++; v.push_back({'w', l.substr(i, j - i)}); }
        else if (isdigit((unsigned char)l[i]) || (l[i] == '-' && j < l.size() && isdigit((unsigned char)l[j]))) { while (j < l.size() && isdigit((unsigned char)l[j])) j++; v.push_back({'i', l.substr(i, j - i)}); }
        else v.push_back({'=', l.substr(i, 1)});
        i = j;
    }
    return v;
}
static bool keyword(const std::string &s) {
    static const std::set<std::string> K = {"console", "coredump", "coredumpdir", "dev", "execpath", "global", "ipmiopts", "keepalive", "log", "logdir", "logfile", "logopts", "loopback", "name", "nofile", "off", "on", "pidfile", "port", "resetcmd", "seropts", "server", "syslog", "tcpwrappers", "testopts", "timestamp"};
    std::string l; for (char c : s) l += tolower(c); return K.count(l);
}
static std::string cased(Rng &r, const std::string &w) { std::string o; int z = r.below(4); for (char c : w) o += z == 0 ? tolower(c) : z == 1 ? toupper(c) : z == 2 && o.empty() ? toupper(c) : z == 3 && r.pct(50) ? toupper(c) : tolower(c); return o; }

std::string World::styled(uint64_t seed) {
    Rng r(seed * 7919 + 5); conf_bad.clear();
    std::string nl = r.pct(15) ? "\r\n" : r.pct(6) ? "\r" : "\n"; bool cont = nl != "\r" && r.pct(40), roomy = r.pct(60);
    auto ws = [&](bool need) -> std::string {
        std::string o; if (roomy && r.pct(30)) for (int i = r.range(1, 3); i--;) o += r.pick(std::vector<std::string>{" ", " ", "\t", "\v", "\f"});
        if (cont && r.pct(12)) o += "\\" + nl + (r.pct(50) ? "    " : ""); if (o.empty() && need) o = " "; return o;
    };
    auto write = [&](const std::vector<Tok> &v) {
        std::string o = roomy && r.pct(20) ? " " : "";
        for (size_t i = 0; i < v.size(); i++) {
            auto &t = v[i]; bool wordy = i && v[i - 1].k == 'w'; std::string x;
            bool val = i && v[i - 1].k == '=';
            if (t.k == 'w') x = val || i == 0 || keyword(t.t) ? cased(r, t.t) : t.t;
            else if (t.k == 's') {
                bool plain = !t.t.empty() && isalpha((unsigned char)t.t[0]) && !keyword(t.t); for (unsigned char c : t.t) if (!isalnum(c) && c != '_') plain = false;
                if (plain && r.pct(30)) x = t.t; else if (t.t.find('"') != std::string::npos || (t.t.find('\'') == std::string::npos && r.pct(35))) x = "'" + t.t + "'"; else x = "\"" + t.t + "\"";
            }
            else x = t.t;
            bool glue = i && (isalnum((unsigned char)x[0]) || x[0] == '_') && (isalnum((unsigned char)o.back()) || o.back() == '_') ; (void)wordy;
            if (i) o += ws(glue || (x[0] != '=' && v[i - 1].t != "="));
            o += x;
        }
        if (r.pct(10)) o += roomy ? " \t" : " ";
        if (r.pct(15)) o += r.pick(std::vector<std::string>{"# the end", " # server port=1", " # don't", "#\"", " # more \\", " ##"});
        return o;
    };
    std::vector<std::vector<Tok>> lines; std::vector<std::string> raw;      // either a directive or, when empty, the raw line
    std::vector<int> bad;
    auto add = [&](const std::string &l) { lines.push_back(toks_of(l)); raw.push_back(""); bad.push_back(0); };
    auto add_raw = [&](const std::string &l, int b) { lines.push_back({}); raw.push_back(l); bad.push_back(b); };
    static const std::vector<std::string> BAD = {"bogus directive=1", "servr port=1", "console", "console name=\"x0\"", "console dev=\"unix:/tmp/x0\"", "console name=\"x1\" dev=\"unix:/tmp/x1\" bogus", "console name=\"x2\" dev=\"unix:/tmp/x2\" log", "console name=x3 dev=/nonexistent/prog",
        "console name \"x4\" dev=\"unix:/tmp/x4\"", "console name=\"\" dev=\"unix:/tmp/x5\"", "console name=\"x6\" dev=\"\"", "console name=\"x7 dev=\"unix:/tmp/x7\"", "console name=5 dev=\"unix:/tmp/x8\"", "console name=log dev=\"unix:/tmp/x9\"", "console name=\"y0\" dev=\"unix:/tmp/y0", "console = \"y1\"", "CONSOLE NAME='y2' DEV='unix:/tmp/y2' 17", "console name=\"y3\" dev=\"unix:/tmp/y3\" server",
        "server port", "server port=abc", "server port=-1", "server port=\"7\"", "server port 9", "server keepalive=maybe", "server keepalive=", "server loopback on", "server loopback=\"off\"", "server timestamp=x", "server timestamp=-5", "server timestamp", "server resetcmd=", "server resetcmd=\"\"", "server syslog=\"nofac\"", "server logfile=\"\"", "server logfile=7", "server pidfile=\"\"", "server logdir=3", "server nofile=\"many\"", "server execpath=5", "server bogus=1", "server name=\"c0\"", "server \"port\"=1", "server coredump=1",
        "global bogus=1", "global logopts=\"\"", "global logopts", "global log", "global log=5", "global seropts=\"\"", "global dev=\"unix:/tmp/z\"", "global server port=1", "=", "1234", "@", "\"unclosed", "'unclosed\"", "foo \"unclosed", "port=7891", "- 5"};
    int nbad = r.pct(60) ? r.range(1, 5) : 0, ndec = r.pct(60) ? 25 : 0;
    std::map<std::string, std::string> decoy = {{"logdir", "\"/var/log/wrong\""}, {"logfile", "\"/var/log/wrong.log\""}, {"resetcmd", "\"wrongctl %N\""}, {"keepalive", "on"}, {"timestamp", "1m"}, {"loopback", "on"}, {"logopts", "\"sanitize,timestamp\""}, {"seropts", "\"1200,7e2\""}};
    auto key_of = [](const std::string &l) { auto t = toks_of(l); return t.size() > 1 ? t[1].t : std::string(); };
    std::vector<std::string> srv, glb; for (auto &l : plan.conf) (l.compare(0, 7, "global ") == 0 ? glb : srv).push_back(l);
    std::map<std::string, int> cnt; for (auto &l : plan.conf) cnt[key_of(l)]++;
    bool hasts = cnt["timestamp"];
    bool xp = r.pct(40); std::string xpath = r.pick(std::vector<std::string>{"/bin", "/nonexistent:/bin", "/usr/share/conman/exec:/bin:/dev", "/etc/conman.conf:/bin"}); if (xp && r.pct(ndec)) srv.push_back("server execpath=\"/nonexistent\"");
    if (xp) srv.push_back("server execpath=\"" + xpath + "\""); for (auto s : {"coredump=off", "nofile=1000", "syslog=\"local3\"", "coredumpdir=\"/tmp/\""}) if (r.pct(12)) srv.insert(srv.begin() + r.below(srv.size() + 1), std::string("server ") + s);
    for (auto &l : srv) { std::string k = key_of(l); if (decoy.count(k) && cnt[k] == 1 && r.pct(ndec)) add("server " + k + "=" + decoy[k]);
        std::string as = plan.has("args") ? plan.opt.at("args") : "";      // what the command line says counts
        if (k == "port" && as.find("-p ") != std::string::npos) { if (r.pct(70)) add("server port=7999"); if (r.pct(30)) add("server port=7998"); }
        else if (k == "pidfile" && as.find("-P ") != std::string::npos) { if (r.pct(70)) add("server pidfile=\"/var/run/wrong.pid\""); }
        else add(l); }
    if (!cnt["keepalive"] && r.pct(30)) { if (r.pct(50)) add("server keepalive=off"); add("server keepalive=on"); }
    if (!hasts && r.pct(ndec)) { add("server timestamp=2h"); add(r.pct(50) ? "server timestamp=0" : "server timestamp=0m"); }
    // the consoles that say everything themselves may come before a global setting, or after one that is not meant for them
    std::vector<Dev *> early, late; bool glog = r.pct(30), gser = cnt["seropts"] == 1, gopt = cnt["logopts"] == 1;
    auto own = [&](Dev *d) { std::string s = plan.has("ser:" + d->sp.name) ? plan.opt.at("ser:" + d->sp.name) : ""; bool full = d->sp.type != 'S' || (std::count(s.begin(), s.end(), ',') == 1 && s.size() > 3 && isdigit(s.back()) && isalpha(s[s.size() - 2])); return full && (d->sp.type != 'I' || !cnt["ipmiopts"]) && (d->sp.log.empty() || d->sp.logopts == "nosanitize,notimestamp"); };
    for (auto &d : devs) (own(d.get()) && r.pct(70) ? early : late).push_back(d.get());
    auto console = [&](Dev *d, bool g) {
        std::vector<std::string> a = {"name=\"" + d->sp.name + "\"", "dev=\"" + d->confdev() + "\""};
        if (d->sp.type == 'P' && d->sp.rawdev.empty()) a[1] = "dev=\"@" + std::to_string(d->idx) + "@\"";
        if (plan.has("ipmi:" + d->sp.name)) a.push_back("ipmiopts=\"" + plan.opt.at("ipmi:" + d->sp.name) + "\"");
        std::string l = d->sp.log; if (g ? l != "%N.log" || r.pct(40) : !l.empty() || r.pct(15)) a.push_back("log=\"" + l + "\"");
        if (!d->sp.logopts.empty()) a.push_back("logopts=\"" + d->sp.logopts + "\""); if (plan.has("ser:" + d->sp.name)) a.push_back("seropts=\"" + plan.opt.at("ser:" + d->sp.name) + "\"");
        if (r.pct(50)) for (size_t i = a.size(); i-- > 1;) std::swap(a[i], a[r.below(i + 1)]);
        std::string o = "console"; for (auto &x : a) o += " " + x; add(o);
        if (d->sp.type == 'P' && d->sp.rawdev.empty()) {           // the program, its arguments, and the quoting of the latter
            std::string n = d->sp.name, s, sp = " "; char q = r.pct(50) ? '"' : '\''; auto Q = [&](const std::string &x) { return q + x + q; }; auto gap = [&] { return std::string(r.pct(20) ? r.range(2, 3) : 1, ' '); };
            s = (r.pct(10) ? "  " : "") + (r.pct(15) ? Q("/bin/consprog") : xp && r.pct(60) ? "consprog" : "/bin/consprog") + gap(); d->want_argv = {"/bin/consprog", n}; int z = r.below(4); s += z == 0 ? n : z == 1 ? "%N" : z == 2 ? Q(n) : q == '"' ? Q("%N") : n;
            for (int i = r.pct(50) ? r.range(1, 4) : 0; i--;) { s += gap(); switch (r.below(7)) { case 5: s += Q(std::string("x") + q + "y z"); d->want_argv.push_back(std::string("x") + q + "y z"); break; case 0: s += "-v"; d->want_argv.push_back("-v"); break; case 1: s += Q("a b  c"); d->want_argv.push_back("a b  c"); break; case 2: s += "x%Ny"; d->want_argv.push_back("x" + n + "y"); break; case 3: s += Q("p %N %Nq"); d->want_argv.push_back(q == '"' ? "p " + n + " " + n + "q" : "p %N %Nq"); break; case 4: s += Q("-"); d->want_argv.push_back("-"); break; default: s += q == '"' ? "it's" : "5\""; d->want_argv.push_back(q == '"' ? "it's" : "5\""); } }
            if (r.pct(10)) s += " ";
            if (s.find('"') != std::string::npos && s.find('\'') != std::string::npos) { s = "/bin/consprog " + n; d->want_argv = {"/bin/consprog", n}; }
            for (auto &t : lines.back()) if (t.k == 's' && t.t == "@" + std::to_string(d->idx) + "@") t.t = s;
        }
    };
    bool gl2 = glog && r.pct(50);               // the global log name of the early consoles
    if (gl2) add("global log=\"%N.log\"");
    bool gipmi = cnt["ipmiopts"]; if (gipmi && r.pct(ndec)) add("global ipmiopts=\"U:wrong,P:wrong\""), add("global ipmiopts=\"U:,P:\"");
    bool pre = r.pct(ndec * 2);                 // options accumulate, so these have to be taken back
    if (pre) { if (gser) add("global seropts=" + decoy["seropts"]); if (gopt) add("global logopts=" + decoy["logopts"]); }
    for (auto d : early) console(d, gl2);
    if (gl2 != glog) add(glog ? "global log=\"%N.log\"" : "global log=\"\"");
    if (pre) { if (gser) add("global seropts=\"9600,8n1\""); if (gopt) add("global logopts=\"nosanitize,notimestamp\""); }
    for (auto &l : glb) add(l);
    for (auto d : late) console(d, glog);
    if (!late.empty() && r.pct(ndec)) { if (gser) add("global seropts=" + decoy["seropts"]); add("global logopts=\"sanitize\" log=\"other.%N\""); }
    for (auto &d : devs) if (r.pct(nbad ? 12 : 0)) { bool u = r.pct(50) || d->sp.type == 'T'; add_raw("console name=\"" + (u ? d->sp.name : "dup" + d->sp.name) + "\" dev=\"" + (u ? "unix:/tmp/dup" : d->sp.type == 'P' ? "/nonexistent" : d->confdev()) + "\" log=\"\"", 1); }
    while (nbad-- > 0) { size_t i = r.below(lines.size() + 1); lines.insert(lines.begin() + i, std::vector<Tok>{}); std::string b = r.pick(BAD); if (!hasts && r.pct(8)) b = r.pick(std::vector<std::string>{"server timestamp=5 hours", "server timestamp=5x", "server timestamp=1 mm", "server timestamp=1 = 2"}); raw.insert(raw.begin() + i, b); bad.insert(bad.begin() + i, 1); }
    // several settings in one directive
    for (size_t i = 0; i + 1 < lines.size();) {
        auto &a = lines[i], &b = lines[i + 1]; bool join = r.pct(25) && a.size() > 1 && b.size() > 1 && a[0].t == b[0].t && a[0].t != "console";
        if (join) for (auto &t : a) if (t.t == "timestamp" && a.back().k == 'i') join = false;
        if (!join) { i++; continue; }
        a.insert(a.end(), b.begin() + 1, b.end()); lines.erase(lines.begin() + i + 1); raw.erase(raw.begin() + i + 1); bad.erase(bad.begin() + i + 1);
    }
    std::string o; int ln = 1;
    auto put = [&](const std::string &s) { for (size_t i = 0; i < s.size(); i++) if (s[i] == '\n' || (s[i] == '\r' && s[i + 1] != '\n')) ln++; o += s; };
    for (size_t i = 0; i < lines.size(); i++) {
        while (r.pct(12)) put(r.pick(std::vector<std::string>{"", "# comment", "   ", "\t# server port=1", "# it's \"quoted", "##", "# console name=\"zz\" dev=\"unix:/tmp/zz\""}) + nl);
        if (bad[i]) conf_bad[ln] = raw[i];
        bool last = i + 1 == lines.size();
        put((bad[i] ? (r.pct(20) ? " " : "") + raw[i] + (raw[i].find("unclosed") == std::string::npos && raw[i].find_last_of("\"'") == std::string::npos && r.pct(20) ? " # no" : "") : write(lines[i])) + (last && r.pct(25) ? "" : nl));
    }
    if (getenv("CONF")) if (FILE *f = fopen("/tmp/conf.out", "w")) fputs(o.c_str(), f), fclose(f);
    return o;
}
// Each bad line is reported once, with its number, and nothing else is.
void World::check_conf() {
    if (!plan.has("confstyle") || launches.empty()) return;
    std::string e; for (auto &p : K->procs) if (p.first == launches[0] || p.second->ppid == launches[0]) e += p.second->err + "\n";
    std::map<int, int> got; std::string key = "CONFIG[" + conf_path + ":"; std::map<int, std::string> txt;
    for (size_t q = 0; (q = e.find(key, q)) != std::string::npos; q++) { int n = atoi(e.c_str() + q + key.size()); got[n]++; txt[n] = e.substr(q, e.find('\n', q) - q); }
    stat["bad configuration lines"] += conf_bad.size(); stat["configurations in free style"]++;
    for (auto &b : conf_bad) if (!got.count(b.first)) { viol("conf", "silent", fmt("line %d of the configuration (%s) is wrong but was not reported", b.first, b.second.c_str())); return; }
    for (auto &g : got) { auto i = conf_bad.find(g.first); if (i == conf_bad.end()) { viol("conf", "refused", fmt("line %d of the configuration is correct but was refused: %s", g.first, txt[g.first].c_str())); return; } if (g.second != 1) { viol("conf", "repeated", fmt("the error in line %d of the configuration was reported %d times", g.first, g.second)); return; } }
}

void World::check_places() {
    if (!plan.has("confstyle")) return;
    Proc *p = daemon(); if (!p) return; std::string pf = pidfile(); auto n = pf.empty() ? nullptr : fs_lookup(pf);
    if (!pf.empty() && (!n || n->data != fmt("%d\n", p->pid))) viol("conf", "pidfile", "the PID file \"" + pf + "\" " + (n ? "holds \"" + n->data + "\"" : "was not written"));
    std::string dl; for (auto &l : plan.conf) { size_t q = l.find("server logfile=\""); if (q == 0) dl = l.substr(16, l.find('"', 16) - 16); } size_t c = dl.find(','); if (c != std::string::npos) dl.resize(c); if (!dl.empty() && dl[0] != '/') dl = "/var/log/consoles/" + dl;
    if (!dl.empty() && dl.find('%') == std::string::npos && !fs_lookup(dl)) viol("conf", "logfile", "the daemon log \"" + dl + "\" was not written");
    for (auto w : {"/var/run/wrong.pid", "/var/log/wrong.log", "/var/log/wrong"}) if (fs_lookup(w)) viol("conf", "overridden", fmt("\"%s\", from a setting that is overridden, was created", w));
}
// A controller is contacted with the credentials and options that are configured for the console.
static std::string unkey(const std::string &s) {
    if (s.size() < 2 || s[0] != '0' || (s[1] != 'x' && s[1] != 'X') || s.find_first_not_of("0123456789abcdefABCDEF", 2) != std::string::npos) return s;
    std::string o; for (size_t i = 2; i < s.size(); i += 2) { std::string b = s.substr(i, 2); if (b.size() == 1) b += '0'; o += (char)strtol(b.c_str(), nullptr, 16); } return o;
}
void World::ipmi_used(const std::string &host, const void *cfg) {
    if (!plan.has("confstyle")) return;
    auto c = (const struct ipmiconsole_ipmi_config *)cfg; Dev *d = nullptr; for (auto &x : devs) if (x->sp.type == 'I' && x->sp.rawdev.empty() && fmt("bmc%d", x->idx) == host) d = x.get();
    if (!d) { viol("ipmi", "host", "a controller \"" + host + "\" is contacted that is not configured"); return; }
    std::map<char, std::string> m; unsigned wk = IPMICONSOLE_WORKAROUND_DEFAULT; std::string all; for (auto &l : plan.conf) if (l.compare(0, 16, "global ipmiopts=") == 0) all = l.substr(17, l.size() - 18);
    static const std::map<std::string, unsigned> WK = {{"authcap", 1}, {"intel20", 2}, {"supermicro20", 4}, {"sun20", 8}, {"opensesspriv", 16}, {"integritycheckvalue", 32}, {"nochecksumcheck", 64}, {"serialalertsdeferred", 128}, {"solpacketseq", 256}, {"solpayloadsize", 1u << 24}, {"solport", 1u << 25}, {"solstatus", 1u << 26}, {"solchannelsupport", 1u << 27}};
    for (auto s : {all, plan.has("ipmi:" + d->sp.name) ? plan.opt["ipmi:" + d->sp.name] : std::string()}) for (size_t i = 0; i < s.size();) {
        size_t e = s.find(',', i); if (e == std::string::npos) e = s.size(); std::string v = s.substr(i + 2, e - i - 2), lv; char k = toupper(s[i]); for (char ch : v) lv += tolower(ch);
        if (k == 'W') { unsigned f = lv == "default" ? ~0u : lv == "none" ? 0 : isdigit(lv[0]) ? strtoul(lv.c_str(), nullptr, 0) : WK.at(lv); wk = f == 0 || f == ~0u || wk == ~0u ? f : wk | f; } else m[k] = v;
        i = e + 1;
    }
    std::string pl = m.count('L') ? m['L'] : "", bad; int lev = -1; for (auto &ch : pl) ch = tolower(ch); if (!pl.empty()) lev = pl == "user" ? 0 : pl == "admin" || pl == "administrator" ? 2 : 1;
    auto cs = [](const char *s) { return s ? std::string(s) : std::string(); };
    std::string up = m.count('P') ? unkey(m['P']) : ""; up = up.c_str();
    if (cs(c->username) != m['U']) bad = "user name \"" + cs(c->username) + "\""; else if (cs(c->password) != up) bad = "password";
    else if (std::string((const char *)c->k_g ? (const char *)c->k_g : "", c->k_g ? c->k_g_len : 0) != (m.count('K') ? unkey(m['K']) : "")) bad = "K_g key"; else if (c->privilege_level != lev) bad = fmt("privilege level %d", c->privilege_level);
    else if (c->cipher_suite_id != (m.count('C') ? (int)strtol(m['C'].c_str(), nullptr, 0) : -1)) bad = fmt("cipher suite %d", c->cipher_suite_id); else if (c->workaround_flags != wk) bad = fmt("set of workarounds 0x%x instead of 0x%x", c->workaround_flags, wk);
    stat["IPMI sessions checked"]++;
    if (!bad.empty()) viol("ipmi", bad.substr(0, bad.find(' ')), fmt("console %s (global \"%s\", own \"%s\") is contacted with another %s", d->sp.name.c_str(), all.c_str(), plan.has("ipmi:" + d->sp.name) ? plan.opt["ipmi:" + d->sp.name].c_str() : "", bad.c_str()));
}
