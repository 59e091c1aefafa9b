// Reference model of the daemon's sessions: who is attached to what, in the order the daemon itself processed it.
#pragma once
#include "oracle.h"

struct MNote { Time t; std::string key, alt; };
struct MCons;
struct MC {                                    // a session
    Conn *c = nullptr; Sess *s = nullptr; std::string user, host, tty, cmd; std::vector<std::string> pats;
    bool F = false, J = false, quiet = false, regex = false, bflag = false, bcast = false, susp = false, esc = false;
    bool decided = false, granted = false, eof = false, closed = false, answered = false, hdr_eof = false, viol_susp = false; int code = 0;
    MCons *from = nullptr; std::vector<MCons *> to;
    size_t rpos = 0, hdr = 0, line = 0; std::vector<std::string> names;
    std::vector<MNote> exp; std::vector<Time> replays; bool ever_quiet = false;
    Time t_grant = -1, t_stolen = -1, t_eof = -1; int daemon = 0; bool was_stolen = false;
    std::vector<std::pair<Time, bool>> susp_at, quiet_at;
    std::string who() const { return "<" + user + "@" + host + ">" + (tty.empty() ? "" : " on " + tty) + " at "; }
};
struct MRun { Time t; std::string user; ResetRun *r; bool ran; };
struct MCons {
    Dev *d; std::vector<MC *> readers, writers; std::vector<MNote> exp;
    std::string in; std::vector<Time> it; std::vector<std::pair<size_t, Time>> brk; Time burst_t = -1; bool over = false, first = true;
    std::vector<MRun> resets;
};
struct Model {
    World &w; std::deque<MC> cs; std::vector<std::unique_ptr<MCons>> cons; std::set<ResetRun *> used; bool has_reset = false; std::string resetcmd;
    std::map<int, Time> ended; size_t ev_i = 0; std::vector<Time> main_reads;
    explicit Model(World &w);
    void run();
    MCons *con(const std::string &n) { for (auto &c : cons) if (c->d->sp.name == n) return c.get(); return nullptr; }
    void header(MC &m, Time t);
    void note(MC &m, Time t, const std::string &key, const std::string &alt = "");
    void notify(MCons &d, Time t, const std::string &key, const std::string &alt = "");
    void link(MC &m, MCons &d, Time t);
    void unlink_to(MC &m, MCons &d, Time t);
    void unlink_all(MC &m, Time t);
    void byte(MC &m, unsigned char c, Time t);
    void reset(MC &m, Time t);
    void granted(MC &m, Time t);
    void refused(MC &m, Time t);
};
void check_replays(World &w, Model &M);
void check_logfiles(World &w);
void check_disturb(World &w);
void check_tstamps(World &w);
void check_logfaults(World &w);
void check_restarts(World &w);
void check_ctl(World &w);
void check_acl(World &w);
void check_clients(World &w);
void check_reconnects(World &w, Model &M);
std::vector<std::string> matching(World &w, const std::vector<std::string> &pats, bool regex, bool *bad);
