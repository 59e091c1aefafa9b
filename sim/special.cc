// Runs that do not follow the usual course: start-up under faults (C17).
#include "model.h"
#include <cerrno>
#include <csignal>

static std::vector<Proc *> family(int root) { std::vector<Proc *> v; for (auto &e : K->procs) if (e.second->root == root && e.second->mod == &MOD_CONMAND) v.push_back(e.second); return v; }
static Op op(const std::string &k, std::vector<std::string> a) { return Op{0, k, std::move(a)}; }

// One start: the invoking command must report success if and only if a daemon serves.
void World::special() {
    int port = (int)plan.num("port", 7890);
    bool fatalconf = plan.has("badconf");     // a cause that must make the start fail
    K->startup_faults = true;
    for (int round = 0; round < 3; round++) {
        bool faulty = round == 0 || (round == 1 && plan.has("twice"));
        if (round == 2 && !plan.has("twice")) break;
        std::string pf = pidfile(), before; bool had = false;
        if (auto n = pf.empty() ? nullptr : fs_lookup(pf)) { had = true; before = n->data; }
        if (round) { K->faults.clear(); K->sigat.clear(); K->kn.p_eintr = K->kn.p_eagain = 0; if (!faulty) { for (auto &o : plan.ops) if (o.k == "heal") { Op h = o; h.k = o.a[0]; h.a.erase(h.a.begin()); exec(h); } fatalconf = false; } else for (auto &f : plan.faults) { FaultRule q = f; q.hits = 0; q.t0 = K->now; K->faults.push_back(q); } }
        else for (auto &o : plan.ops) if (o.k != "heal") exec(o);
        size_t nd = daemons.size(); uint64_t hits0 = 0; for (auto &h : K->fault_hits) hits0 += h.second;
        bool signalled = false, reported = false; int sigsent = 0, sigpid = 0;
        starting = true; start_daemon(); int lp = launches.back(); Time t0 = K->now; K->sigat_not = lp;
        if (faulty && plan.has("killat")) K->sigat.push_back({(int)plan.num("killsig", 9), "*", (int)plan.num("killat", 0)});
        K->on_sigat = [&](int s) { if (K->cur && K->cur->proc->root == lp) { signalled = true; reported = K->cur->proc->pipe_tx > 0; sigsent = s; sigpid = K->cur->proc->pid; K->fault_hits[fmt("signal %d while starting", s)]++; K->signal(K->cur->proc, s); } };
        bool ok_seen = false, listening = false; int dpid = 0;
        auto old = K->on_proc_exit;
        K->on_proc_exit = [&, old](Proc *p) {
            if (p->pid == lp) {              // the verdict, at the moment it is given
                ok_seen = p->status == 0; listening = K->listeners.count(port) > 0;
                for (size_t i = nd; i < daemons.size(); i++) if (daemons[i].t1 < 0) dpid = daemons[i].pid;
                K->faults.clear(); K->sigat.clear(); K->kn.p_eintr = K->kn.p_eagain = 0;
                if (ok_seen) { starting = false; for (auto &d : daemons) if (d.pid == dpid && !(d.pid == sigpid && (sigsent == SIGTERM || sigsent == SIGINT))) d.expected = false; }
            }
            old(p);
        };
        Proc *l = K->proc(lp);
        K->run(K->now + 60 * SEC, [&] { return !l->alive; }); if (!alive()) { K->on_proc_exit = old; return; }
        uint64_t hits1 = 0; for (auto &h : K->fault_hits) hits1 += h.second;
        bool hit = hits1 > hits0;
        std::string what = fmt("start %d at t=%.6fs (wait status 0x%x, stderr \"%s\")", round + 1, t0 / 1e6, l->status, hexs(l->err, 200).c_str());
        if (l->alive) { viol("startup", "hang", what + " has not returned after 60 s"); K->on_proc_exit = old; return; }
        stat["starts"]++; stat[ok_seen ? "starts reported as successful" : "starts reported as failed"]++;
        bool term = (sigsent == SIGTERM || sigsent == SIGINT) && (!dpid || dpid == sigpid);
        if (ok_seen) {
            if (!dpid && !term && !(sigsent == 9 && reported)) viol("startup", "nothing", what + " reported success but no daemon runs");
            else if (dpid && !listening && !term) viol("startup", "not-listening", what + " reported success but nothing listens on the port");
            if (fatalconf && faulty && dpid) viol("startup", "bad-config", what + " reported success although " + plan.opt["badconf"]);
            K->run(K->now + 3 * SEC); if (!alive()) { K->on_proc_exit = old; return; }
            Proc *d = dpid ? K->proc(dpid) : nullptr;
            if (!term && d && d->alive) {
                if (!pf.empty()) { auto n = fs_lookup(pf); if ((!hit && !n) || (n && n->data != fmt("%d\n", dpid))) viol("startup", "pidfile", what + fmt(" succeeded, the PID file holds \"%s\" while the daemon is %d", n ? hexs(n->data, 40).c_str() : "(none)", dpid)); }
                std::string id = fmt("zq%d", round); exec(op("open", {id, "QUERY", "", ""})); K->run(K->now + 5 * SEC); if (!alive()) { K->on_proc_exit = old; return; }
                Sess *q = sess[id].get(); q->probe = true;
                if (d->alive && (q->st != 2 || (q->granted.size() != devs.size() && l->err.find("CONFIG[") == std::string::npos))) viol("startup", "not-serving", what + fmt(" reported success but a query is not answered (state %d, %s)", q->st, q->rsp.c_str()));
                K->run(K->now + 30 * SEC);   // and keeps running: DEATH is raised otherwise
                if (alive() && d->alive) { exec(op("sig", {"15"})); K->run(K->now + 20 * SEC, [&] { return !d->alive; }); if (alive()) check_exit(d); }
            } else if (!term && d && !d->alive && sigsent != 9) viol("startup", "gone", what + fmt(" reported success but the daemon ended by itself 3 s later (status 0x%x)", d->status));
            else if (d && d->alive) { K->run(K->now + 20 * SEC, [&] { return !d->alive; }); if (alive()) check_exit(d); }
        } else {
            K->run(K->now + 3 * SEC); if (!alive()) { K->on_proc_exit = old; return; }
            if (WIFSIGNALED(l->status)) viol("startup", "crash", what + " crashed");
            if (l->err.find_first_not_of(" \r\n\t") == std::string::npos) viol("startup", "silent", what + " failed without a reason on standard error");
            for (auto p : family(lp)) if (p->alive) { viol("startup", "left-process", what + fmt(" reported failure but process %d still runs", p->pid)); break; }
            if (K->listeners.count(port) && K->listeners[port]->lip != 0x7f000002) viol("startup", "left-listener", what + " reported failure but the listening socket is still there");
            auto n = pf.empty() ? nullptr : fs_lookup(pf); bool unl = false; for (auto &h : K->fault_hits) if (h.first.compare(0, 7, "unlink:") == 0) unl = true;
            if (n && !(had && n->data == before) && !signalled && !unl) viol("startup", "left-pidfile", what + fmt(" reported failure but left a PID file holding \"%s\"", hexs(n->data, 40).c_str()));
            if (!hit && !(fatalconf && faulty)) viol("startup", "refused", what + " failed although nothing was wrong");
            for (auto p : family(lp)) if (p->alive) K->die(p, 9);
        }
        K->on_proc_exit = old; K->on_sigat = nullptr;
        if (!alive()) return;
    }
    starting = false;
}
