// Stand-in for libipmiconsole: engine threads, contexts and their descriptors.
#include "internal.h"
#include <cerrno>
#include <fcntl.h>
#include <sys/socket.h>
#include <ipmiconsole.h>

std::function<void(std::shared_ptr<IpmiCtx>)> on_ipmi_submit;
std::function<void(IpmiCtx *)> on_ipmi_destroy;
struct Engine { int pid; bool up = true; int nthreads = 0; int busy = 0; std::deque<std::shared_ptr<IpmiCtx>> q; };
static std::map<int, std::shared_ptr<Engine>> engines;
static std::map<IpmiCtx *, std::shared_ptr<IpmiCtx>> live;

static int fault(const char *n) {
    for (auto &f : K->faults) { if (f.sys != n || f.hits >= f.count || K->now < f.t0 || K->now > f.t1) continue; if (f.skip > 0) { f.skip--; continue; } f.hits++; K->fault_hits[n]++; return 1; }
    return 0;
}
static void *engine_main(void *a) {
    Engine *e = (Engine *)a;
    for (;;) {
        kblock([e] { return !e->q.empty() || !e->up; }, FOREVER, false, "ipmi-engine");
        if (K->stop) kyield();
        if (e->q.empty()) { if (!e->up) break; continue; }
        {
            auto c = e->q.front(); e->q.pop_front();
            if (!c->destroyed && c->cb && !c->called) { c->called = true; e->busy++; K->nsys++; c->cb(c->arg); e->busy--; }
        }
    }
    e->nthreads--;
    return nullptr;
}
void ipmi_complete(std::shared_ptr<IpmiCtx> c, int err) {
    if (c->destroyed || c->status != IPMICONSOLE_CTX_STATUS_SUBMITTED) return;
    auto i = engines.find(c->pid); if (i == engines.end() || !i->second->up) return;
    c->errnum = err; c->status = err ? IPMICONSOLE_CTX_STATUS_SOL_ERROR : IPMICONSOLE_CTX_STATUS_SOL_ESTABLISHED;
    if (err && c->mine) { ext_close(c->mine.get()); c->mine.reset(); }
    i->second->q.push_back(c);
}
void ipmi_drop(std::shared_ptr<IpmiCtx> c, int err) {
    if (c->status != IPMICONSOLE_CTX_STATUS_SOL_ESTABLISHED) return;
    c->errnum = err; c->status = IPMICONSOLE_CTX_STATUS_SOL_ERROR;
    if (c->mine) { ext_close(c->mine.get()); c->mine.reset(); }
}
void ipmi_proc_exit(int pid) {
    std::vector<std::shared_ptr<IpmiCtx>> v; for (auto &l : live) if (l.second->pid == pid) v.push_back(l.second);
    for (auto &c : v) { if (on_ipmi_destroy) on_ipmi_destroy(c.get()); c->destroyed = true; c->on_break = nullptr; if (c->mine) { ext_close(c->mine.get()); c->mine.reset(); } live.erase(c.get()); }
    auto i = engines.find(pid); if (i != engines.end()) i->second->up = false;
}
extern "C" {
int sim_ipmiconsole_engine_init(unsigned n, unsigned) {
    if (fault("ipmi_engine_init")) { errno = EAGAIN; return -1; }
    Proc *p = K->cur->proc; auto e = std::make_shared<Engine>(); e->pid = p->pid; engines[p->pid] = e;
    for (unsigned i = 0; i < n; i++) { ctx_create(p, engine_main, e.get(), false); e->nthreads++; }
    return 0;
}
void sim_ipmiconsole_engine_teardown(int cleanup) {
    auto i = engines.find(K->cur->proc->pid); if (i == engines.end()) return;
    auto e = i->second; e->up = false;
    kblock([e] { return e->nthreads == 0; }, FOREVER, false, "ipmi-teardown");
    if (K->stop) kyield();
    for (auto &l : live) if (l.second->pid == e->pid && l.second->status == IPMICONSOLE_CTX_STATUS_SOL_ESTABLISHED) {
        l.second->status = IPMICONSOLE_CTX_STATUS_SOL_ERROR; if (l.second->mine) { ext_close(l.second->mine.get()); l.second->mine.reset(); }
    }
    if (cleanup) { Time d = K->now + 20 * MS; kblock([] { return false; }, d, false, "ipmi-teardown"); }
}
ipmiconsole_ctx_t sim_ipmiconsole_ctx_create(const char *host, struct ipmiconsole_ipmi_config *c, struct ipmiconsole_protocol_config *, struct ipmiconsole_engine_config *) {
    if (fault("ipmi_ctx_create")) { errno = ENOMEM; return nullptr; }
    auto x = std::make_shared<IpmiCtx>(); x->host = host ? host : ""; x->user = c && c->username ? c->username : ""; x->pid = K->cur->proc->pid;
    if (K->on_ipmi_create) K->on_ipmi_create(x->host, c);
    live[x.get()] = x; return (ipmiconsole_ctx_t)x.get();
}
static IpmiCtx *get(ipmiconsole_ctx_t c, const char *w) {
    auto i = live.find((IpmiCtx *)c);
    if (i == live.end()) { set_fatal(fmt("invalid-memory: %s on a destroyed IPMI context", w)); kyield(); return nullptr; }
    return i->second.get();
}
int sim_ipmiconsole_engine_submit(ipmiconsole_ctx_t c, Ipmiconsole_callback cb, void *arg) {
    IpmiCtx *x = get(c, "engine_submit"); Proc *p = K->cur->proc;
    auto i = engines.find(p->pid);
    if (i == engines.end() || !i->second->up) { x->errnum = IPMICONSOLE_ERR_NOT_SETUP; return -1; }
    if (x->status) { x->errnum = IPMICONSOLE_ERR_CTX_IS_SUBMITTED; return -1; }
    if (fault("ipmi_submit")) { x->errnum = IPMICONSOLE_ERR_SYSTEM_ERROR; return -1; }
    auto a = std::make_shared<Sock>(), b = std::make_shared<Sock>();
    a->domain = b->domain = AF_UNIX; a->st = b->st = Sock::CONN; a->peer = b; b->peer = a; a->id = K->next_sock++; b->id = K->next_sock++;
    auto f = std::make_shared<File>(); f->type = F_SOCK; f->sock = a; f->flags = O_RDWR; f->tag = "ipmi:" + x->host; a->tag = f->tag;
    int fd = fd_alloc(p, f); if (fd < 0) { x->errnum = IPMICONSOLE_ERR_TOO_MANY_OPEN_FILES; return -1; }
    p->cloexec.insert(fd);                     // as libipmiconsole does
    x->fd = fd; x->mine = b; x->cb = (int (*)(void *))cb; x->arg = arg; x->status = IPMICONSOLE_CTX_STATUS_SUBMITTED;
    K->nsys++;
    if (on_ipmi_submit) on_ipmi_submit(live[x]);
    return 0;
}
int sim_ipmiconsole_ctx_errnum(ipmiconsole_ctx_t c) { if (!c) return IPMICONSOLE_ERR_CTX_NULL; return get(c, "ctx_errnum")->errnum; }
char *sim_ipmiconsole_ctx_strerror(int e) { return (char *)(e == IPMICONSOLE_ERR_CONNECTION_TIMEOUT ? "connection timeout" : e == IPMICONSOLE_ERR_SESSION_TIMEOUT ? "session timeout" : "ipmi error"); }
char *sim_ipmiconsole_ctx_errormsg(ipmiconsole_ctx_t c) { return sim_ipmiconsole_ctx_strerror(sim_ipmiconsole_ctx_errnum(c)); }
ipmiconsole_ctx_status_t sim_ipmiconsole_ctx_status(ipmiconsole_ctx_t c) { return (ipmiconsole_ctx_status_t)get(c, "ctx_status")->status; }
int sim_ipmiconsole_ctx_fd(ipmiconsole_ctx_t c) { IpmiCtx *x = get(c, "ctx_fd"); if (x->fd >= 0) x->fd_taken = true; return x->fd; }
int sim_ipmiconsole_ctx_generate_break(ipmiconsole_ctx_t c) {
    IpmiCtx *x = get(c, "generate_break"); K->nsys++;
    if (x->status != IPMICONSOLE_CTX_STATUS_SOL_ESTABLISHED) { x->errnum = IPMICONSOLE_ERR_CTX_NOT_SUBMITTED; return -1; }
    if (x->on_break) x->on_break(); return 0;
}
void sim_ipmiconsole_ctx_destroy(ipmiconsole_ctx_t c) {
    IpmiCtx *x = get(c, "ctx_destroy"); auto keep = live[x];
    if (on_ipmi_destroy) on_ipmi_destroy(x);
    x->destroyed = true;
    if (x->fd >= 0 && !x->fd_taken) { fd_close(K->cur->proc, x->fd); x->fd = -1; }
    if (x->mine) { ext_close(x->mine.get()); x->mine.reset(); }
    live.erase(x);
}
int sim_ipmiconsole_username_is_valid(const char *s) { return s && strlen(s) <= 16; }
int sim_ipmiconsole_password_is_valid(const char *s) { return s && strlen(s) <= 20; }
int sim_ipmiconsole_k_g_is_valid(const unsigned char *k, unsigned n) { return k && n <= 20; }
int sim_ipmiconsole_privilege_level_is_valid(int p) { return p >= 0 && p <= 2; }
int sim_ipmiconsole_cipher_suite_id_is_valid(int c) { return c == 0 || c == 1 || c == 2 || c == 3 || c == 6 || c == 7 || c == 8 || c == 11 || c == 12 || c == 17; }
int sim_ipmiconsole_workaround_flags_is_valid(unsigned) { return 1; }
}
