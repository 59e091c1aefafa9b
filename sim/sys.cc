// System calls and impure library calls of the simulated processes.
#include "internal.h"
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <netdb.h>
#include <cstdarg>
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/select.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <pthread.h>
#include <pwd.h>
#include <syslog.h>
#include <time.h>
#include <malloc.h>
#include <sanitizer/asan_interface.h>

extern void ksigpoint();
extern "C" { FILE *sim_stdin, *sim_stdout, *sim_stderr; char **sim_environ; char *sim_optarg; int sim_optind = 1, sim_opterr = 1, sim_optopt = 0; }
#define P (K->cur->proc)

static void ucheck(const void *p, size_t n, const char *what) {
    if (n && __asan_region_is_poisoned((void *)p, n)) { set_fatal(fmt("invalid-memory: %s given freed or out-of-bounds memory", what)); kyield(); }
}
static int fault_for(const char *sys, const std::string &tag, int *arg = nullptr) {
    if (K->startup_faults && K->cur && P->pipe_tx) return 0;
    for (auto &f : K->faults) {
        if (f.sys != sys || f.hits >= f.count) continue;
        if (f.pid && K->cur && f.pid != P->pid) continue;
        if (K->now < f.t0 || K->now > f.t1) continue;
        if (!f.tag.empty() && (f.tag.back() == '*' ? tag.compare(0, f.tag.size() - 1, f.tag, 0, f.tag.size() - 1) != 0 : tag.find(f.tag) == std::string::npos)) continue;
        if (f.skip > 0) { f.skip--; continue; }
        f.hits++;
        K->fault_hits[std::string(sys) + ":" + (f.err ? strerrorname_np(f.err) : "partial")]++;
        K->note(fmt("FAULT %s %s errno %d", sys, tag.c_str(), f.err));
        if (arg) *arg = f.arg;
        return f.err ? f.err : -1;
    }
    return 0;
}
// A call can only be interrupted when the process catches some signal.
static bool can_eintr() { for (auto &e : P->sig) if (e.second.handler != SIG_DFL && e.second.handler != SIG_IGN) return true; return false; }
static inline void enter(const char *name) {
    Ctx *c = K->cur;
    K->nsys++; c->nsys++; c->proc->nsys++; K->now += K->kn.syscost;
    if (K->stop) { kyield(); }
    bool due = !K->evq.empty() && K->evq.begin()->t <= K->now;
    if (due || CH.rare(K->kn.p_yield, 1)) kyield();
    else if (K->nsys > K->step_limit) kyield();
    if (!K->sigat.empty() && c->is_main && c->proc->mod == &MOD_CONMAND) for (size_t i = 0; i < K->sigat.size(); i++) if ((K->sigat[i].sys == name || (K->sigat[i].sys == "*" && c->proc->pid != K->sigat_not)) && K->sigat[i].skip-- <= 0) { int s = K->sigat[i].sig; K->sigat.erase(K->sigat.begin() + i); K->on_sigat(s); if (!c->proc->alive) kyield(); break; }
    if (K->on_enter && c->is_main) { K->on_enter(c->proc, name); if (!c->proc->alive) kyield(); }
    ksigpoint();
}
static inline long leave(const char *name, long rc, const std::string &d = "") {
    K->hashmix((uint64_t)rc * 31 + (unsigned char)name[0] * 7 + strlen(name));
    if (K->tracing) K->note(fmt("%s = %ld%s%s", name, rc, rc < 0 ? fmt(" %s", strerrorname_np(errno)).c_str() : "", d.empty() ? "" : (" " + d).c_str()));
    return rc;
}
static long fail(const char *name, int e, const std::string &d = "") { errno = e; return leave(name, -1, d); }

// wait until pred; 0 ok, 1 timeout, -1 interrupted
static int wait_for(std::function<bool()> pred, Time dl, bool restart, const char *what) {
    for (;;) {
        Wake w = kblock(pred, dl, true, what);
        if (w == WK_OK) return 0;
        if (w == WK_TIMEOUT) return 1;
        if (K->stop) kyield();
        if (sig_deliverable(K->cur)) {
            run_signals();
            if (!(restart && last_handler_restart)) return -1;
        }
    }
}

// ------------------------------------------------------------- descriptors
std::shared_ptr<File> fd_get(Proc *p, int fd) { auto i = p->fds.find(fd); return i == p->fds.end() ? nullptr : i->second; }
int fd_alloc(Proc *p, std::shared_ptr<File> f, int min) {
    int fd = min;
    for (auto &e : p->fds) { if (e.first < fd) continue; if (e.first == fd) fd++; else break; }
    if (fd >= (int)p->nofile.rlim_cur) { errno = EMFILE; return -1; }
    p->fds[fd] = f; p->cloexec.erase(fd);
    if (!f->id) f->id = K->next_file++;
    if (K->on_fd) K->on_fd("open", p, fd, f.get());
    return fd;
}
int fd_close(Proc *p, int fd) {
    auto i = p->fds.find(fd); if (i == p->fds.end()) { errno = EBADF; return -1; }
    auto f = i->second;
    if (K->on_fd) K->on_fd("close", p, fd, f.get());
    p->fds.erase(i); p->cloexec.erase(fd);
    if (f->node) { auto &l = f->node->locks; l.erase(std::remove_if(l.begin(), l.end(), [&](Lock &k) { return k.pid == p->pid; }), l.end()); }
    return 0;
}
static std::string abspath(Proc *p, const char *s) { std::string r = s[0] == '/' ? s : p->cwd + "/" + s; return r; }
static std::string tag_of(Proc *p, int fd) { auto f = fd_get(p, fd); if (!f) return ""; if (f->sock && !f->sock->tag.empty()) return f->sock->tag; return f->tag; }
static std::string dtag(Proc *p, int fd) { return K->tracing ? fmt("fd%d[%s]", fd, tag_of(p, fd).c_str()) : std::string(); }

static void tty_writable_later(std::shared_ptr<Tty> t);

short file_poll(File *f) {
    short r = 0;
    switch (f->type) {
    case F_REG: case F_DIR: case F_NULL: case F_CAPTURE: return POLLIN | POLLOUT;
    case F_LISTEN: return f->sock->backlog.empty() ? 0 : POLLIN;
    case F_SOCK: {
        Sock *s = f->sock.get();
        if (s->st == Sock::NEW) return POLLOUT | POLLHUP;
        if (s->st == Sock::LISTEN) return s->backlog.empty() ? 0 : POLLIN;
        if (s->st == Sock::CONNECTING) return 0;
        if (s->st == Sock::DEAD) return POLLIN | POLLOUT | POLLHUP | (s->err ? POLLERR : 0);
        if (!s->rx.empty()) r |= POLLIN;
        if (s->rx_fin) r |= POLLIN | POLLRDHUP;
        if (s->rx_fin && (s->wr_shut || s->domain == AF_UNIX)) r |= POLLHUP;
        if (s->rd_shut) r |= POLLIN;
        auto p = s->peer.lock();
        if (s->domain == AF_UNIX && s->rx_fin) r |= POLLOUT;
        else { size_t sp = ext_space(s); if (s->wr_shut || !p || sp * 3 >= s->cap) r |= POLLOUT; }
        return r;
    }
    case F_PIPE_R: if (!f->pipe->data.empty()) r |= POLLIN; if (!f->pipe->writers) r |= POLLHUP; return r;
    case F_PIPE_W: if (f->pipe->cap - f->pipe->data.size() >= std::min<size_t>(4096, f->pipe->cap)) r |= POLLOUT; if (!f->pipe->readers) r |= POLLERR; return r;
    case F_TTY: {
        Tty *t = f->tty.get();
        if (t->hup) return POLLIN | POLLOUT | POLLHUP | POLLERR;
        if (t->tio.c_lflag & ICANON) { if (t->rx.find('\n') != std::string::npos || t->rx.find(t->tio.c_cc[VEOF]) != std::string::npos) r |= POLLIN; }
        else if (!t->rx.empty()) r |= POLLIN;
        if (t->tx.size() * 2 < t->txcap) r |= POLLOUT;
        return r;
    }
    case F_INOTIFY: return f->inq.empty() ? 0 : POLLIN;
    }
    return 0;
}

// ------------------------------------------------------------- read
static ssize_t do_read(std::shared_ptr<File> f, char *buf, size_t n, const char *nm, bool may_block, int flags = 0) {
    bool nb = (f->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT);
    int acc = f->flags & O_ACCMODE;
    if (acc == O_WRONLY && f->type != F_SOCK) { errno = EBADF; return -1; }
    if (!n) return 0;
    std::string tg = f->sock && !f->sock->tag.empty() ? f->sock->tag : f->tag;
    if (int e = fault_for("read", tg)) { if (e > 0) { errno = e; return -1; } }
    switch (f->type) {
    case F_DIR: errno = EISDIR; return -1;
    case F_NULL: case F_CAPTURE: return 0;
    case F_REG: {
        std::string &d = f->node->data; if (f->off >= (off_t)d.size()) return 0;
        size_t k = std::min(n, d.size() - (size_t)f->off); ucheck(buf, k, nm); memcpy(buf, d.data() + f->off, k); f->off += k; return k;
    }
    default: break;
    }
    if (may_block && !nb && can_eintr() && CH.rare(K->kn.p_eintr, 1)) { K->fault_hits["read:EINTR"]++; errno = EINTR; return -1; }
    if (nb && f->type == F_SOCK && CH.rare(K->kn.p_eagain, 1)) { K->fault_hits["read:EAGAIN"]++; errno = EAGAIN; return -1; }
    for (;;) {
        if (f->type == F_SOCK) {
            Sock *s = f->sock.get();
            if (s->st == Sock::NEW || s->st == Sock::LISTEN) { errno = ENOTCONN; return -1; }
            if (!s->rx.empty()) {
                size_t k = std::min(n, s->rx.size());
                if (k > 1) { uint32_t v = CH.rare(K->kn.p_shortr, (uint32_t)std::min<size_t>(k - 1, 3000)); if (v) { k = v; K->fault_hits["read:short"]++; } }
                ucheck(buf, k, nm); memcpy(buf, s->rx.data(), k);
                if (!(flags & MSG_PEEK)) {
                    s->rx.erase(0, k); s->total_read += k;
                    if (s->on_consumed) s->on_consumed(k);
                    if (s->on_read) s->on_read(buf, k);
                    auto p = s->peer.lock(); if (p && p->actor) { SockActor *a = p->actor; a->on_writable(p.get()); }
                }
                return k;
            }
            if (s->err) { errno = s->err; s->err = 0; return -1; }
            if (s->rx_fin || s->rd_shut || s->st == Sock::DEAD) { if (s->on_read && !(flags & MSG_PEEK)) s->on_read(buf, 0); return 0; }
        } else if (f->type == F_PIPE_R) {
            auto p = f->pipe;
            if (!p->data.empty()) { size_t k = std::min(n, p->data.size()); ucheck(buf, k, nm); memcpy(buf, p->data.data(), k); p->data.erase(0, k); return k; }
            if (!p->writers) return 0;
        } else if (f->type == F_TTY) {
            Tty *t = f->tty.get();
            if (t->hup) return 0;
            if (file_poll(f.get()) & POLLIN) {
                size_t k = std::min(n, t->rx.size());
                if (t->tio.c_lflag & ICANON) {
                    size_t q = t->rx.find('\n'), e = t->rx.find((char)t->tio.c_cc[VEOF]);
                    if (e != std::string::npos && (q == std::string::npos || e < q)) {
                        k = std::min(n, e); ucheck(buf, k, nm); memcpy(buf, t->rx.data(), k); t->rx.erase(0, k < e ? k : k + 1);
                        return k;
                    }
                    k = std::min(n, q + 1);
                }
                if (k > 1) { uint32_t v = CH.rare(K->kn.p_shortr, (uint32_t)std::min<size_t>(k - 1, 3000)); if (v) { k = v; K->fault_hits["read:short"]++; } }
                ucheck(buf, k, nm); memcpy(buf, t->rx.data(), k); t->rx.erase(0, k);
                if (t->on_used) t->on_used();
                if (t->on_consumed) t->on_consumed(k);
                return k;
            }
            if (!(t->tio.c_lflag & ICANON) && t->tio.c_cc[VMIN] == 0) return 0;
        } else if (f->type == F_INOTIFY) {
            if (!f->inq.empty()) {
                std::string out;
                while (!f->inq.empty()) {
                    InEvent &e = f->inq.front();
                    struct inotify_event ev; memset(&ev, 0, sizeof ev); ev.wd = e.wd; ev.mask = e.mask;
                    size_t l = e.name.empty() ? 0 : (e.name.size() + 1 + 15) / 16 * 16; ev.len = l;
                    if (out.size() + sizeof ev + l > n) break;
                    out.append((char *)&ev, sizeof ev); std::string nm2 = e.name; nm2.resize(l); out += nm2;
                    f->inq.erase(f->inq.begin());
                }
                if (out.empty()) { errno = EINVAL; return -1; }
                ucheck(buf, out.size(), nm); memcpy(buf, out.data(), out.size()); return out.size();
            }
        } else { errno = EBADF; return -1; }
        if (nb || !may_block) { errno = EAGAIN; return -1; }
        std::shared_ptr<File> g = f;
        int w = wait_for([g] { return (file_poll(g.get()) & (POLLIN | POLLHUP | POLLERR)) != 0; }, FOREVER, true, "read");
        if (w < 0) { errno = EINTR; return -1; }
    }
}
// ------------------------------------------------------------- write
static ssize_t do_write(std::shared_ptr<File> f, const char *buf, size_t n, const char *nm, bool may_block, int flags = 0) {
    bool nb = (f->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT);
    int acc = f->flags & O_ACCMODE;
    if (acc == O_RDONLY && f->type != F_SOCK) { errno = EBADF; return -1; }
    ucheck(buf, n, nm);
    std::string tg = f->sock && !f->sock->tag.empty() ? f->sock->tag : f->tag;
    int arg = 0;
    if (int e = fault_for("write", tg, &arg)) {
        if (e > 0) { if (f->type == F_REG && K->on_file_fail) K->on_file_fail(f->path, P, f->node, e != EINTR && e != EAGAIN ? 'X' : 'P', e); errno = e; if (e == EPIPE) K->signal(P, SIGPIPE); return -1; }
        if (e == -1 && n > 1) { n = std::max<size_t>(1, std::min<size_t>(n - 1, arg ? arg : n / 2)); if (f->type == F_REG && K->on_file_fail) K->on_file_fail(f->path, P, f->node, 'P', 0); }
    }
    switch (f->type) {
    case F_NULL: return n;
    case F_CAPTURE: if (f->cap && f->cap->size() < (1 << 20)) f->cap->append(buf, n); return n;
    case F_REG: {
        Node *d = f->node.get();
        if (d->fail_write) { K->fault_hits[std::string("write:") + strerrorname_np(d->fail_write)]++; if (K->on_file_fail) K->on_file_fail(f->path, P, f->node, 'X', d->fail_write); errno = d->fail_write; return -1; }
        if (!n) return 0;
        if (f->flags & O_APPEND) f->off = d->data.size();
        size_t k = n;
        if ((size_t)f->off + k > d->size_limit) {
            K->fault_hits["write:ENOSPC"]++;
            if ((size_t)f->off >= d->size_limit) { if (K->on_file_fail) K->on_file_fail(f->path, P, f->node, 'X', ENOSPC); errno = ENOSPC; return -1; }
            k = d->size_limit - f->off; if (K->on_file_fail) K->on_file_fail(f->path, P, f->node, 'P', ENOSPC);
        }
        if ((size_t)f->off + k > d->data.size()) d->data.resize(f->off + k);
        memcpy(&d->data[f->off], buf, k); f->off += k; d->mtime = K->now; d->nwrites++;
        if (K->on_file_write) K->on_file_write(f->path, P, std::string(buf, k), f->node);
        return k;
    }
    default: break;
    }
    if (f->type == F_PIPE_W) P->pipe_tx++;
    bool room = f->type == F_PIPE_W && f->pipe->cap - f->pipe->data.size() >= n;   // such a write is not interrupted
    if (may_block && !nb && !room && can_eintr() && CH.rare(K->kn.p_eintr, 1)) { K->fault_hits["write:EINTR"]++; errno = EINTR; return -1; }
    if (nb && f->type == F_SOCK && f->sock->st == Sock::CONN && CH.rare(K->kn.p_eagain, 1)) { K->fault_hits["write:EAGAIN"]++; errno = EAGAIN; return -1; }
    size_t done = 0;
    for (;;) {
        if (f->type == F_SOCK) {
            Sock *s = f->sock.get();
            if (s->st == Sock::NEW || s->st == Sock::LISTEN) { if (s->domain == AF_INET) { K->signal(P, SIGPIPE); errno = EPIPE; } else errno = ENOTCONN; return -1; }
            if (s->st == Sock::CONNECTING) { errno = EAGAIN; return -1; }
            if (s->err) { errno = s->err; s->err = 0; if (errno == EPIPE && !(flags & MSG_NOSIGNAL)) { K->signal(P, SIGPIPE); errno = EPIPE; } return done ? (ssize_t)done : -1; }
            auto p = s->peer.lock();
            if (s->wr_shut || s->st == Sock::DEAD || (s->domain == AF_UNIX && (!p || p->closed))) {
                if (done) return done;
                if (!(flags & MSG_NOSIGNAL)) K->signal(P, SIGPIPE);
                if (!P->alive) kyield();
                errno = EPIPE; return -1;
            }
            if (!p || p->closed) {  // TCP: accepted locally, answered by a reset
                std::weak_ptr<Sock> w = f->sock; s->total_tx += n;
                if (s->on_written) s->on_written(std::string(buf, n));
                K->after(s->lat, [w] { auto x = w.lock(); if (x && !x->closed && x->st == Sock::CONN) { x->err = x->fin_seen ? EPIPE : ECONNRESET; x->st = Sock::DEAD; x->rx_fin = true; } });
                return n;
            }
            size_t want = n - done;
            if (want > 1 && nb) { uint32_t v = CH.rare(K->kn.p_shortw, (uint32_t)std::min<size_t>(want - 1, 3000)); if (v) { want = v; K->fault_hits["write:short"]++; } }
            size_t k = ext_send(s, std::string(buf + done, want));
            if (k && s->on_written) s->on_written(std::string(buf + done, k));
            done += k;
            if (done == n || n == 0) return done;
            if (nb && done) return done;
        } else if (f->type == F_PIPE_W) {
            auto p = f->pipe;
            if (!p->readers) { K->signal(P, SIGPIPE); if (!P->alive) kyield(); errno = EPIPE; return -1; }
            size_t k = std::min(n - done, p->cap - p->data.size());
            if (n <= 4096 && k < n - done) k = 0;        // PIPE_BUF atomicity
            p->data.append(buf + done, k); done += k;
            if (done == n) return done;
            if (nb && done) return done;
        } else if (f->type == F_TTY) {
            Tty *t = f->tty.get();
            if (t->hup) { errno = EIO; return -1; }
            size_t k = std::min(n - done, t->txcap - std::min(t->txcap, t->tx.size()));
            if (nb && k > 1) { uint32_t v = CH.rare(K->kn.p_shortw, (uint32_t)std::min<size_t>(k - 1, 3000)); if (v) { k = v; K->fault_hits["write:short"]++; } }
            if (t->on_used) t->on_used();
            t->tx.append(buf + done, k); done += k;
            tty_writable_later(f->tty);
            if (done == n) return done;
            if (nb && done) return done;
        } else { errno = EBADF; return -1; }
        if (nb || !may_block) { errno = EAGAIN; return -1; }
        std::shared_ptr<File> g = f;
        int w = wait_for([g] { return (file_poll(g.get()) & (POLLOUT | POLLHUP | POLLERR)) != 0; }, FOREVER, true, "write");
        if (w < 0) { if (done) return done; errno = EINTR; return -1; }
    }
}
static void tty_drain(std::shared_ptr<Tty> t) {
    if (t->stalled || t->tx.empty() || t->hup) return;
    std::string d; d.swap(t->tx);
    if (t->on_tx) t->on_tx(d);
}
static void tty_writable_later(std::shared_ptr<Tty> t) { K->after(t->stalled ? 0 : 300, [t] { tty_drain(t); }); }
void tty_resume(std::shared_ptr<Tty> t) { t->stalled = false; tty_drain(t); }

ssize_t actor_write(Proc *p, int fd, const std::string &d) {
    auto f = fd_get(p, fd); if (!f) return -1;
    if (f->type == F_SOCK) { if (f->sock->st != Sock::CONN) return -1; return ext_send(f->sock.get(), d); }
    if (f->type == F_PIPE_W) { f->pipe->data += d; return d.size(); }
    if (f->type == F_CAPTURE && f->cap) { f->cap->append(d); return d.size(); }
    return d.size();
}
ssize_t actor_read(Proc *p, int fd, std::string *out, size_t max) {
    auto f = fd_get(p, fd); if (!f) return 0;
    if (f->type == F_SOCK) {
        Sock *s = f->sock.get();
        if (!s->rx.empty()) { *out = ext_read(s, max); return out->size(); }
        if (s->rx_fin || s->st == Sock::DEAD) return 0;
        return -1;
    }
    return 0;
}

extern "C" {
ssize_t sim_read(int fd, void *b, size_t n) {
    enter("read"); auto f = fd_get(P, fd); if (!f) return fail("read", EBADF);
    ssize_t r = do_read(f, (char *)b, n, "read", true);
    return leave("read", r, K->tracing ? dtag(P, fd) + (r > 0 ? " " + hexs(std::string((char *)b, r)) : "") : "");
}
ssize_t sim_write(int fd, const void *b, size_t n) {
    enter("write"); auto f = fd_get(P, fd); if (!f) return fail("write", EBADF, dtag(P, fd));
    ssize_t r = do_write(f, (const char *)b, n, "write", true);
    return leave("write", r, K->tracing ? dtag(P, fd) + (r > 0 ? " " + hexs(std::string((char *)b, r)) : "") : "");
}
ssize_t sim_recv(int fd, void *b, size_t n, int fl) {
    enter("recv"); auto f = fd_get(P, fd); if (!f) return fail("recv", EBADF); if (f->type != F_SOCK) return fail("recv", ENOTSOCK);
    return leave("recv", do_read(f, (char *)b, n, "recv", true, fl), dtag(P, fd));
}
ssize_t sim_send(int fd, const void *b, size_t n, int fl) {
    enter("send"); auto f = fd_get(P, fd); if (!f) return fail("send", EBADF); if (f->type != F_SOCK) return fail("send", ENOTSOCK);
    return leave("send", do_write(f, (const char *)b, n, "send", true, fl), dtag(P, fd));
}
ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return sim_recv(fd, b, n, fl); }
ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { return sim_send(fd, b, n, fl); }
ssize_t sim_writev(int fd, const struct iovec *v, int c) {
    enter("writev"); auto f = fd_get(P, fd); if (!f) return fail("writev", EBADF);
    ucheck(v, c * sizeof *v, "writev");
    std::string d; for (int i = 0; i < c; i++) { ucheck(v[i].iov_base, v[i].iov_len, "writev"); d.append((char *)v[i].iov_base, v[i].iov_len); }
    ssize_t r = do_write(f, d.data(), d.size(), "writev", true);
    return leave("writev", r, K->tracing ? dtag(P, fd) + (r > 0 ? " " + hexs(d.substr(0, r)) : "") : "");
}
ssize_t sim_readv(int fd, const struct iovec *v, int c) {
    enter("readv"); auto f = fd_get(P, fd); if (!f) return fail("readv", EBADF);
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    std::string d(n, 0); ssize_t r = do_read(f, &d[0], n, "readv", true);
    if (r > 0) { size_t o = 0; for (int i = 0; i < c && o < (size_t)r; i++) { size_t k = std::min<size_t>(v[i].iov_len, r - o); memcpy(v[i].iov_base, d.data() + o, k); o += k; } }
    return leave("readv", r);
}
int sim_close(int fd) {
    enter("close");
    std::string t = dtag(P, fd);
    int e = fault_for("close", tag_of(P, fd));
    int r = fd_close(P, fd);
    if (r == 0 && e > 0) { errno = e; r = -1; }
    return leave("close", r, t);
}
int sim_dup2(int a, int b) {
    enter("dup2"); auto f = fd_get(P, a); if (!f) return fail("dup2", EBADF);
    if (int e = fault_for("dup2", f->tag)) if (e > 0) return fail("dup2", e);
    if (a == b) return leave("dup2", b);
    if (b < 0 || b >= (int)P->nofile.rlim_cur) return fail("dup2", EBADF);
    if (fd_get(P, b)) fd_close(P, b);
    P->fds[b] = f; P->cloexec.erase(b); if (K->on_fd) K->on_fd("open", P, b, f.get());
    return leave("dup2", b);
}
int sim_dup3(int a, int b, int fl) { int r = sim_dup2(a, b); if (r >= 0 && (fl & O_CLOEXEC)) P->cloexec.insert(r); return r; }
int sim_dup(int a) { enter("dup"); auto f = fd_get(P, a); if (!f) return fail("dup", EBADF); return leave("dup", fd_alloc(P, f)); }

static bool lock_conflict(Node *n, int pid, int type, Lock *out) {
    for (auto &l : n->locks) if (l.pid != pid && (type == F_WRLCK || l.type == F_WRLCK)) { if (out) *out = l; return true; }
    if (n->write_lock_foreign) { if (out) *out = Lock{n->write_lock_foreign, F_WRLCK}; return true; }
    return false;
}
int sim_fcntl(int fd, int cmd, ...) {
    va_list a; va_start(a, cmd); void *arg = va_arg(a, void *); va_end(a);
    long iarg = (long)arg;
    enter("fcntl"); auto f = fd_get(P, fd); if (!f) return fail("fcntl", EBADF);
    if (int e = fault_for(cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK ? "lock" : "fcntl", f->tag)) if (e > 0) { if (f->type == F_REG && cmd == F_SETLK && K->on_file_fail) K->on_file_fail(f->path, P, f->node, 'K', e); return fail("fcntl", e); }
    switch (cmd) {
    case F_GETFL: return leave("fcntl", f->flags);
    case F_SETFL: { int keep = O_ACCMODE; f->flags = (f->flags & keep) | ((int)iarg & (O_NONBLOCK | O_APPEND)); return leave("fcntl", 0); }
    case F_GETFD: return leave("fcntl", P->cloexec.count(fd) ? FD_CLOEXEC : 0);
    case F_SETFD: if (iarg & FD_CLOEXEC) P->cloexec.insert(fd); else P->cloexec.erase(fd); return leave("fcntl", 0);
    case F_DUPFD: case F_DUPFD_CLOEXEC: { int r = fd_alloc(P, f, (int)iarg); if (r >= 0 && cmd == F_DUPFD_CLOEXEC) P->cloexec.insert(r); return leave("fcntl", r); }
    case F_SETLK: case F_SETLKW: case F_GETLK: {
        struct flock *fl = (struct flock *)arg; ucheck(fl, sizeof *fl, "fcntl");
        if (!f->node) return fail("fcntl", EINVAL);
        int acc = f->flags & O_ACCMODE;
        if (cmd != F_GETLK) {
            if (fl->l_type == F_RDLCK && acc == O_WRONLY) return fail("fcntl", EBADF);
            if (fl->l_type == F_WRLCK && acc == O_RDONLY) return fail("fcntl", EBADF);
        }
        Lock w;
        if (cmd == F_GETLK) {
            if (lock_conflict(f->node.get(), P->pid, fl->l_type, &w)) { fl->l_type = w.type; fl->l_pid = w.pid; fl->l_whence = SEEK_SET; fl->l_start = 0; fl->l_len = 0; }
            else fl->l_type = F_UNLCK;
            return leave("fcntl", 0);
        }
        int pid = P->pid; auto n = f->node; int ty = fl->l_type;
        if (ty != F_UNLCK) {
            while (lock_conflict(n.get(), pid, ty, nullptr)) {
                if (cmd == F_SETLK) { if (K->on_file_fail) K->on_file_fail(f->path, P, f->node, 'K', EAGAIN); return fail("fcntl", EAGAIN, dtag(P, fd)); }
                int r = wait_for([n, pid, ty] { return !lock_conflict(n.get(), pid, ty, nullptr); }, FOREVER, true, "lock");
                if (r < 0) return fail("fcntl", EINTR);
            }
        }
        auto &l = n->locks; l.erase(std::remove_if(l.begin(), l.end(), [&](Lock &k) { return k.pid == pid; }), l.end());
        if (ty != F_UNLCK) l.push_back(Lock{pid, ty});
        return leave("fcntl", 0);
    }
    default: return fail("fcntl", EINVAL);
    }
}
int sim_ioctl(int fd, unsigned long req, ...) {
    enter("ioctl"); auto f = fd_get(P, fd); if (!f) return fail("ioctl", EBADF);
    va_list a; va_start(a, req); void *arg = va_arg(a, void *); va_end(a);
    if (req == FIONBIO) { if (*(int *)arg) f->flags |= O_NONBLOCK; else f->flags &= ~O_NONBLOCK; return leave("ioctl", 0); }
    return fail("ioctl", ENOTTY);
}

// ------------------------------------------------------------- files
static std::string parent_of(const std::string &p) { size_t q = p.rfind('/'); return q ? p.substr(0, q) : "/"; }
static int do_open(const char *path, int flags, mode_t mode) {
    Proc *p = P; std::string ap = abspath(p, path);
    if (int e = fault_for("open", (ap.compare(0, 8, "/dev/tty") ? "file:" : "tty:") + ap)) if (e > 0) { errno = e; return -1; }
    if (p->fds.size() >= p->nofile.rlim_cur) { errno = EMFILE; return -1; }
    auto n = fs_lookup(ap);
    if (n && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    bool created = false;
    if (!n) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        auto d = fs_lookup(parent_of(ap));
        if (!d) { errno = ENOENT; return -1; }
        if (d->type != Node::DIR) { errno = ENOTDIR; return -1; }
        if (d->fail_write) { errno = d->fail_write; return -1; }
        n = fs_mknode(ap, Node::REG, mode & ~p->umask); created = true; if (K->on_create) K->on_create(ap, p, n);
    }
    auto f = std::make_shared<File>(); f->node = n; f->path = ap; f->flags = flags & (O_ACCMODE | O_APPEND | O_NONBLOCK); f->tag = "file:" + ap;
    int acc = flags & O_ACCMODE;
    switch (n->type) {
    case Node::DIR: if (acc != O_RDONLY) { errno = EISDIR; return -1; } f->type = F_DIR; break;
    case Node::SOCK: errno = ENXIO; return -1;
    case Node::CHR_NULL: f->type = F_NULL; break;
    case Node::FIFO: errno = ENXIO; return -1;
    case Node::CHR_TTY:
        if (n->tty->gone) { errno = ENXIO; return -1; }
        if (n->tty->hup) { if (n->tty->opens > 0) { errno = EIO; return -1; } n->tty->hup = false; }
        f->type = F_TTY; f->tty = n->tty; f->tag = "tty:" + ap; n->tty->opens++; if (n->tty->on_open) n->tty->on_open(1); break;
    case Node::REG: f->type = F_REG; if (acc != O_RDONLY && K->on_file_open) K->on_file_open(ap, p, n, flags, n->data.size(), 0); if ((flags & O_TRUNC) && acc != O_RDONLY) n->data.clear(); break;
    }
    if (created && K->on_file_write) K->on_file_write(ap, p, "", n);
    int fd = fd_alloc(p, f);
    if (fd >= 0 && (flags & O_CLOEXEC)) p->cloexec.insert(fd);
    return fd;
}
int sim_open(const char *path, int flags, ...) {
    mode_t m = 0; if (flags & O_CREAT) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); }
    enter("open"); int rc = do_open(path, flags, m);
    if (rc < 0 && (flags & O_ACCMODE) != O_RDONLY && K->on_file_open) { int e = errno; K->on_file_open(abspath(P, path), P, nullptr, flags, 0, e); errno = e; }
    return leave("open", rc, K->tracing ? path : "");
}
int sim_openat(int, const char *path, int flags, ...) {
    mode_t m = 0; if (flags & O_CREAT) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); }
    enter("open"); return leave("open", do_open(path, flags, m), path);
}
int sim_creat(const char *path, mode_t m) { return sim_open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
off_t sim_lseek(int fd, off_t o, int wh) {
    enter("lseek"); auto f = fd_get(P, fd); if (!f) return fail("lseek", EBADF); if (f->type != F_REG) return fail("lseek", ESPIPE);
    f->off = wh == SEEK_SET ? o : wh == SEEK_CUR ? f->off + o : (off_t)f->node->data.size() + o; return leave("lseek", f->off);
}
int sim_ftruncate(int fd, off_t n) { enter("ftruncate"); auto f = fd_get(P, fd); if (!f || f->type != F_REG) return fail("ftruncate", EBADF); f->node->data.resize(n); return leave("ftruncate", 0); }
int sim_truncate(const char *p, off_t n) { enter("truncate"); auto f = fs_lookup(abspath(P, p)); if (!f) return fail("truncate", ENOENT); f->data.resize(n); return leave("truncate", 0); }
int sim_fsync(int fd) { enter("fsync"); if (!fd_get(P, fd)) return fail("fsync", EBADF); return leave("fsync", 0); }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
static void fill_stat(Node *n, struct stat *st) {
    memset(st, 0, sizeof *st); st->st_ino = n->ino; st->st_dev = 1; st->st_nlink = 1; st->st_uid = n->uid; st->st_size = n->data.size();
    mode_t t = S_IFREG; switch (n->type) { case Node::DIR: t = S_IFDIR; break; case Node::SOCK: t = S_IFSOCK; break; case Node::CHR_NULL: case Node::CHR_TTY: t = S_IFCHR; break; case Node::FIFO: t = S_IFIFO; break; default: break; }
    st->st_mode = t | n->mode; st->st_mtime = st->st_ctime = st->st_atime = (K->wall_base + n->mtime) / SEC; st->st_blksize = 4096;
}
int sim_stat(const char *path, struct stat *st) {
    enter("stat"); std::string ap = abspath(P, path); if (K->on_touch) K->on_touch(ap);
    if (int e = fault_for("stat", ap)) if (e > 0) return fail("stat", e);
    auto n = fs_lookup(ap); if (!n) return fail("stat", ENOENT, path); fill_stat(n.get(), st); return leave("stat", 0, path);
}
int sim_lstat(const char *path, struct stat *st) { return sim_stat(path, st); }
int sim_fstat(int fd, struct stat *st) {
    enter("fstat"); auto f = fd_get(P, fd); if (!f) return fail("fstat", EBADF); if (int e = fault_for("fstat", f->tag)) if (e > 0) return fail("fstat", e);
    if (f->node) { fill_stat(f->node.get(), st); return leave("fstat", 0); }
    memset(st, 0, sizeof *st); st->st_mode = f->type == F_SOCK || f->type == F_LISTEN ? S_IFSOCK | 0777 : f->type == F_PIPE_R || f->type == F_PIPE_W ? S_IFIFO | 0600 : S_IFCHR | 0666;
    return leave("fstat", 0);
}
int sim_access(const char *path, int m) {
    enter("access"); std::string ap = abspath(P, path);
    if (int e = fault_for("access", ap)) if (e > 0) return fail("access", e);
    auto n = fs_lookup(ap); if (!n) return fail("access", ENOENT);
    if ((m & X_OK) && n->type == Node::REG && !(n->mode & 0111)) return fail("access", EACCES);
    return leave("access", 0);
}
int sim_mkdir(const char *path, mode_t m) {
    enter("mkdir"); std::string ap = abspath(P, path);
    if (int e = fault_for("mkdir", ap)) if (e > 0) return fail("mkdir", e);
    while (ap.size() > 1 && ap.back() == '/') ap.pop_back();
    if (fs_lookup(ap)) return fail("mkdir", EEXIST);
    auto d = fs_lookup(parent_of(ap)); if (!d) return fail("mkdir", ENOENT); if (d->type != Node::DIR) return fail("mkdir", ENOTDIR);
    if (d->fail_write) return fail("mkdir", d->fail_write);
    auto nn = fs_mknode(ap, Node::DIR, m & ~P->umask); if (K->on_create) K->on_create(ap, P, nn); return leave("mkdir", 0, ap);
}
int sim_unlink(const char *path) {
    enter("unlink"); std::string ap = abspath(P, path);
    if (int e = fault_for("unlink", ap)) if (e > 0) return fail("unlink", e);
    if (!fs_lookup(ap)) return fail("unlink", ENOENT); fs_unlink(ap); return leave("unlink", 0, ap);
}
int sim_remove(const char *p) { return sim_unlink(p); }
int sim_rmdir(const char *p) { return sim_unlink(p); }
int sim_rename(const char *a, const char *b) { enter("rename"); return fs_rename(abspath(P, a), abspath(P, b)) ? leave("rename", 0) : fail("rename", ENOENT); }
int sim_chmod(const char *a, mode_t m) { enter("chmod"); auto n = fs_lookup(abspath(P, a)); if (!n) return fail("chmod", ENOENT); n->mode = m; return 0; }
int sim_fchmod(int fd, mode_t m) { enter("fchmod"); auto f = fd_get(P, fd); if (!f) return fail("fchmod", EBADF); if (f->node) f->node->mode = m; return 0; }
int sim_chdir(const char *path) {
    enter("chdir"); std::string ap = abspath(P, path);
    if (int e = fault_for("chdir", ap)) if (e > 0) return fail("chdir", e);
    auto n = fs_lookup(ap); if (!n) return fail("chdir", ENOENT); if (n->type != Node::DIR) return fail("chdir", ENOTDIR); P->cwd = ap; return leave("chdir", 0);
}
char *sim_getcwd(char *b, size_t n) { enter("getcwd"); if (int e = fault_for("getcwd", "")) if (e > 0) { errno = e; return nullptr; } if (P->cwd.size() + 1 > n) { errno = ERANGE; return nullptr; } ucheck(b, P->cwd.size() + 1, "getcwd"); memcpy(b, P->cwd.c_str(), P->cwd.size() + 1); return b; }
mode_t sim_umask(mode_t m) { enter("umask"); mode_t o = P->umask; P->umask = m & 0777; return o; }
int sim_isatty(int fd) { enter("isatty"); auto f = fd_get(P, fd); if (!f) { errno = EBADF; return 0; } if (f->type == F_TTY) return 1; errno = ENOTTY; return 0; }
char *sim_ttyname(int fd) { enter("ttyname"); auto f = fd_get(P, fd); if (!f || f->type != F_TTY) { errno = ENOTTY; return nullptr; } static char b[256]; snprintf(b, sizeof b, "%s", f->tty->path.c_str()); return b; }
char *sim_realpath(const char *p, char *o) { std::string ap = abspath(P, p); if (!fs_lookup(ap)) { errno = ENOENT; return nullptr; } if (!o) o = (char *)malloc(4096); strcpy(o, ap.c_str()); return o; }

// ------------------------------------------------------------- stdio
static ssize_t ck_read(void *c, char *b, size_t n) { if (!K->cur) return 0; auto f = fd_get(P, (int)(long)c); if (!f) { errno = EBADF; return -1; } return do_read(f, b, n, "fread", false); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    if (!K || !K->cur) return n;
    auto f = fd_get(P, (int)(long)c); if (!f) { errno = EBADF; return 0; }
    std::string keep(b, n);   // the stdio buffer belongs to libc: never poisoned, but copy anyway
    if (K->tracing) K->note("stdio write " + f->tag + " " + hexs(keep, 200));
    size_t done = 0; while (done < n) { ssize_t r = do_write(f, keep.data() + done, n - done, "fwrite", false); K->hashmix(r); if (r <= 0) break; done += r; f = fd_get(P, (int)(long)c); if (!f) break; }   // as libc does it
    return done;
}
static int ck_seek(void *c, off64_t *o, int wh) { auto f = fd_get(P, (int)(long)c); if (!f || f->type != F_REG) { errno = ESPIPE; return -1; } f->off = wh == SEEK_SET ? *o : wh == SEEK_CUR ? f->off + *o : (off_t)f->node->data.size() + *o; *o = f->off; return 0; }
static int ck_close(void *c) {
    if (!K->cur) return 0;
    int fd = (int)(long)c; int e = fault_for("close", tag_of(P, fd)); int r = fd_close(P, fd); if (!r && e > 0) { errno = e; r = -1; } return r;
}
static FILE *mkfile(Proc *p, int fd, const char *mode) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie((void *)(long)fd, mode, io);
    p->files[f] = fd; return f;
}
static int mode_flags(const char *m) {
    int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    for (const char *p = m; *p; p++) { if (*p == '+') fl = (fl & ~O_ACCMODE) | O_RDWR; if (*p == 'x') fl |= O_EXCL; if (*p == 'e') fl |= O_CLOEXEC; } return fl;
}
FILE *sim_fopen(const char *path, const char *mode) {
    enter("fopen"); int fd = do_open(path, mode_flags(mode), 0666);
    if (fd < 0 && *mode != 'r' && K->on_file_open) { int e = errno; K->on_file_open(abspath(P, path), P, nullptr, mode_flags(mode), 0, e); errno = e; }
    leave("fopen", fd, path); if (fd < 0) return nullptr; return mkfile(P, fd, mode);
}
FILE *sim_fdopen(int fd, const char *mode) { enter("fdopen"); if (!fd_get(P, fd)) { errno = EBADF; return nullptr; } return mkfile(P, fd, mode); }
int sim_fclose(FILE *f) { enter("fclose"); if (!P->files.count(f)) { set_fatal("fclose() of a closed or unknown stream"); kyield(); } P->files.erase(f); int r = fclose(f); return leave("fclose", r); }
FILE *sim_freopen(const char *path, const char *mode, FILE *f) { int fd = P->files.count(f) ? P->files[f] : -1; if (fd >= 0) fflush(f); enter("freopen"); if (fd >= 0) fd_close(P, fd); int n = do_open(path, mode_flags(mode), 0666); if (n < 0) return nullptr; if (n != fd && fd >= 0) { sim_dup2(n, fd); fd_close(P, n); } return f; }
int sim_fileno(FILE *f) { auto i = P->files.find(f); if (i == P->files.end()) { errno = EBADF; return -1; } return i->second; }
int sim_printf(const char *f, ...) { va_list a; va_start(a, f); int r = vfprintf(sim_stdout, f, a); va_end(a); return r; }
int sim_vprintf(const char *f, va_list a) { return vfprintf(sim_stdout, f, a); }
int sim___printf_chk(int, const char *f, ...) { va_list a; va_start(a, f); int r = vfprintf(sim_stdout, f, a); va_end(a); return r; }
int sim_puts(const char *s) { if (fputs(s, sim_stdout) < 0) return EOF; return fputc('\n', sim_stdout); }
int sim_putchar(int c) { return fputc(c, sim_stdout); }
int sim_getchar(void) { return fgetc(sim_stdin); }
void sim_perror(const char *s) { int e = errno; if (s && *s) fprintf(sim_stderr, "%s: %s\n", s, strerror(e)); else fprintf(sim_stderr, "%s\n", strerror(e)); }

// ------------------------------------------------------------- pipes, sockets
static int mk_pipe(int v[2], int fl) {
    if (int e = fault_for("pipe", "")) if (e > 0) return fail("pipe", e);
    ucheck(v, 8, "pipe");
    auto b = std::make_shared<PipeBuf>(); b->readers = b->writers = 1;
    auto r = std::make_shared<File>(), w = std::make_shared<File>();
    r->type = F_PIPE_R; w->type = F_PIPE_W; r->pipe = w->pipe = b; r->flags = O_RDONLY | (fl & O_NONBLOCK); w->flags = O_WRONLY | (fl & O_NONBLOCK); r->tag = w->tag = "pipe";
    int a = fd_alloc(P, r); if (a < 0) return leave("pipe", -1);
    int c = fd_alloc(P, w); if (c < 0) { fd_close(P, a); errno = EMFILE; return leave("pipe", -1); }
    if (fl & O_CLOEXEC) { P->cloexec.insert(a); P->cloexec.insert(c); }
    v[0] = a; v[1] = c; return leave("pipe", 0);
}
int sim_pipe(int v[2]) { enter("pipe"); return mk_pipe(v, 0); }
int sim_pipe2(int v[2], int fl) { enter("pipe"); return mk_pipe(v, fl); }
int sim_socket(int dom, int type, int) {
    enter("socket");
    if (int e = fault_for("socket", dom == AF_UNIX ? "unix" : "inet")) if (e > 0) return fail("socket", e);
    if (dom != AF_INET && dom != AF_UNIX) return fail("socket", EAFNOSUPPORT);
    auto f = std::make_shared<File>(); f->type = F_SOCK; f->flags = O_RDWR | (type & SOCK_NONBLOCK ? O_NONBLOCK : 0);
    f->sock = std::make_shared<Sock>(); f->sock->domain = dom; f->sock->id = K->next_sock++; f->sock->lat = K->kn.lat; f->tag = dom == AF_UNIX ? "unix" : "inet"; f->sock->bound_to_file = true;
    int fd = fd_alloc(P, f); if (fd >= 0 && (type & SOCK_CLOEXEC)) P->cloexec.insert(fd);
    return leave("socket", fd);
}
int sim_socketpair(int, int type, int, int v[2]) {
    enter("socketpair"); if (int e = fault_for("socketpair", "")) if (e > 0) return fail("socketpair", e);
    std::shared_ptr<File> f[2];
    for (int i = 0; i < 2; i++) { f[i] = std::make_shared<File>(); f[i]->type = F_SOCK; f[i]->flags = O_RDWR | (type & SOCK_NONBLOCK ? O_NONBLOCK : 0); f[i]->sock = std::make_shared<Sock>(); f[i]->sock->domain = AF_UNIX; f[i]->sock->st = Sock::CONN; f[i]->sock->id = K->next_sock++; f[i]->tag = "pair"; f[i]->sock->cap = 65536; }
    f[0]->sock->peer = f[1]->sock; f[1]->sock->peer = f[0]->sock;
    int a = fd_alloc(P, f[0]); if (a < 0) return leave("socketpair", -1);
    int b = fd_alloc(P, f[1]); if (b < 0) { fd_close(P, a); errno = EMFILE; return leave("socketpair", -1); }
    if (type & SOCK_CLOEXEC) { P->cloexec.insert(a); P->cloexec.insert(b); }
    v[0] = a; v[1] = b; return leave("socketpair", 0);
}
int sim_bind(int fd, const struct sockaddr *sa, socklen_t) {
    enter("bind"); auto f = fd_get(P, fd); if (!f || f->type != F_SOCK) return fail("bind", EBADF);
    if (int e = fault_for("bind", f->tag)) if (e > 0) return fail("bind", e);
    if (sa->sa_family == AF_INET) {
        const struct sockaddr_in *in = (const struct sockaddr_in *)sa; int port = ntohs(in->sin_port);
        if (port && K->listeners.count(port)) return fail("bind", EADDRINUSE);
        if (port && !f->sock->reuse) { auto i = K->time_wait.find(port); if (i != K->time_wait.end() && K->now < i->second) return fail("bind", EADDRINUSE, "connections in TIME_WAIT"); }
        if (!port) { port = 40000; while (K->listeners.count(port)) port++; }
        f->sock->lport = port; f->sock->lip = ntohl(in->sin_addr.s_addr); return leave("bind", 0);
    }
    return fail("bind", EINVAL);
}
int sim_listen(int fd, int n) {
    enter("listen"); auto f = fd_get(P, fd); if (!f || f->type != F_SOCK) return fail("listen", EBADF);
    if (int e = fault_for("listen", f->tag)) if (e > 0) return fail("listen", e);
    if (K->listeners.count(f->sock->lport)) return fail("listen", EADDRINUSE);
    f->sock->st = Sock::LISTEN; f->sock->backlog_max = n + 1; f->type = F_LISTEN; f->tag = "listen"; K->listeners[f->sock->lport] = f->sock; if (K->on_fd) K->on_fd("listen", P, fd, f.get()); return leave("listen", 0);
}
static int do_accept(int fd, struct sockaddr *sa, socklen_t *sl, int fl) {
    enter("accept"); auto f = fd_get(P, fd); if (!f) return fail("accept", EBADF); if (f->type != F_LISTEN) return fail("accept", EINVAL);
    if (int e = fault_for("accept", "")) if (e > 0) { if (e == ECONNABORTED && !f->sock->backlog.empty()) { auto s = f->sock->backlog.front(); f->sock->backlog.pop_front(); auto p = s->peer.lock(); sock_closed_by_sut(s.get()); } return fail("accept", e); }
    auto s = f->sock;
    while (s->backlog.empty()) {
        if (f->flags & O_NONBLOCK) return fail("accept", EAGAIN);
        if (wait_for([s] { return !s->backlog.empty(); }, FOREVER, true, "accept") < 0) return fail("accept", EINTR);
    }
    auto c = s->backlog.front();
    auto g = std::make_shared<File>(); g->type = F_SOCK; g->sock = c; g->flags = O_RDWR | (fl & SOCK_NONBLOCK ? O_NONBLOCK : 0); g->tag = "sess"; c->bound_to_file = true;
    int n = fd_alloc(P, g);
    if (n < 0) { g->sock = nullptr; g->type = F_NULL; return leave("accept", -1); }
    s->backlog.pop_front();
    if (fl & SOCK_CLOEXEC) P->cloexec.insert(n);
    if (sa && sl) { struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(c->rip); in.sin_port = htons(c->rport); memcpy(sa, &in, std::min<size_t>(*sl, sizeof in)); *sl = sizeof in; }
    return leave("accept", n);
}
int sim_accept(int fd, struct sockaddr *sa, socklen_t *sl) { return do_accept(fd, sa, sl, 0); }
int sim_accept4(int fd, struct sockaddr *sa, socklen_t *sl, int fl) { return do_accept(fd, sa, sl, fl); }
int sim_connect(int fd, const struct sockaddr *sa, socklen_t) {
    enter("connect"); auto f = fd_get(P, fd); if (!f || f->type != F_SOCK) return fail("connect", f ? ENOTSOCK : EBADF);
    auto s = f->sock;
    if (s->st == Sock::CONN) return fail("connect", EISCONN);
    if (s->st == Sock::CONNECTING) return fail("connect", EALREADY);
    if (int e = fault_for("connect", f->tag)) if (e > 0) return fail("connect", e);
    if (s->st == Sock::DEAD) { int e = s->err ? s->err : ECONNABORTED; s->err = 0; s->st = Sock::NEW; s->rx_fin = false; return fail("connect", e); }
    if (sa->sa_family == AF_UNIX) {
        const struct sockaddr_un *un = (const struct sockaddr_un *)sa; if (K->on_touch) K->on_touch(abspath(P, un->sun_path)); auto n = fs_lookup(abspath(P, un->sun_path));
        if (!n) return fail("connect", ENOENT); if (n->type != Node::SOCK || !n->listening || !n->on_connect) return fail("connect", ECONNREFUSED);
        s->domain = AF_UNIX; n->on_connect(s);
        if (s->st != Sock::CONN) { int e = s->err ? s->err : ECONNREFUSED; s->err = 0; return fail("connect", e); }
        return leave("connect", 0, un->sun_path);
    }
    const struct sockaddr_in *in = (const struct sockaddr_in *)sa; uint32_t ip = ntohl(in->sin_addr.s_addr); int port = ntohs(in->sin_port);
    s->rip = ip; s->rport = port; if (K->on_dial) K->on_dial(P, ip, port);
    s->st = Sock::CONNECTING;
    if ((ip >> 24) == 127 || ip == 0x0a000001) {
        auto li = K->listeners.find(port);
        if (li != K->listeners.end() && (li->second->lip == 0 || li->second->lip == ip)) {
            auto l = li->second; std::weak_ptr<Sock> me = s;
            // a connection between two simulated processes
            K->after(s->lat, [l, me, ip, port] {
                auto s = me.lock(); if (!s || s->closed) return;
                if (l->closed) { sock_connect_result(s, ECONNREFUSED); return; }
                auto o = std::make_shared<Sock>(); o->domain = AF_INET; o->id = K->next_sock++; o->lat = s->lat; o->cap = s->cap; o->rip = ip; o->rport = 30000 + (int)o->id; o->lport = port; o->tag = "sess";
                o->peer = s; s->peer = o; o->st = s->st = Sock::CONN; l->backlog.push_back(o);
            });
        } else { std::weak_ptr<Sock> me = s; K->after(s->lat, [me] { auto s = me.lock(); if (s) sock_connect_result(s, ECONNREFUSED); }); }
    } else if (K->on_tcp_connect) K->on_tcp_connect(s, ip, port);
    else { std::weak_ptr<Sock> me = s; K->after(s->lat, [me] { auto s = me.lock(); if (s) sock_connect_result(s, EHOSTUNREACH); }); }
    if (f->flags & O_NONBLOCK) {
        if (s->st == Sock::CONN) return leave("connect", 0, fmt("%08x:%d", ip, port));
        return fail("connect", EINPROGRESS, fmt("%08x:%d", ip, port));
    }
    if (wait_for([s] { return s->st != Sock::CONNECTING; }, FOREVER, true, "connect") < 0) return fail("connect", EINTR);
    if (s->st == Sock::DEAD) { int e = s->err ? s->err : ECONNREFUSED; s->err = 0; s->st = Sock::NEW; s->rx_fin = false; return fail("connect", e); }
    return leave("connect", 0);
}
int sim_shutdown(int fd, int how) {
    enter("shutdown"); auto f = fd_get(P, fd); if (!f || f->type != F_SOCK) return fail("shutdown", EBADF);
    if (f->sock->st != Sock::CONN) return fail("shutdown", ENOTCONN);
    if (how == SHUT_WR || how == SHUT_RDWR) ext_shutdown_wr(f->sock.get());
    if (how == SHUT_RD || how == SHUT_RDWR) f->sock->rd_shut = true;
    return leave("shutdown", 0);
}
int sim_getsockopt(int fd, int lvl, int opt, void *v, socklen_t *l) {
    enter("getsockopt"); auto f = fd_get(P, fd); if (!f || !f->sock) return fail("getsockopt", ENOTSOCK);
    if (int e = fault_for("getsockopt", f->tag)) if (e > 0) return fail("getsockopt", e);
    ucheck(v, 4, "getsockopt"); if (lvl == SOL_SOCKET && opt == SO_ERROR) { *(int *)v = f->sock->err; f->sock->err = 0; } else *(int *)v = 0;
    *l = 4; return leave("getsockopt", 0, fmt("%d", *(int *)v));
}
int sim_setsockopt(int fd, int lvl, int opt, const void *v, socklen_t) {
    enter("setsockopt"); auto f = fd_get(P, fd); if (!f || !f->sock) return fail("setsockopt", ENOTSOCK);
    if (int e = fault_for("setsockopt", f->tag)) if (e > 0) return fail("setsockopt", e);
    if (lvl == SOL_SOCKET && opt == SO_KEEPALIVE) f->sock->keepalive = *(const int *)v;
    if (lvl == SOL_SOCKET && opt == SO_REUSEADDR) f->sock->reuse = *(const int *)v;
    return leave("setsockopt", 0);
}
int sim_getpeername(int fd, struct sockaddr *sa, socklen_t *sl) {
    enter("getpeername"); auto f = fd_get(P, fd); if (!f || !f->sock) return fail("getpeername", ENOTSOCK);
    if (int e = fault_for("getpeername", f->tag)) if (e > 0) return fail("getpeername", e);
    if (f->sock->st != Sock::CONN) return fail("getpeername", ENOTCONN);
    struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(f->sock->rip); in.sin_port = htons(f->sock->rport);
    memcpy(sa, &in, std::min<size_t>(*sl, sizeof in)); *sl = sizeof in; return leave("getpeername", 0);
}
int sim_getsockname(int fd, struct sockaddr *sa, socklen_t *sl) {
    enter("getsockname"); auto f = fd_get(P, fd); if (!f || !f->sock) return fail("getsockname", ENOTSOCK); if (int e = fault_for("getsockname", f->tag)) if (e > 0) return fail("getsockname", e);
    struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(f->sock->lip); in.sin_port = htons(f->sock->lport);
    memcpy(sa, &in, std::min<size_t>(*sl, sizeof in)); *sl = sizeof in; return leave("getsockname", 0);
}

// ------------------------------------------------------------- poll, select
int sim_poll(struct pollfd *u, nfds_t n, int ms) {
    enter("poll");
    ucheck(u, n * sizeof *u, "poll");
    if (int e = fault_for("poll", "")) if (e > 0) return fail("poll", e);
    if (can_eintr() && CH.rare(K->kn.p_eintr, 1)) { K->fault_hits["poll:EINTR"]++; return fail("poll", EINTR); }
    auto v = std::make_shared<std::vector<struct pollfd>>(u, u + n);
    Proc *p = P;
    auto scan = [v, p](bool fill) {
        int c = 0;
        for (auto &e : *v) {
            short r = 0;
            if (e.fd >= 0) { auto i = p->fds.find(e.fd); if (i == p->fds.end()) r = POLLNVAL; else r = file_poll(i->second.get()) & (e.events | POLLERR | POLLHUP); }
            if (fill) e.revents = r; if (r) { c++; if (!fill) return c; }
        }
        return c;
    };
    Time dl = ms < 0 ? FOREVER : K->now + (Time)ms * MS;
    int w = 0;
    if (scan(false) == 0) { if (ms == 0) w = 1; else w = wait_for([scan] { return scan(false) > 0; }, dl, false, "poll"); }
    if (w < 0) return fail("poll", EINTR);
    int c = scan(true);
    ucheck(u, n * sizeof *u, "poll (result)");
    for (size_t i = 0; i < n; i++) u[i].revents = (*v)[i].revents;
    if (K->tracing) { std::string d = fmt("timeout %d:", ms); for (size_t i = 0; i < n; i++) if ((*v)[i].revents) d += fmt(" %s=%x", dtag(p, (*v)[i].fd).c_str(), (*v)[i].revents); return leave("poll", c, d); }
    return leave("poll", c);
}
int sim_ppoll(struct pollfd *u, nfds_t n, const struct timespec *ts, const sigset_t *) { return sim_poll(u, n, ts ? (int)(ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000) : -1); }
static int select_body(int n, fd_set *r, fd_set *w, fd_set *x, const struct timeval *tv) {
    if (can_eintr() && CH.rare(K->kn.p_eintr, 1)) { K->fault_hits["select:EINTR"]++; return fail("select", EINTR); }
    fd_set R, W; FD_ZERO(&R); FD_ZERO(&W); if (r) R = *r; if (w) W = *w;
    Proc *p = P; auto bad = false;
    for (int i = 0; i < n; i++) if ((FD_ISSET(i, &R) || FD_ISSET(i, &W)) && !fd_get(p, i)) bad = true;
    if (bad) return fail("select", EBADF);
    auto ready = [p, n, R, W](fd_set *or_, fd_set *ow) {
        int c = 0;
        for (int i = 0; i < n; i++) {
            bool a = FD_ISSET(i, &R), b = FD_ISSET(i, &W); if (!a && !b) continue;
            auto f = fd_get(p, i); short q = f ? file_poll(f.get()) : 0;
            if (a && (q & (POLLIN | POLLHUP | POLLERR))) { c++; if (or_) FD_SET(i, or_); }
            if (b && (q & (POLLOUT | POLLERR))) { c++; if (ow) FD_SET(i, ow); }
        }
        return c;
    };
    Time dl = !tv ? FOREVER : K->now + tv->tv_sec * SEC + tv->tv_usec;
    int rc = 0;
    if (!ready(nullptr, nullptr)) { if (dl > K->now) rc = wait_for([ready] { return ready(nullptr, nullptr) > 0; }, dl, false, "select"); }
    if (rc < 0) return fail("select", EINTR);
    fd_set oR, oW; FD_ZERO(&oR); FD_ZERO(&oW); int c = ready(&oR, &oW);
    if (r) *r = oR; if (w) *w = oW; if (x) FD_ZERO(x);
    return leave("select", c);
}
int sim_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) { enter("select"); if (int e = fault_for("select", "")) if (e > 0) return fail("select", e); return select_body(n, r, w, x, tv); }
int sim_pselect(int n, fd_set *r, fd_set *w, fd_set *x, const struct timespec *ts, const sigset_t *m) {
    enter("select"); if (int e = fault_for("select", "")) if (e > 0) return fail("select", e);
    struct timeval tv; if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = (ts->tv_nsec + 999) / 1000; }
    std::set<int> old = P->masked; Ctx *c = K->cur; bool sw = m && c->is_main;
    if (sw) { P->masked.clear(); for (int s = 1; s <= 64; s++) if (s != SIGKILL && s != SIGSTOP && sigismember(m, s) == 1) P->masked.insert(s); }
    int rc;
    if (sw && sig_deliverable(c)) { run_signals(); rc = fail("select", EINTR); } else rc = select_body(n, r, w, x, ts ? &tv : nullptr);
    int e = errno; if (sw) P->masked = old; errno = e; return rc;
}

// ------------------------------------------------------------- time
time_t sim_time(time_t *t) { enter("time"); time_t v = K->wall() / SEC; if (t) *t = v; return v; }
int sim_gettimeofday(struct timeval *tv, void *) { enter("gettimeofday"); ucheck(tv, sizeof *tv, "gettimeofday"); tv->tv_sec = K->wall() / SEC; tv->tv_usec = K->wall() % SEC; return 0; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) { enter("clock_gettime"); int64_t t = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? K->wall() : K->now + 5000 * SEC; ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC * 1000; return 0; }
int sim_nanosleep(const struct timespec *a, struct timespec *rem) { enter("nanosleep"); Time d = K->now + a->tv_sec * SEC + a->tv_nsec / 1000; int w = wait_for([] { return false; }, d, false, "sleep"); if (w < 0) { if (rem) { Time l = std::max<Time>(0, d - K->now); rem->tv_sec = l / SEC; rem->tv_nsec = l % SEC * 1000; } return fail("nanosleep", EINTR); } return leave("nanosleep", 0); }
unsigned sim_sleep(unsigned s) { enter("sleep"); Time d = K->now + s * SEC; if (wait_for([] { return false; }, d, false, "sleep") < 0) return (d - K->now + SEC - 1) / SEC; return 0; }
int sim_usleep(useconds_t u) { enter("usleep"); if (wait_for([] { return false; }, K->now + u, false, "sleep") < 0) return fail("usleep", EINTR); return 0; }

// ------------------------------------------------------------- processes
pid_t sim_getpid(void) { return P->pid; }
pid_t sim_getppid(void) { return P->ppid; }
uid_t sim_getuid(void) { return P->uid; }
uid_t sim_geteuid(void) { return P->uid; }
gid_t sim_getgid(void) { return 0; }
gid_t sim_getegid(void) { return 0; }
pid_t sim_getpgrp(void) { return P->pgid; }
pid_t sim_getpgid(pid_t p) { Proc *q = p ? K->proc(p) : P; if (!q) return fail("getpgid", ESRCH); return q->pgid; }
pid_t sim_fork(void) {
    enter("fork"); if (int e = fault_for("fork", "")) if (e > 0) return fail("fork", e);
    int r = kfork();
    if (r) leave("fork", r); else K->hashmix(77);
    return r;
}
pid_t sim_vfork(void) { return sim_fork(); }
pid_t sim_setsid(void) { enter("setsid"); if (int e = fault_for("setsid", "")) if (e > 0) return fail("setsid", e); if (P->pgid == P->pid) return fail("setsid", EPERM); P->sid = P->pgid = P->pid; return leave("setsid", P->pid); }
int sim_setpgid(pid_t p, pid_t g) {
    enter("setpgid"); Proc *q = p ? K->proc(p) : P; if (!q || !q->alive) return fail("setpgid", ESRCH);
    if (q != P && q->ppid != P->pid) return fail("setpgid", ESRCH);
    if (q != P && q->actor) return fail("setpgid", EACCES);
    if (int e = fault_for("setpgid", "")) if (e > 0) return fail("setpgid", e);
    q->pgid = g ? g : q->pid; return leave("setpgid", 0);
}
int sim_kill(pid_t p, int s) {
    enter("kill"); Proc *me = P;
    if (int e = fault_for("kill", "")) if (e > 0) return fail("kill", e);
    if (p > 0) { Proc *q = K->proc(p); if (!q || (!q->alive && !q->zombie)) return fail("kill", ESRCH, fmt("%d %d", p, s)); if (q->pid == 1) return fail("kill", EPERM); if (K->on_kill) K->on_kill(me, q, s); K->signal(q, s); }
    else {
        int g = p == 0 ? me->pgid : -p; bool any = false; std::vector<Proc *> l;
        for (auto &e : K->procs) if (e.second->alive && e.second->pgid == g) l.push_back(e.second);
        for (Proc *q : l) { any = true; if (K->on_kill) K->on_kill(me, q, s); K->signal(q, s); }
        if (!any) return fail("kill", ESRCH, fmt("%d %d", p, s));
    }
    if (!me->alive) kyield();
    leave("kill", 0, fmt("%d %d", p, s));
    ksigpoint();
    if (K->cur->proc->stopped) kyield();
    return 0;
}
int sim_killpg(pid_t g, int s) { return sim_kill(-g, s); }
int sim_raise(int s) { return sim_kill(P->pid, s); }
pid_t sim_waitpid(pid_t pid, int *st, int opt) {
    enter("waitpid"); Proc *me = P;
    if (!(opt & WNOHANG) && can_eintr() && CH.rare(K->kn.p_eintr, 1)) return fail("waitpid", EINTR);
    for (;;) {
        bool kids = false; Proc *z = nullptr;
        for (auto &e : K->procs) { Proc *q = e.second; if (q->ppid != me->pid || (!q->alive && !q->zombie)) continue; if (pid > 0 && q->pid != pid) continue; if (pid == 0 && q->pgid != me->pgid) continue; if (pid < -1 && q->pgid != -pid) continue; kids = true; if (q->zombie) { z = q; break; } }
        if (z) { z->zombie = false; if (st) *st = z->status; return leave("waitpid", z->pid); }
        if (!kids) return fail("waitpid", ECHILD);
        if (opt & WNOHANG) return leave("waitpid", 0);
        int mp = me->pid;
        if (wait_for([mp, pid] { for (auto &e : K->procs) { Proc *q = e.second; if (q->ppid == mp && q->zombie && (pid <= 0 || q->pid == pid)) return true; } return false; }, FOREVER, true, "waitpid") < 0) return fail("waitpid", EINTR);
    }
}
pid_t sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
void sim_exit(int);
void sim__exit(int st) { enter("_exit"); kexit(st); }
int sim_atexit(void (*f)(void)) { enter("atexit"); P->at_exit.push_back(f); return leave("atexit", 0); }
void sim_exit(int st) { enter("exit"); while (!P->at_exit.empty()) { auto f = P->at_exit.back(); P->at_exit.pop_back(); f(); } for (auto &f : P->files) fflush(f.first); kexit(st); }
void sim_abort(void) { set_fatal("abort() called"); kyield(); K->die(P, SIGABRT); kyield(); __builtin_unreachable(); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *) { set_fatal(fmt("assertion failed: %s (%s:%u)", e, f, l)); kyield(); __builtin_unreachable(); }
static int do_exec(const char *path, std::vector<std::string> av) {
    enter("exec"); std::string ap = abspath(P, path);
    if (int e = fault_for("exec", ap)) if (e > 0) return fail("exec", e);
    auto n = fs_lookup(ap); if (!n) return fail("exec", ENOENT); if (n->type != Node::REG || !(n->mode & 0111)) return fail("exec", EACCES);
    Proc *p = P;
    std::vector<int> cl(p->cloexec.begin(), p->cloexec.end()); for (int fd : cl) fd_close(p, fd);
    for (auto &s : p->sig) if (s.second.handler != SIG_IGN) s.second.handler = SIG_DFL;
    std::string pend; p->pending.clear();
    p->at_exit.clear(); p->argv = av; p->name = av.empty() ? ap : av[0];
    p->env.clear(); for (char **e = sim_environ; e && *e; e++) p->env.push_back(*e);
    K->note("exec " + ap + " " + (av.size() > 1 ? av.back() : ""));
    K->hashmix(0xe8ec);
    auto a = K->make_prog ? K->make_prog(p, n->prog) : nullptr;
    if (!a) { K->die(p, 127 << 8); kyield(); }
    p->actor = a; a->proc = p; p->mod = nullptr; heap_leave(p);
    for (Ctx *c : p->ctxs) c->state = CTX_DEAD;
    if (K->loaded == p) K->loaded = nullptr;
    K->after(50, [p, a] { if (p->alive) a->start(); });
    kyield();
    __builtin_unreachable();
}
int sim_execv(const char *path, char *const av[]) { std::vector<std::string> v; for (char *const *a = av; *a; a++) v.push_back(*a); return do_exec(path, std::move(v)); }
int sim_execve(const char *path, char *const av[], char *const[]) { return sim_execv(path, av); }
int sim_execvp(const char *path, char *const av[]) { return sim_execv(path, av); }
int sim_execl(const char *path, const char *a0, ...) { std::vector<std::string> v; va_list a; va_start(a, a0); for (const char *s = a0; s; s = va_arg(a, const char *)) v.push_back(s); va_end(a); return do_exec(path, std::move(v)); }
int sim_sigaction(int s, const struct sigaction *n, struct sigaction *o) {
    enter("sigaction"); if (s < 1 || s > 64 || ((s == SIGKILL || s == SIGSTOP) && n)) return fail("sigaction", EINVAL);
    if (int e = fault_for("sigaction", "")) if (e > 0) return fail("sigaction", e);
    SigAct a = P->sig.count(s) ? P->sig[s] : SigAct();
    if (o) { memset(o, 0, sizeof *o); o->sa_handler = a.handler; o->sa_flags = a.flags; }
    if (n) { SigAct b; b.handler = n->sa_handler; b.flags = n->sa_flags; P->sig[s] = b; if (b.handler == SIG_IGN) P->pending.erase(s); }
    return 0;
}
typedef void (*sh_t)(int);
sh_t sim_signal(int s, sh_t h) { SigAct a = P->sig.count(s) ? P->sig[s] : SigAct(); SigAct b; b.handler = h; b.flags = SA_RESTART; P->sig[s] = b; return a.handler; }
static void mask_get(sigset_t *o) { sigemptyset(o); if (K->cur->is_main) for (int s : P->masked) sigaddset(o, s); }
static void mask_set(const sigset_t *n, int how) {
    if (!K->cur->is_main) return;                 // signals are only ever taken by the main thread
    for (int s = 1; s <= 64; s++) if (s != SIGKILL && s != SIGSTOP) {
        bool m = sigismember(n, s) == 1;
        if (how == SIG_SETMASK ? !m : how == SIG_UNBLOCK && m) P->masked.erase(s); else if (m) P->masked.insert(s);
    }
}
int sim_sigprocmask(int how, const sigset_t *n, sigset_t *o) { enter("sigprocmask"); if (o) mask_get(o); if (n) { mask_set(n, how); ksigpoint(); } return 0; }
int sim_pthread_sigmask(int how, const sigset_t *n, sigset_t *o) { return sim_sigprocmask(how, n, o); }
int sim_getrlimit(int r, struct rlimit *l) { enter("getrlimit"); if (int e = fault_for("getrlimit", "")) if (e > 0) return fail("getrlimit", e); *l = r == RLIMIT_NOFILE ? P->nofile : P->core; return 0; }
int sim_setrlimit(int r, const struct rlimit *l) {
    enter("setrlimit"); if (int e = fault_for("setrlimit", r == RLIMIT_NOFILE ? "nofile" : "core")) if (e > 0) return fail("setrlimit", e);
    if (l->rlim_cur > l->rlim_max) return fail("setrlimit", EINVAL);
    if (r == RLIMIT_NOFILE) { if (l->rlim_max > 1048576) return fail("setrlimit", EPERM); P->nofile = *l; } else P->core = *l; return 0;
}
// Local time is that of the process's own TZ; the environment's (the oracle's) is put back afterwards.
struct TzGuard {
    std::string old; bool sw = false;
    TzGuard() {
        const char *t = "UTC0"; for (char **e = sim_environ; e && *e; e++) if (!strncmp(*e, "TZ=", 3)) t = *e + 3;
        const char *h = getenv("TZ"); old = h ? h : "UTC0"; if (old != t) { sw = true; setenv("TZ", t, 1); tzset(); }
    }
    ~TzGuard() { if (sw) { setenv("TZ", old.c_str(), 1); tzset(); } }
};
struct tm *sim_localtime_r(const time_t *t, struct tm *r) { TzGuard g; return localtime_r(t, r); }
struct tm *sim_localtime(const time_t *t) { TzGuard g; return localtime(t); }
time_t sim_mktime(struct tm *tm) { TzGuard g; return mktime(tm); }
char *sim_ctime(const time_t *t) { TzGuard g; return ctime(t); }
char *sim_ctime_r(const time_t *t, char *b) { TzGuard g; return ctime_r(t, b); }
size_t sim_strftime(char *b, size_t n, const char *f, const struct tm *tm) { TzGuard g; return strftime(b, n, f, tm); }
void sim_tzset() {}
char *sim_getenv(const char *n) { size_t l = strlen(n); for (char **e = sim_environ; e && *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1; return nullptr; }
int sim_setenv(const char *n, const char *v, int) { int c = 0; for (char **e = sim_environ; e && *e; e++) c++; char **x = (char **)calloc(c + 2, sizeof *x); int j = 0; size_t l = strlen(n); for (int i = 0; i < c; i++) if (!(!strncmp(sim_environ[i], n, l) && sim_environ[i][l] == '=')) x[j++] = sim_environ[i]; x[j++] = strdup(fmt("%s=%s", n, v).c_str()); sim_environ = x; return 0; }
int sim_unsetenv(const char *n) { size_t l = strlen(n); char **o = sim_environ; for (char **e = sim_environ; e && *e; e++) if (!(!strncmp(*e, n, l) && (*e)[l] == '=')) *o++ = *e; if (o) *o = nullptr; return 0; }
int sim_rand(void) { P->rand_state = P->rand_state * 1103515245u + 12345u; return (int)((P->rand_state >> 1) & 0x7fffffff); }
void sim_srand(unsigned s) { P->rand_state = s; }
long sim_random(void) { return sim_rand(); }
void sim_srandom(unsigned s) { P->rand_state = s; }
char *sim_strtok(char *s, const char *d) { return strtok_r(s, d, &P->strtok_save); }
char *sim_getlogin(void) { static char b[64]; if (P->login.empty()) { errno = ENXIO; return nullptr; } snprintf(b, sizeof b, "%s", P->login.c_str()); return b; }
static struct passwd pw_; static char pw_name[64];
struct passwd *sim_getpwuid(uid_t u) { if (P->login.empty()) return nullptr; snprintf(pw_name, sizeof pw_name, "%s", P->login.c_str()); pw_.pw_name = pw_name; pw_.pw_uid = u; pw_.pw_dir = (char *)"/root"; pw_.pw_shell = (char *)"/bin/sh"; return &pw_; }
struct passwd *sim_getpwnam(const char *n) { if (P->login.empty() || P->login != n) return nullptr; return sim_getpwuid(P->uid); }

// GNU-style getopt with permutation, state kept per process
int sim_getopt(int argc, char *const argv_[], const char *opts) {
    char **argv = (char **)argv_;
    static const char *none = "";
    Proc *p = P; const char *o = opts; bool colon = false; if (*o == '+' || *o == '-') o++; if (*o == ':') { colon = true; o++; }
    sim_optarg = nullptr;
    if (p->optpos == 0) {
        int i = sim_optind;
        while (i < argc && (argv[i][0] != '-' || !argv[i][1])) i++;
        if (i >= argc) return -1;
        if (i > sim_optind) { char *t = argv[i]; for (int j = i; j > sim_optind; j--) argv[j] = argv[j - 1]; argv[sim_optind] = t; // permute
            // an option argument travels with it
            const char *q = strchr(o, t[strlen(t) - 1]); bool needs = false; for (const char *c = t + 1; *c; c++) { const char *m = strchr(o, *c); if (m && m[1] == ':') { needs = c[1] == 0; break; } } (void)q;
            if (needs && i + 1 < argc) { char *u = argv[i + 1]; for (int j = i + 1; j > sim_optind + 1; j--) argv[j] = argv[j - 1]; argv[sim_optind + 1] = u; } }
        if (!strcmp(argv[sim_optind], "--")) { sim_optind++; return -1; }
        p->optpos = 1;
    }
    char *a = argv[sim_optind]; int c = (unsigned char)a[p->optpos++]; const char *m = c == ':' ? nullptr : strchr(o, c); (void)none;
    bool last = a[p->optpos] == 0;
    if (!m) { sim_optopt = c; if (last) { sim_optind++; p->optpos = 0; } if (sim_opterr && !colon) fprintf(sim_stderr, "%s: invalid option -- '%c'\n", argv[0], c); return '?'; }
    if (m[1] == ':') {
        if (!last) { sim_optarg = a + p->optpos; sim_optind++; }
        else if (m[2] == ':') { sim_optind++; }
        else if (sim_optind + 1 < argc) { sim_optarg = argv[sim_optind + 1]; sim_optind += 2; }
        else { sim_optopt = c; sim_optind++; p->optpos = 0; if (sim_opterr && !colon) fprintf(sim_stderr, "%s: option requires an argument -- '%c'\n", argv[0], c); return colon ? ':' : '?'; }
        p->optpos = 0; return c;
    }
    if (last) { sim_optind++; p->optpos = 0; }
    return c;
}

// ------------------------------------------------------------- names, logging, wrappers
static struct hostent he_; static char he_name[256]; static uint32_t he_addr; static char *he_list[2]; static char *he_alias[1];
struct hostent *sim_gethostbyname(const char *n) {
    enter("gethostbyname"); struct in_addr ia;
    uint32_t ip; 
    if (int e = fault_for("gethostbyname", n)) if (e > 0) { h_errno = TRY_AGAIN; return nullptr; }
    if (inet_aton(n, &ia)) ip = ntohl(ia.s_addr);
    else {
        auto i = K->hosts.find(n);
        if (i != K->hosts.end() && i->second.delay > 0) { Time d = K->now + i->second.delay; if (K->on_block) K->on_block(P->pid, K->now, d); kblock([] { return false; }, d, false, "dns"); i = K->hosts.find(n); }
        if (i == K->hosts.end() || !i->second.ok) { h_errno = i == K->hosts.end() ? HOST_NOT_FOUND : TRY_AGAIN; leave("gethostbyname", -1, n); return nullptr; }
        ip = i->second.ip;
    }
    snprintf(he_name, sizeof he_name, "%s", n); he_addr = htonl(ip); he_list[0] = (char *)&he_addr; he_list[1] = nullptr; he_alias[0] = nullptr;
    he_.h_name = he_name; he_.h_aliases = he_alias; he_.h_addrtype = AF_INET; he_.h_length = 4; he_.h_addr_list = he_list; leave("gethostbyname", 0, n); return &he_;
}
struct hostent *sim_gethostbyaddr(const void *a, socklen_t, int) {
    enter("gethostbyaddr"); uint32_t ip = ntohl(*(const uint32_t *)a);
    if (int e = fault_for("gethostbyaddr", "")) if (e > 0) { h_errno = TRY_AGAIN; return nullptr; }
    if (K->rdns_delay > 0) { Time d = K->now + K->rdns_delay; kblock([] { return false; }, d, false, "dns"); }
    auto i = K->rdns.find(ip); if (i == K->rdns.end() || !K->rdns_ok) { h_errno = HOST_NOT_FOUND; return nullptr; }
    snprintf(he_name, sizeof he_name, "%s", i->second.c_str()); he_addr = htonl(ip); he_list[0] = (char *)&he_addr; he_list[1] = nullptr; he_alias[0] = nullptr;
    he_.h_name = he_name; he_.h_aliases = he_alias; he_.h_addrtype = AF_INET; he_.h_length = 4; he_.h_addr_list = he_list; return &he_;
}
void sim_openlog(const char *, int, int) {}
void sim_closelog(void) {}
void sim_vsyslog(int pri, const char *f, va_list a) { char b[2048]; vsnprintf(b, sizeof b, f, a); K->syslog_lines.push_back(fmt("<%d>%s", pri, b)); }
void sim_syslog(int pri, const char *f, ...) { va_list a; va_start(a, f); sim_vsyslog(pri, f, a); va_end(a); }
int sim_hosts_ctl(char *daemon, char *name, char *addr, char *) {      // hosts_access(5): rules for "conmand" by address or by name
    enter("hosts_ctl"); struct in_addr ia; if (!inet_aton(addr, &ia)) return leave("hosts_ctl", 0);
    if (strcmp(daemon, "conmand")) return leave("hosts_ctl", 1, daemon);
    auto i = K->deny.find(ntohl(ia.s_addr)); return leave("hosts_ctl", !((i != K->deny.end() && i->second) || K->deny_names.count(name)), addr);
}
int sim_inotify_init1(int fl) {
    enter("inotify_init"); if (int e = fault_for("inotify_init", "")) if (e > 0) return fail("inotify_init", e);
    auto f = std::make_shared<File>(); f->type = F_INOTIFY; f->tag = "inotify"; f->flags = O_RDONLY | (fl & O_NONBLOCK); int fd = fd_alloc(P, f); if (fd >= 0 && (fl & O_CLOEXEC)) P->cloexec.insert(fd); return leave("inotify_init", fd);
}
int sim_inotify_init(void) { return sim_inotify_init1(0); }
int sim_inotify_add_watch(int fd, const char *path, uint32_t) {
    enter("inotify_add_watch"); auto f = fd_get(P, fd); if (!f || f->type != F_INOTIFY) return fail("inotify_add_watch", EBADF);
    if (int e = fault_for("inotify_add_watch", path)) if (e > 0) return fail("inotify_add_watch", e);
    auto n = fs_lookup(abspath(P, path)); if (!n) return fail("inotify_add_watch", ENOENT);
    for (auto &w : f->watches) if (w.second == n.get()) return leave("inotify_add_watch", w.first);
    int wd = f->next_wd++; f->watches[wd] = n.get(); n->watchers.insert(f.get()); return leave("inotify_add_watch", wd);
}
int sim_inotify_rm_watch(int fd, int wd) {
    enter("inotify_rm_watch"); auto f = fd_get(P, fd); if (!f || f->type != F_INOTIFY) return fail("inotify_rm_watch", EBADF);
    auto i = f->watches.find(wd); if (i == f->watches.end()) return fail("inotify_rm_watch", EINVAL);
    i->second->watchers.erase(f.get()); f->watches.erase(i); f->inq.push_back(InEvent{wd, IN_IGNORED, ""}); return leave("inotify_rm_watch", 0);
}

// ------------------------------------------------------------- ttys
int sim_tcgetattr(int fd, struct termios *t) { enter("tcgetattr"); auto f = fd_get(P, fd); if (!f) return fail("tcgetattr", EBADF); if (f->type != F_TTY) return fail("tcgetattr", ENOTTY); if (int e = fault_for("tcgetattr", f->tag)) if (e > 0) return fail("tcgetattr", e); if (f->tty->hup) return fail("tcgetattr", EIO); ucheck(t, sizeof *t, "tcgetattr"); *t = f->tty->tio; return leave("tcgetattr", 0, dtag(P, fd)); }
int sim_tcsetattr(int fd, int act, const struct termios *t) {
    enter("tcsetattr"); auto f = fd_get(P, fd); if (!f) return fail("tcsetattr", EBADF); if (f->type != F_TTY) return fail("tcsetattr", ENOTTY); if (int e = fault_for("tcsetattr", f->tag)) if (e > 0) return fail("tcsetattr", e);
    if (f->tty->hup) return fail("tcsetattr", EIO);
    if (f->tty->term && (act == TCSADRAIN || act == TCSAFLUSH)) {       // waits until the terminal has taken the output
        auto t = f->tty; if (wait_for([t] { return t->tx.empty() || t->hup; }, FOREVER, true, "tcsetattr") < 0) return fail("tcsetattr", EINTR);
        if (t->hup) return fail("tcsetattr", EIO);
    }
    f->tty->tio = *t; f->tty->settings++; if (act == TCSAFLUSH) f->tty->flush_rx(); return leave("tcsetattr", 0, dtag(P, fd));
}
int sim_tcflush(int fd, int q) { enter("tcflush"); auto f = fd_get(P, fd); if (!f || f->type != F_TTY) return fail("tcflush", ENOTTY); if (f->tty->hup) return fail("tcflush", EIO); if (q == TCIFLUSH || q == TCIOFLUSH) { f->tty->flush_rx(); } if (q == TCOFLUSH || q == TCIOFLUSH) f->tty->tx.clear(); f->tty->flushes++; return leave("tcflush", 0); }
int sim_tcdrain(int fd) { enter("tcdrain"); auto f = fd_get(P, fd); if (!f || f->type != F_TTY) return fail("tcdrain", ENOTTY); auto t = f->tty; wait_for([t] { return t->tx.empty() || t->hup; }, FOREVER, true, "tcdrain"); return 0; }
int sim_tcsendbreak(int fd, int) {
    enter("tcsendbreak"); auto f = fd_get(P, fd); if (!f || f->type != F_TTY) return fail("tcsendbreak", ENOTTY); auto t = f->tty; if (t->hup) return fail("tcsendbreak", EIO);
    if (int e = fault_for("tcsendbreak", f->tag)) if (e > 0) return fail("tcsendbreak", e);
    if (!t->stalled) tty_drain(t);                // the driver waits for pending output
    t->nbreaks++; if (t->on_break) t->on_break();
    K->breaks.push_back({K->now, K->now + 250 * MS}); kblock([] { return false; }, K->now + 250 * MS, false, "break"); return leave("tcsendbreak", 0);
}
int sim_tcflow(int, int) { return 0; }
pid_t sim_tcgetpgrp(int) { return P->pgid; }
int sim_tcsetpgrp(int, pid_t) { return 0; }

// ------------------------------------------------------------- threads
int sim_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    enter("pthread_create"); if (int e = fault_for("pthread_create", "")) if (e > 0) return e;
    Ctx *c = ctx_create(P, fn, arg, false); *t = (pthread_t)c->id; K->hashmix(c->id); leave("pthread_create", c->id); return 0;
}
int sim_pthread_detach(pthread_t t) { enter("pthread_detach"); for (Ctx *c : P->ctxs) if (c->id == (int)t) c->detached = true; return 0; }
pthread_t sim_pthread_self(void) { return (pthread_t)K->cur->id; }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_join(pthread_t t, void **) { enter("pthread_join"); Proc *p = P; int id = (int)t; wait_for([p, id] { for (Ctx *c : p->ctxs) if (c->id == id && c->state != CTX_DEAD) return false; return true; }, FOREVER, true, "join"); return 0; }
void sim_pthread_exit(void *) { if (K->cur->is_main) kexit(0); kthread_exit(); }
int sim_pthread_attr_init(pthread_attr_t *) { return 0; }
int sim_pthread_attr_destroy(pthread_attr_t *) { return 0; }
int sim_pthread_attr_setdetachstate(pthread_attr_t *, int) { return 0; }
int sim_pthread_attr_setstacksize(pthread_attr_t *, size_t) { return 0; }
// The lock word lives on the kernel's side, per process: the memory of a process is swapped out while another one runs.
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { ucheck(m, sizeof *m, "pthread_mutex_init"); memset(m, 0, sizeof *m); P->mutexes[m] = 0; return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { ucheck(m, sizeof *m, "pthread_mutex_destroy"); if (P->mutexes[m]) return EBUSY; P->mutexes.erase(m); return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
    enter("mutex"); ucheck(m, sizeof *m, "pthread_mutex_lock"); Proc *p = P;
    if (p->mutexes[m] == K->cur->id) { set_fatal("self-deadlock: a thread locks a mutex it already holds"); kyield(); }
    if (p->mutexes[m]) {
        while (p->mutexes[m] && !K->stop) kblock([p, m] { return p->mutexes[m] == 0; }, FOREVER, false, "mutex");
        K->cover["mutex contention"]++;
    }
    if (K->stop) kyield();
    ucheck(m, sizeof *m, "pthread_mutex_lock");
    p->mutexes[m] = K->cur->id; return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { enter("mutex"); if (P->mutexes[m]) return EBUSY; P->mutexes[m] = K->cur->id; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) {
    ucheck(m, sizeof *m, "pthread_mutex_unlock");
    if (P->mutexes[m] != K->cur->id) return EPERM;
    P->mutexes[m] = 0; enter("unlock"); return 0;
}
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); P->conds[c] = 0; return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *c) { P->conds.erase(c); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { enter("cond"); P->conds[c]++; return 0; }
int sim_pthread_cond_signal(pthread_cond_t *c) { return sim_pthread_cond_broadcast(c); }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, Time dl) {
    Proc *p = P; int q = p->conds[c]; sim_pthread_mutex_unlock(m);
    Wake w = WK_OK; while (p->conds[c] == q) { w = kblock([p, c, q] { return p->conds[c] != q; }, dl, false, "cond"); if (w == WK_TIMEOUT || K->stop) break; }
    sim_pthread_mutex_lock(m); return w == WK_TIMEOUT ? ETIMEDOUT : 0;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, FOREVER); }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return cwait(c, m, K->now + ((int64_t)ts->tv_sec * SEC + ts->tv_nsec / 1000 - K->wall())); }
int sim_pthread_once(pthread_once_t *o, void (*fn)(void)) { int *p = (int *)o; if (!*p) { *p = 1; fn(); } return 0; }
int sim_sched_yield(void) { enter("sched_yield"); kyield(); return 0; }

// ------------------------------------------------------------- memory
static bool mfail() { if (!K || !K->cur) return false; return fault_for("malloc", "") > 0; }
static void *m_acct(void *p) { if (p && K && K->cur) P->heap[p] = malloc_usable_size(p); return p; }
void *sim_malloc(size_t n) { if (mfail()) { errno = ENOMEM; return nullptr; } return m_acct(malloc(n)); }
void *sim_calloc(size_t a, size_t b) { if (mfail()) { errno = ENOMEM; return nullptr; } return m_acct(calloc(a, b)); }
void sim_free(void *p) {
    if (p && K && K->cur && P->heap.count(p)) { bool sh = heap_shared(P, p); P->heap.erase(p); if (sh) return; }
    free(p);
}
void *sim_realloc(void *p, size_t n) {
    if (mfail()) { errno = ENOMEM; return nullptr; }
    if (p && K && K->cur && P->heap.count(p)) {
        if (heap_shared(P, p)) { void *q = malloc(n); if (!q) return nullptr; size_t m = P->heap[p]; memcpy(q, p, m < n ? m : n); P->heap.erase(p); return m_acct(q); }
        P->heap.erase(p);
    }
    return m_acct(realloc(p, n));
}
char *sim_strdup(const char *s) { if (mfail()) { errno = ENOMEM; return nullptr; } return (char *)m_acct(strdup(s)); }
char *sim_strndup(const char *s, size_t n) { if (mfail()) { errno = ENOMEM; return nullptr; } return (char *)m_acct(strndup(s, n)); }
} // extern "C"

void sim_exit_flush() { for (auto &f : P->files) fflush(f.first); }
void proc_init_stdio(Proc *p) {
    p->fin = mkfile(p, 0, "r"); p->fout = mkfile(p, 1, "w"); p->ferr = mkfile(p, 2, "w");
    setvbuf(p->ferr, nullptr, _IONBF, 0);
}
