// Virtual file system, sockets and ttys: state shared by system calls and by the outside world.
#include "internal.h"
#include <cerrno>
#include <sys/inotify.h>
#include <sys/stat.h>

static std::vector<std::string> split(const std::string &p) {
    std::vector<std::string> v; size_t i = 0;
    while (i < p.size()) { while (i < p.size() && p[i] == '/') i++; size_t j = i; while (j < p.size() && p[j] != '/') j++;
        if (j > i) { std::string c = p.substr(i, j - i); if (c == "..") { if (!v.empty()) v.pop_back(); } else if (c != ".") v.push_back(c); } i = j; }
    return v;
}
std::shared_ptr<Node> fs_lookup(const std::string &path) {
    auto n = K->root;
    for (auto &c : split(path)) {
        if (!n || n->type != Node::DIR) return nullptr;
        auto i = n->kids.find(c); if (i == n->kids.end()) return nullptr; n = i->second;
    }
    return n;
}
static std::shared_ptr<Node> mk(Node::T t, mode_t m, const std::string &name) { auto n = std::make_shared<Node>(); n->type = t; n->mode = m; n->ino = K->next_ino++; n->name = name; n->mtime = K->now; return n; }
std::shared_ptr<Node> fs_mkdirs(const std::string &path) {
    if (!K->root) K->root = mk(Node::DIR, 0755, "/");
    auto n = K->root;
    for (auto &c : split(path)) { auto &k = n->kids[c]; if (!k) k = mk(Node::DIR, 0755, c); n = k; }
    return n;
}
void fs_notify(const std::string &path, uint32_t mask) {
    auto v = split(path); if (v.empty()) return;
    std::string base = v.back(); std::string dir = path.substr(0, path.rfind('/'));
    auto d = fs_lookup(dir.empty() ? "/" : dir); if (!d) return;
    std::vector<File *> ws(d->watchers.begin(), d->watchers.end());
    std::sort(ws.begin(), ws.end(), [](File *a, File *b) { return a->id < b->id; });
    for (File *f : ws) for (auto &w : f->watches) if (w.second == d.get()) f->inq.push_back(InEvent{w.first, mask, base});
}
std::shared_ptr<Node> fs_mknode(const std::string &path, Node::T type, mode_t mode) {
    auto v = split(path); std::string base = v.back();
    size_t q = path.rfind('/'); auto d = fs_mkdirs(q ? path.substr(0, q) : "/");
    auto n = mk(type, mode, base); d->kids[base] = n;
    fs_notify(path, IN_CREATE);
    return n;
}
std::shared_ptr<Node> fs_put(const std::string &path, const std::string &data, mode_t mode) {
    auto n = fs_mknode(path, Node::REG, mode); n->data = data; return n;
}
bool fs_unlink(const std::string &path) {
    auto v = split(path); if (v.empty()) return false;
    auto d = fs_lookup(path.substr(0, path.rfind('/')).empty() ? "/" : path.substr(0, path.rfind('/')));
    if (!d || !d->kids.count(v.back())) return false;
    d->kids.erase(v.back()); fs_notify(path, IN_DELETE); return true;
}
bool fs_rename(const std::string &a, const std::string &b) {
    auto n = fs_lookup(a); if (!n) return false;
    auto va = split(a), vb = split(b);
    auto da = fs_lookup(a.substr(0, a.rfind('/'))); auto db = fs_mkdirs(b.substr(0, b.rfind('/')));
    da->kids.erase(va.back()); db->kids[vb.back()] = n; n->name = vb.back();
    fs_notify(a, IN_MOVED_FROM); fs_notify(b, IN_MOVED_TO); return true;
}

// ------------------------------------------------------------- streams
static Time hop(Sock *s) {
    Time t = K->now + (s->domain == AF_UNIX ? 0 : s->lat);
    if (s->domain != AF_UNIX && K->kn.jitter) { uint32_t v = CH.rare(300, K->kn.jitter); t += v; }
    t = std::max(t, s->last_deliver); t = std::max(t, s->hold_until);
    s->last_deliver = t;
    return t;
}
// What one endpoint sent is delivered strictly in order.
static void fly(Sock *s, std::function<void()> fn) {
    auto q = s->flight; q->push_back(std::move(fn)); std::weak_ptr<Sock> w = s->shared_from_this();
    struct Pop { static void go(std::shared_ptr<std::deque<std::function<void()>>> q, std::weak_ptr<Sock> w) {
        auto f = w.lock(); if (f && f->hold_until > K->now) { K->at(f->hold_until, [=] { go(q, w); }); return; }
        auto fn = std::move(q->front()); q->pop_front(); fn(); } };
    K->at(hop(s), [=] { Pop::go(q, w); });
}
static void wake_actor(std::shared_ptr<Sock> s) { if (s && s->actor) s->actor->on_data(s.get()); }
static void deliver(std::weak_ptr<Sock> wf, std::weak_ptr<Sock> wt, std::string d) {
    auto from = wf.lock(), to = wt.lock();
    if (from) from->pend -= std::min(from->pend, d.size());
    if (!to) return;
    if (to->closed || to->rd_shut || to->st == Sock::DEAD) {
        // data for a closed endpoint: the sender is reset
        if (from && from->domain != AF_UNIX && to->closed && from->st == Sock::CONN) {
            Time t = K->now + from->lat; std::weak_ptr<Sock> w = from;
            K->at(t, [w] { auto f = w.lock(); if (!f || f->closed || f->st != Sock::CONN) return;
                f->err = f->fin_seen ? EPIPE : ECONNRESET; f->st = Sock::DEAD; f->rx_fin = true; if (f->actor) f->actor->on_data(f.get()); });
        }
        return;
    }
    to->rx += d; to->total_rx += d.size();
    wake_actor(to);
}
static void wake_writer(Sock *reader) { auto p = reader->peer.lock(); if (p && p->actor) p->actor->on_writable(p.get()); }

size_t ext_space(Sock *s) {
    auto p = s->peer.lock(); if (!p || s->wr_shut || s->st != Sock::CONN) return 0;
    size_t used = p->rx.size() + s->pend; return used >= s->cap ? 0 : s->cap - used;
}
size_t ext_send(Sock *s, const std::string &d0) {
    size_t n = std::min(ext_space(s), d0.size()); if (!n) return 0;
    std::string d = d0.substr(0, n); auto p = s->peer.lock();
    s->pend += n; s->total_tx += n; s->sent_any = true;
    std::weak_ptr<Sock> f = s->shared_from_this(), t = p;
    if (s->domain == AF_UNIX && s->hold_until <= K->now && s->flight->empty()) { deliver(f, t, d); return n; }
    size_t i = 0;
    while (i < d.size()) {
        size_t len = d.size() - i;
        uint32_t v = CH.rare(K->kn.p_split, (uint32_t)std::min<size_t>(len, 1460));
        if (v) len = v;
        if (s->domain != AF_UNIX) len = std::min<size_t>(len, 1460);
        std::string seg = d.substr(i, len); i += len;
        fly(s, [=] { deliver(f, t, seg); });
    }
    return n;
}
static void fin_to(std::weak_ptr<Sock> wf, std::weak_ptr<Sock> wt) {
    auto from = wf.lock(), to = wt.lock();
    if (!to || to->closed) return;
    to->rx_fin = true; to->fin_seen = true;
    wake_actor(to);
}
static void rst_to(std::weak_ptr<Sock> wf, std::weak_ptr<Sock> wt, int err) {
    auto from = wf.lock(), to = wt.lock();
    if (!to || to->closed || to->st == Sock::DEAD) return;
    to->err = (to->fin_seen && err == ECONNRESET) ? EPIPE : err; to->st = Sock::DEAD; to->rx_fin = true; wake_actor(to);
}
static void send_fin(Sock *s) {
    if (s->wr_shut) return;
    s->wr_shut = true;
    std::weak_ptr<Sock> f = s->shared_from_this(), t = s->peer;
    if (s->domain == AF_UNIX && s->hold_until <= K->now && s->flight->empty()) { fin_to(f, t); return; }
    std::shared_ptr<Sock> keep = s->shared_from_this();
    fly(s, [=] { (void)keep; fin_to(f, t); });
}
static void send_rst(Sock *s, int err) {
    std::weak_ptr<Sock> f = s->shared_from_this(), t = s->peer;
    std::shared_ptr<Sock> keep = s->shared_from_this();
    s->wr_shut = true;
    if (s->domain == AF_UNIX && s->hold_until <= K->now && s->flight->empty()) { rst_to(f, t, err); return; }
    fly(s, [=] { (void)keep; rst_to(f, t, err); });
}
void ext_shutdown_wr(Sock *s) { if (s->st == Sock::CONN) send_fin(s); }
void ext_close(Sock *s) {
    if (s->closed) return;
    auto keep = s->shared_from_this();
    if (s->st == Sock::CONN) { if (!s->rx.empty() && s->domain != AF_UNIX) send_rst(s, ECONNRESET); else send_fin(s); }
    s->closed = true; s->rx.clear(); s->actor = nullptr;
}
void ext_reset(Sock *s) {
    if (s->closed) return;
    auto keep = s->shared_from_this();
    if (s->st == Sock::CONN) send_rst(s, ECONNRESET);
    s->closed = true; s->rx.clear(); s->actor = nullptr;
}
void ext_fail(Sock *x, int err) {
    if (x->closed) return;
    x->err = err; x->st = Sock::DEAD; x->rx_fin = true; wake_actor(x->shared_from_this());
}
// The peer's machine is gone without a word: nothing is acknowledged any more. The local end learns of it when data it sent
// is given up (about 15 min), or from keep-alive probes (2 h of silence and 9 probes), or never.
void ext_vanish(std::shared_ptr<Sock> m) {
    m->actor = nullptr; std::weak_ptr<Sock> w = m->peer; auto first = std::make_shared<Time>(-1); uint64_t got = m->total_rx; Time t0 = K->now; auto s0 = m->peer.lock(); if (s0) s0->hold_until = K->now;
    for (int i = 1; i <= 135; i++) K->at(t0 + i * 60 * SEC, [=] {
        auto s = w.lock(); if (!s || s->closed || s->st != Sock::CONN) return;
        if (*first < 0 && (m->total_rx > got || s->pend)) *first = K->now;
        if ((*first >= 0 && K->now >= *first + 924 * SEC) || (s->keepalive && K->now >= t0 + 7875 * SEC)) ext_fail(s.get(), ETIMEDOUT);
    });
}
std::string ext_read(Sock *s, size_t max) {
    std::string d = s->rx.substr(0, max); s->rx.erase(0, d.size());
    return d;
}
// The SUT dropped its last descriptor for this socket.
void sock_closed_by_sut(Sock *s) {
    if (s->closed) return;
    auto keep = s->shared_from_this();
    if (s->st == Sock::LISTEN) {
        for (auto &b : s->backlog) { if (b->st == Sock::CONN) send_rst(b.get(), ECONNRESET); b->closed = true; }
        s->backlog.clear(); auto i = K->listeners.find(s->lport); if (i != K->listeners.end() && i->second.get() == s) K->listeners.erase(i);
    }
    if (s->st == Sock::CONN) { if (!s->rx.empty()) send_rst(s, ECONNRESET); else { if (s->domain == AF_INET && s->lport && !s->rx_fin) K->time_wait[s->lport] = K->now + 60 * SEC; send_fin(s); } }
    s->closed = true; s->rx.clear();
    if (s->st == Sock::CONNECTING) s->st = Sock::DEAD;
}
static std::shared_ptr<Sock> new_sock(int dom) { auto s = std::make_shared<Sock>(); s->domain = dom; s->id = K->next_sock++; s->lat = K->kn.lat; return s; }

std::shared_ptr<Sock> ext_connect_tcp(uint32_t sip, int sport, int dport, SockActor *a, Time lat, size_t cap) {
    auto li = K->listeners.find(dport);
    auto mine = new_sock(AF_INET); mine->actor = a; mine->lat = lat; mine->cap = cap; mine->lip = sip; mine->lport = sport; mine->rport = dport;
    if (li != K->listeners.end() && (li->second->lip >> 24) == 127 && (sip >> 24) != 127) li = K->listeners.end();   // bound to the loopback address only
    if (li == K->listeners.end() || (int)li->second->backlog.size() >= li->second->backlog_max) {
        if (li == K->listeners.end()) { mine->err = ECONNREFUSED; mine->st = Sock::DEAD; }
        else mine->st = Sock::NEW;     // SYN dropped: the caller retries
        return mine;
    }
    auto sut = new_sock(AF_INET); sut->lat = lat; sut->cap = cap; sut->rip = sip; sut->rport = sport; sut->lport = dport; sut->tag = "sess";
    mine->peer = sut; sut->peer = mine; mine->st = sut->st = Sock::CONN;
    li->second->backlog.push_back(sut);
    return mine;
}
void ext_accept(std::shared_ptr<Sock> sut, SockActor *a, Time lat, size_t cap, std::shared_ptr<Sock> *mine) {
    auto m = new_sock(sut->domain); m->actor = a; m->lat = lat; m->cap = cap; sut->lat = lat; sut->cap = cap;
    m->peer = sut; sut->peer = m; m->st = Sock::CONN; sut->st = Sock::CONN;
    *mine = m;
    if (a) a->on_connected(m.get());
}
void sock_connect_result(std::shared_ptr<Sock> sut, int err) {
    if (sut->st != Sock::CONNECTING || sut->closed) return;
    sut->err = err; sut->st = Sock::DEAD; sut->rx_fin = true;
}
void tty_hangup(Tty *t) { t->hup = t->washup = true; t->rx.clear(); t->tx.clear(); }

File::~File() { release(); }
void File::release() {              // the last reference is gone
    if (!K || released) return;
    released = true;
    switch (type) {
    case F_SOCK: case F_LISTEN: if (sock) sock_closed_by_sut(sock.get()); break;
    case F_PIPE_R: pipe->readers--; break;
    case F_PIPE_W: pipe->writers--; break;
    case F_TTY: if (tty) { tty->opens--; if (tty->on_open) tty->on_open(-1); } break;
    case F_INOTIFY: for (auto &w : watches) if (w.second) w.second->watchers.erase(this); break;
    default: break;
    }
}
