// Scheduler, contexts, processes, signals.
#include "internal.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <cerrno>
#include <netdb.h>
#include <cstdarg>
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>

Kernel *K = nullptr;
Choices CH;
int64_t bb_left = INT64_MAX / 2;
static int64_t bb_quota = 0;
uint8_t cov_map[1 << 16];

std::string fmt(const char *f, ...) {
    char b[4096]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a);
    if (n < (int)sizeof b) return std::string(b, n < 0 ? 0 : n);
    std::string s(n + 1, 0); va_start(a, f); vsnprintf(&s[0], n + 1, f, a); va_end(a); s.resize(n); return s;
}
std::string hexs(const std::string &s, size_t max) {
    std::string o;
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = s[i];
        if (c >= 32 && c < 127 && c != '\\') o += c; else o += fmt("\\x%02x", c);
    }
    if (s.size() > max) o += fmt("...(%zu)", s.size());
    return o;
}

// ------------------------------------------------------------- randomness
static uint64_t splitmix(uint64_t &x) { uint64_t z = (x += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
Rng::Rng(uint64_t seed) { s[0] = splitmix(seed); s[1] = splitmix(seed); }
uint64_t Rng::next() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b; }

static uint32_t ch_record(Choices &c, uint32_t v) { if (v) c.made.push_back({c.count, v}); c.count++; return v; }
uint32_t Choices::uniform(uint32_t n) {
    if (n <= 1) return 0;
    if (replay) { auto i = script.find(count); uint32_t v = i == script.end() ? 0 : i->second % n; return ch_record(*this, v); }
    return ch_record(*this, rng.below(n));
}
uint32_t Choices::rare(int permille, uint32_t n) {
    if (permille <= 0) return 0;
    if (replay) { auto i = script.find(count); uint32_t v = i == script.end() ? 0 : std::min(i->second, n); return ch_record(*this, v); }
    uint32_t v = (int)rng.below(1000) < permille ? 1 + rng.below(n) : 0;
    return ch_record(*this, v);
}

void Kernel::note(const std::string &s) {
    if (tracing && trace.size() < trace_max) trace.push_back(SysRec{now, cur ? cur->proc->pid : 0, cur ? cur->id : 0, s});
}
void set_fatal(const std::string &s) {
    if (K->fatal.empty()) K->fatal = s;
    K->note("FATAL " + s);
    K->stop = true;
}

// ------------------------------------------------------------- contexts
extern "C" void ctx_switch_asm(void **save, void *to);
asm(R"(
.text
.globl ctx_switch_asm
ctx_switch_asm:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
)");

static void *sched_sp; static void *sched_fake; static const void *sched_bot; static size_t sched_size;
static std::vector<Region *> free_regions;
static const size_t REG_SIZE = 1 << 20;
static Ctx *fork_child = nullptr;

// copies that must not be checked: whole stacks and whole sets of globals
static inline void rawcpy(void *d, const void *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static inline void rawzero(void *d, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(0) : "memory"); }
static void rawassign(std::string &o, const void *s, size_t n) { o.resize(n); rawcpy(&o[0], s, n); }
static inline char *shadow_of(const void *p) { return (char *)(((uintptr_t)p >> 3) + 0x7fff8000UL); }

static Region *region_get() {
    Region *r;
    if (!free_regions.empty()) { r = free_regions.back(); free_regions.pop_back(); }
    else {
        r = new Region;
        r->size = REG_SIZE;
        char *m = (char *)mmap(nullptr, REG_SIZE + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) { perror("mmap"); _exit(3); }
        mprotect(m, 4096, PROT_NONE);
        r->base = m + 4096;
    }
    __asan_unpoison_memory_region(r->base, r->size);
    r->owner = nullptr; r->users = 0;
    return r;
}
static void region_put(Region *r, Ctx *c) {
    if (r->owner == c) r->owner = nullptr;
    if (--r->users == 0) free_regions.push_back(r);
}

// Forked processes share addresses, not contents: the blocks a process owns are swapped in with its globals.
static void heap_save(Proc *q) {
    for (auto &b : q->heap) rawassign(q->heap_img[b.first], b.first, b.second);
}
static void heap_load(Proc *p) {
    HeapFam *f = p->fam.get();
    if (f->loaded == p) return;
    if (f->loaded && f->members.count(f->loaded)) heap_save(f->loaded);
    for (auto &b : p->heap_img) { auto i = p->heap.find(b.first); if (i != p->heap.end()) rawcpy(b.first, b.second.data(), b.second.size()); }
    p->heap_img.clear(); f->loaded = p;
}
void heap_leave(Proc *p) {
    if (!p->fam) return;
    auto f = p->fam; p->fam.reset(); f->members.erase(p); p->heap.clear(); p->heap_img.clear();
    if (f->members.size() == 1) { Proc *q = *f->members.begin(); q->fam = f; heap_load(q); q->fam.reset(); }
}
static void heap_fork(Proc *p, Proc *q) {
    if (!p->fam) { p->fam = std::make_shared<HeapFam>(); p->fam->members.insert(p); p->fam->loaded = p; }
    q->fam = p->fam; q->fam->members.insert(q); q->heap = p->heap; heap_save(q);
}
bool heap_shared(Proc *p, void *b) {
    if (!p->fam) return false;
    for (Proc *q : p->fam->members) if (q != p && q->heap.count(b)) return true;
    return false;
}

static void load_proc(Proc *p) {
    if (p->fam) heap_load(p);
    if (K->loaded == p) return;
    Proc *o = K->loaded;
    auto save = [](Proc *q) {
        Module *m = q->mod; if (!m) return;
        size_t a = m->d1 - m->d0, b = m->b1 - m->b0;
        q->image.resize(a + b);
        rawcpy(&q->image[0], m->d0, a); rawcpy(&q->image[a], m->b0, b);
        q->environ_v = sim_environ; q->optarg_ = sim_optarg; q->optind_ = sim_optind; q->opterr_ = sim_opterr; q->optopt_ = sim_optopt;
        q->fin = sim_stdin; q->fout = sim_stdout; q->ferr = sim_stderr;
    };
    if (o && o->alive) save(o);
    Module *m = p->mod;
    size_t a = m->d1 - m->d0, b = m->b1 - m->b0;
    rawcpy(m->d0, p->image.data(), a); rawcpy(m->b0, p->image.data() + a, b);
    sim_environ = p->environ_v; sim_optarg = p->optarg_; sim_optind = p->optind_; sim_opterr = p->opterr_; sim_optopt = p->optopt_;
    sim_stdin = p->fin; sim_stdout = p->fout; sim_stderr = p->ferr;
    K->loaded = p;
}

static void load_stack(Ctx *c) {
    Region *r = c->reg;
    if (r->owner == c) return;
    Ctx *o = r->owner;
    char *top = r->base + r->size;
    char *lo = top;
    if (o) {
        size_t n = top - (char *)o->sp;
        rawassign(o->img, o->sp, n);
        rawassign(o->shadow, shadow_of(o->sp), n >> 3);
        lo = (char *)o->sp;
    } else lo = r->base;
    if (!c->img.empty()) {
        if (lo < (char *)c->sp) rawzero(shadow_of(lo), ((char *)c->sp - lo) >> 3);
        rawcpy(c->sp, c->img.data(), c->img.size());
        rawcpy(shadow_of(c->sp), c->shadow.data(), c->shadow.size());
        c->img.clear(); c->shadow.clear();
    }
    r->owner = c;
}

static void after_switch_in() {
    Ctx *c = K->cur;
    __sanitizer_finish_switch_fiber(c->fake, &sched_bot, &sched_size);
    errno = c->saved_errno; h_errno = c->saved_herrno;
}

static void trampoline() {
    after_switch_in();
    Ctx *c = K->cur;
    c->started = true;
    void *(*e)(void *) = c->entry; void *a = c->arg;
    bool m = c->is_main;
    void *r = e(a);
    if (m) { (void)r; kexit(0); }
    kthread_exit();
}
extern "C" void ctx_trampoline();
asm(R"(
.text
ctx_trampoline:
    andq $-16, %rsp
    call ctx_tramp_c
    ud2
)");
extern "C" void ctx_tramp_c() { trampoline(); }

Ctx *ctx_create(Proc *p, void *(*entry)(void *), void *arg, bool is_main) {
    Ctx *c = new Ctx;
    c->id = K->next_ctx++; c->proc = p; c->reg = region_get(); c->reg->users = 1;
    c->entry = entry; c->arg = arg; c->is_main = is_main;
    c->reg->owner = c;
    void **sp = (void **)(c->reg->base + c->reg->size - 64);
    *--sp = (void *)ctx_trampoline;
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    c->sp = sp;
    p->ctxs.push_back(c);
    K->ctxs.push_back(c);
    return c;
}

void kswitch_out() {
    Ctx *c = K->cur;
    c->saved_errno = errno; c->saved_herrno = h_errno;
    __sanitizer_start_switch_fiber(c->state == CTX_DEAD ? nullptr : &c->fake, sched_bot, sched_size);
    ctx_switch_asm(&c->sp, sched_sp);
    after_switch_in();
}

static void ctx_resume(Ctx *c) {
    load_proc(c->proc);
    load_stack(c);
    K->cur = c;
    K->nswitch++;
    __sanitizer_start_switch_fiber(&sched_fake, c->reg->base, c->reg->size);
    ctx_switch_asm(&sched_sp, c->sp);
    __sanitizer_finish_switch_fiber(sched_fake, nullptr, nullptr);
    if (fork_child) {
        Ctx *f = fork_child; fork_child = nullptr;
        char *top = c->reg->base + c->reg->size;
        size_t n = top - (char *)c->sp;
        f->sp = c->sp; rawassign(f->img, c->sp, n); rawassign(f->shadow, shadow_of(c->sp), n >> 3);
        Module *m = c->proc->mod;
        size_t a = m->d1 - m->d0, b = m->b1 - m->b0;
        f->proc->image.resize(a + b);
        rawcpy(&f->proc->image[0], m->d0, a); rawcpy(&f->proc->image[a], m->b0, b);
        f->proc->environ_v = sim_environ; f->proc->optarg_ = sim_optarg; f->proc->optind_ = sim_optind; f->proc->opterr_ = sim_opterr; f->proc->optopt_ = sim_optopt;
        f->proc->fin = sim_stdin; f->proc->fout = sim_stdout; f->proc->ferr = sim_stderr;
        f->fake = nullptr;
    }
    K->cur = nullptr;
}

int kfork() {
    Ctx *me = K->cur;
    int my_id = me->id;
    {
        Proc *p = me->proc, *q = new Proc;
        q->pid = K->next_pid++; q->ppid = p->pid; q->pgid = p->pgid; q->sid = p->sid; q->name = p->name;
        q->root = p->root; q->mod = p->mod; q->at_exit = p->at_exit; q->fds = p->fds; q->cloexec = p->cloexec; q->cwd = p->cwd; q->umask = p->umask; q->sig = p->sig; q->masked = p->masked;
        q->nofile = p->nofile; q->core = p->core; q->argv = p->argv; q->env = p->env; q->t_start = K->now;
        q->files = p->files; q->envp = p->envp; q->strtok_save = p->strtok_save; q->rand_state = p->rand_state;
        for (auto &e : p->mutexes) q->mutexes[e.first] = e.second;
        q->conds = p->conds;
        q->login = p->login; q->ctty_path = p->ctty_path; q->uid = p->uid;
        for (auto &e : q->fds) if (e.second->type == F_CAPTURE) {  // same sink as the parent
        }
        K->procs[q->pid] = q;
        Ctx *c = new Ctx;
        c->id = K->next_ctx++; c->proc = q; c->reg = me->reg; c->reg->users++;
        c->is_main = true; c->started = true;
        c->saved_errno = errno;
        for (auto &e : q->mutexes) if (e.second == my_id) e.second = c->id;
        q->ctxs.push_back(c);
        K->ctxs.push_back(c);
        heap_fork(p, q);
        fork_child = c;
        me->arg = (void *)(intptr_t)q->pid;
        K->hashmix(q->pid);
    }
    kswitch_out();
    if (K->cur->id != my_id) return 0;
    return (int)(intptr_t)K->cur->arg;
}

void kthread_exit() {
    K->cur->state = CTX_DEAD;
    kswitch_out();
    __builtin_unreachable();
}
void kexit(int status) {
    K->die(K->cur->proc, (status & 0xff) << 8);
    kswitch_out();
    __builtin_unreachable();
}

void kyield() {
    Ctx *c = K->cur;
    if (!c) return;
    kswitch_out();
}

Wake kblock(std::function<bool()> pred, Time deadline, bool interruptible, const char *what) {
    Ctx *c = K->cur;
    if (pred()) return WK_OK;
    if (deadline <= K->now) return WK_TIMEOUT;
    c->pred = std::move(pred); c->deadline = deadline; c->interruptible = interruptible; c->state = CTX_BLOCK; c->what = what;
    kswitch_out();
    c = K->cur;
    bool ok = c->pred();
    Time dl = c->deadline;
    c->pred = nullptr; c->deadline = FOREVER; c->state = CTX_RUN; c->what = "";
    if (ok) { return WK_OK; }
    if (interruptible && sig_deliverable(c)) return WK_SIG;
    if (dl <= K->now) return WK_TIMEOUT;
    return WK_SIG;      // spurious: treated by callers as "look again"
}

// ------------------------------------------------------------- signals
bool sig_deliverable(Ctx *c) {
    // As on Linux, a process-directed signal is taken by the main thread.
    if (!c->is_main || c->in_handler) return false;
    for (int s : c->proc->pending) if (!c->proc->masked.count(s)) return true;
    return false;
}
bool last_handler_restart = true;
bool run_signals() {
    Ctx *c = K->cur; Proc *p = c->proc;
    bool ran = false;
    while (sig_deliverable(c) && p->alive) {
        auto it = p->pending.begin(); while (p->masked.count(*it)) ++it;
        int s = *it;
        p->pending.erase(it);
        SigAct a = p->sig[s];
        if (a.handler == SIG_DFL) { K->signal(p, s); if (!p->alive || p->stopped) kyield(); continue; }
        if (a.handler == SIG_IGN) continue;
        last_handler_restart = (a.flags & SA_RESTART) != 0;
        K->nsig++; K->hashmix(1000 + s);
        K->note(fmt("signal %d handler", s));
        c->in_handler = true;
        a.handler(s);
        K->cur->in_handler = false;
        ran = true;
    }
    return ran;
}
void Kernel::signal(Proc *p, int s) {
    if (!p || !p->alive) return;
    note(fmt("signal %d -> pid %d", s, p->pid));
    if (s == 0) return;
    if (p->actor) {
        SigAct a = p->sig.count(s) ? p->sig[s] : SigAct();
        if (s == SIGKILL) { die(p, s); return; }
        if (s == SIGSTOP) { p->stopped = true; return; }
        if (s == SIGCONT) { p->stopped = false; if (p->actor) p->actor->on_input(); return; }
        if (a.handler == SIG_IGN) return;
        auto keep = p->actor;
        if (keep->on_signal(s)) return;
        if (s == SIGCHLD || s == SIGWINCH || s == SIGURG) return;
        die(p, s); return;
    }
    if (s == SIGKILL) { die(p, SIGKILL); return; }
    if (s == SIGSTOP) { p->stopped = true; return; }
    if (s == SIGCONT) { p->stopped = false; }
    SigAct a = p->sig.count(s) ? p->sig[s] : SigAct();
    if (a.handler == SIG_IGN) return;
    if (p->masked.count(s)) { p->pending.insert(s); return; }
    if (a.handler == SIG_DFL) {
        if (s == SIGCHLD || s == SIGCONT || s == SIGWINCH || s == SIGURG) return;
        if (s == SIGTSTP || s == SIGTTIN || s == SIGTTOU) { p->stopped = true; return; }
        die(p, s); return;
    }
    p->pending.insert(s);
}

// ------------------------------------------------------------- processes
Proc *Kernel::spawn(Module *m, std::vector<std::string> argv, std::vector<std::string> env, int ppid, const std::string &cwd,
                    std::function<void(Proc *)> setup) {
    Proc *p = new Proc;
    p->pid = next_pid++; p->ppid = ppid; p->pgid = p->pid; p->sid = p->pid;
    p->root = p->pid; p->name = argv[0]; p->mod = m; p->image = m->pristine; p->argv = argv; p->env = env; p->cwd = cwd; p->t_start = now;
    p->nofile.rlim_cur = 1024; p->nofile.rlim_max = 4096; p->core.rlim_cur = p->core.rlim_max = RLIM_INFINITY;
    procs[p->pid] = p;
    for (int i = 0; i < 3; i++) {
        auto f = std::make_shared<File>(); f->id = next_file++;
        if (i == 0) { f->type = F_NULL; f->flags = 0; f->tag = "null"; }
        else { f->type = F_CAPTURE; f->cap = i == 1 ? &p->out : &p->err; f->flags = 1; f->tag = i == 1 ? "stdout" : "stderr"; }
        p->fds[i] = f;
    }
    if (setup) setup(p);
    proc_init_stdio(p);
    struct A { Proc *p; };
    A *a = new A{p};
    ctx_create(p, [](void *x) -> void * {
        Proc *p = ((A *)x)->p; delete (A *)x;
        int n = (int)p->argv.size();
        char **av = (char **)calloc(n + 1, sizeof(char *));
        for (int i = 0; i < n; i++) av[i] = strdup(p->argv[i].c_str());
        int rc = p->mod->main(n, av, sim_environ);

        sim_exit(rc);
    }, a, true);
    // build environ
    char **e = (char **)calloc(env.size() + 1, sizeof(char *));
    for (size_t i = 0; i < env.size(); i++) e[i] = strdup(env[i].c_str());
    p->envp = e; p->environ_v = e; p->optind_ = 1; p->opterr_ = 1;
    note(fmt("spawn pid %d %s", p->pid, argv[0].c_str()));
    return p;
}

void Kernel::die(Proc *p, int status) {
    if (!p->alive) return;
    p->alive = false; p->status = status; p->t_exit = now;
    heap_leave(p);
    note(fmt("exit pid %d status %x", p->pid, status));
    hashmix(0xdead0000 + status); hashmix(p->pid);
    for (Ctx *c : p->ctxs) if (c->state != CTX_DEAD) c->state = CTX_DEAD;
    std::vector<int> l; for (auto &e : p->fds) l.push_back(e.first);
    std::vector<std::shared_ptr<File>> fl; for (auto &e : p->fds) fl.push_back(e.second);
    for (int fd : l) fd_close(p, fd);
    for (auto &f : fl) {            // a killed thread's stack is never unwound and may still refer to the file
        bool held = false;
        for (auto &e : procs) if (e.second->alive) for (auto &g : e.second->fds) if (g.second == f) held = true;
        if (!held) f->release();
    }
    auto act = p->actor; if (act) act->on_exit();
    ipmi_proc_exit(p->pid);
    p->pending.clear();
    for (auto &e : procs) {
        Proc *q = e.second;
        if (q->ppid == p->pid) { q->ppid = 1; if (q->zombie) q->zombie = false; }
    }
    Proc *pp = proc(p->ppid);
    if (pp && pp->alive) {
        SigAct a = pp->sig.count(SIGCHLD) ? pp->sig[SIGCHLD] : SigAct();
        if (a.handler != SIG_IGN) p->zombie = true;
        signal(pp, SIGCHLD);
    }
    if (on_proc_exit) on_proc_exit(p);
}
void proc_exit(Proc *p, int code) { K->die(p, (code & 0xff) << 8); }

// ------------------------------------------------------------- scheduler
static void reap_ctxs() {
    bool any = false;
    for (Ctx *c : K->ctxs) if (c->state == CTX_DEAD) { any = true; break; }
    if (!any) return;
    std::vector<Ctx *> keep;
    for (Ctx *c : K->ctxs) {
        if (c->state != CTX_DEAD) { keep.push_back(c); continue; }
        auto &v = c->proc->ctxs;
        v.erase(std::remove(v.begin(), v.end(), c), v.end());
        region_put(c->reg, c);
        delete c;
    }
    K->ctxs.swap(keep);
}
static bool ready(Ctx *c) {
    if (c->state == CTX_DEAD || c->proc->stopped) return false;
    if (c->state == CTX_RUN) return true;
    if (c->deadline <= K->now) return true;
    if (c->interruptible && sig_deliverable(c)) return true;
    return c->pred();
}

static bool slice_over = false;
void Kernel::run(Time until, const std::function<bool()> &done) {
    Kernel &k = *this;
    int last_id = -1;
    std::vector<Ctx *> rd;
    while (!k.stop) {
        if (done && done()) break;
        while (!k.evq.empty() && k.evq.begin()->t <= k.now) {
            auto it = k.evq.begin(); std::function<void()> fn = it->fn; k.hashmix(it->seq); k.evq.erase(it);
            k.nevents++; fn();
            if (k.stop) return;
        }
        reap_ctxs();
        rd.clear();
        for (Ctx *c : k.ctxs) if (ready(c)) rd.push_back(c);
        if (rd.empty()) {
            Time t = FOREVER;
            if (!k.evq.empty()) t = k.evq.begin()->t;
            for (Ctx *c : k.ctxs) if (c->state == CTX_BLOCK && !c->proc->stopped) t = std::min(t, c->deadline);
            if (t > until) { if (k.now < until && until < FOREVER) k.now = until; break; }
            if (t > k.now) k.now = t;
            continue;
        }
        if (k.now >= until) break;
        Ctx *c = nullptr;
        if (rd.size() == 1) c = rd[0];
        else {
            size_t dflt = 0;
            for (size_t i = 0; i < rd.size(); i++) if (rd[i]->id == last_id) dflt = slice_over ? (i + 1) % rd.size() : i;
            uint32_t v = CH.rare(k.kn.p_pick, (uint32_t)rd.size() - 1);
            c = rd[(dflt + v) % rd.size()];
            if (v) k.npreempt++;
        }
        // time slice in basic blocks
        if (rd.size() > 1 && k.kn.bb_slice > 0) {
            uint32_t v = CH.uniform(2 * k.kn.bb_slice);
            bb_quota = v ? v : 50000;
        } else bb_quota = 50000;
        bb_left = bb_quota;
        last_id = c->id; slice_over = false;
        k.hashmix(c->id);
        ctx_resume(c);
        if (k.nsys > k.step_limit) { set_fatal("step limit reached: the system makes system calls without end"); return; }
    }
}

static uint64_t bb_run = 0, bb_nsys = 0;
static void bb_slow() {
    int64_t used = bb_quota - bb_left;
    if (!K || !K->cur) { bb_left = INT64_MAX / 2; return; }
    Ctx *c = K->cur;
    c->proc->nbb += used; K->bb_total += used;
    K->now += used / 500;
    if (K->nsys == bb_nsys) { bb_run += used; if (bb_run > 100000000ULL) { set_fatal("endless loop without system calls"); kyield(); } }
    else { bb_nsys = K->nsys; bb_run = 0; }
    bb_quota = 50000; bb_left = bb_quota;
    if (c->sigdelay >= 0) {
        c->sigdelay = -1;
        if (sig_deliverable(c)) run_signals();
        return;
    }
    K->npreempt++; slice_over = true;
    kyield();
    c = K->cur;
    if (sig_deliverable(c)) run_signals();
}
void hold_mem(bool) {}

// A pending signal is handled now, or a few basic blocks later.
static void sig_point() {
    Ctx *c = K->cur;
    if (!sig_deliverable(c)) return;
    uint32_t v = CH.rare(K->kn.p_sigbb, 400);
    if (v) { c->sigdelay = v; bb_quota = v; bb_left = v; return; }
    run_signals();
}
void ksigpoint() { sig_point(); }

extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc() {
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    cov_map[(pc >> 2) & 0xffff] = 1;
    if (__builtin_expect(--bb_left <= 0, 0)) bb_slow();
}

extern "C" { int conmand_main(int, char **, char **); int conman_main(int, char **, char **);
extern char __start_conmand_data[], __stop_conmand_data[], __start_conmand_bss[], __stop_conmand_bss[];
extern char __start_conman_data[], __stop_conman_data[], __start_conman_bss[], __stop_conman_bss[]; }
Module MOD_CONMAND, MOD_CONMAN;
void kernel_init_modules() {
    MOD_CONMAND = Module{"conmand", conmand_main, __start_conmand_data, __stop_conmand_data, __start_conmand_bss, __stop_conmand_bss, ""};
    MOD_CONMAN = Module{"conman", conman_main, __start_conman_data, __stop_conman_data, __start_conman_bss, __stop_conman_bss, ""};
    for (Module *m : {&MOD_CONMAND, &MOD_CONMAN}) { size_t a = m->d1 - m->d0, b = m->b1 - m->b0; m->pristine.resize(a + b); rawcpy(&m->pristine[0], m->d0, a); rawcpy(&m->pristine[a], m->b0, b); }
}
