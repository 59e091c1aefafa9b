#pragma once
#include "sim.h"
// internals shared by kernel.cc and sys.cc
enum Wake { WK_OK, WK_TIMEOUT, WK_SIG };
Wake kblock(std::function<bool()> pred, Time deadline, bool interruptible, const char *what);
void kyield();
void kswitch_out();                       // give control to the scheduler
Ctx *ctx_create(Proc *p, void *(*entry)(void *), void *arg, bool is_main);
int  kfork();
void heap_leave(Proc *p);
bool heap_shared(Proc *p, void *b);
[[noreturn]] void kexit(int status);      // current process ends
[[noreturn]] void kthread_exit();
bool run_signals();                       // true if a handler ran
bool sig_deliverable(Ctx *c);
extern bool last_handler_restart;
void set_fatal(const std::string &s);
extern int64_t bb_left;
void proc_init_stdio(Proc *p);
int fd_alloc(Proc *p, std::shared_ptr<File> f, int min = 0);
int fd_close(Proc *p, int fd);
std::shared_ptr<File> fd_get(Proc *p, int fd);
short file_poll(File *f);
extern "C" {
extern FILE *sim_stdin, *sim_stdout, *sim_stderr;
extern char **sim_environ; extern char *sim_optarg; extern int sim_optind, sim_opterr, sim_optopt;
}
void sock_closed_by_sut(Sock *s);
void hold_mem(bool);
extern uint8_t cov_map[1 << 16];
void sim_exit_flush();
extern "C" void sim_exit(int);
