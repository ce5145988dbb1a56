/* mcsim - controlled scheduler + virtual kernel for model checking the real rbus code.
 * API visible to scenarios (compiled into every copy of libscn.so). */
#ifndef MCSIM_H
#define MCSIM_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef void* (*mc_fn)(void*);

/* ---- virtual processes ------------------------------------------------------------- */
int   mc_proc_new(const char* name);              /* allocate a fresh process (own copy of all globals) */
int   mc_spawn(int proc, mc_fn fn, void* arg);    /* start a thread of that process; fn is a function of libscn.so */
int   mc_spawn_pri(int proc, mc_fn fn, void* arg, int lowpri);
void* mc_join(int thread);                        /* wait for it */
int   mc_joined(int thread);                      /* nonzero once that thread has finished (no waiting) */
void* mc_call(int proc, mc_fn fn, void* arg);     /* spawn + join */
int   mc_joinable_within(int thread, int64_t ms); /* wait at most ms of virtual time; 1 if finished */
void  mc_kill(int proc);                          /* kill -9: threads vanish, descriptors are closed */
int   mc_alive(int proc);
int   mc_pid(int proc);
int   mc_self_proc(void);

/* ---- time and quiescence ------------------------------------------------------------ */
void    mc_settle(void);                          /* run everybody else until all are blocked, without passing time */
void    mc_sleep_ms(int64_t ms);
int64_t mc_now_us(void);

/* ---- choices ------------------------------------------------------------------------ */
int  mc_choose(int n, const char* what);          /* free nondeterministic input: fully enumerated */
int  mc_deviate(int n, const char* what);         /* costs one unit of the deviation bound when non zero */
void mc_window(int on);                           /* scheduling points branch only inside the window */
enum { MC_OPT_TIMEOUTS=1,      /* a waiting condvar timeout may fire early (deviation) */
       MC_OPT_SHORTREAD=2,     /* recv may return fewer bytes (deviation) */
       MC_OPT_LOCALPTS=4,      /* also branch at operations on objects touched by one thread only */
       MC_OPT_MUTEXPTS=8,      /* branch before mutex lock operations (default on) */
       MC_OPT_UNLOCKPTS=16,    /* branch after mutex unlocks too */
       MC_OPT_FILEPTS=32 };    /* branch at file operations */
void mc_opt(int opt, int on);
void mc_crashable(int proc, int on);              /* process may be killed at any point in the window (deviation) */
void mc_cuttable(int proc, int on);               /* every connection of the process may be cut at any point (deviation) */
int  mc_crashed(void);                            /* number of crash deviations taken so far in this execution */

/* ---- verdicts ----------------------------------------------------------------------- */
void mc_fail(const char* fmt, ...) __attribute__((format(printf,1,2),noreturn));
int mc_memo(uint64_t hash, int add);
void mc_outcome(const char* fmt, ...) __attribute__((format(printf,1,2)));
void mc_note(const char* fmt, ...) __attribute__((format(printf,1,2)));
void mc_count(int k, uint64_t n);                 /* user counters 0..7 */
void mc_hang_ok(int ok);                          /* if set: deadlock/step limit are not failures */
long mc_param(const char* name, long dflt);
int  mc_expect(int cond);

extern void* mc_shared;                           /* one pointer visible to every process copy */

/* ---- inspection --------------------------------------------------------------------- */
int  mc_nthreads(int proc);                       /* live threads of a process */
int  mc_open_fds(int proc);
void mc_dump(void);
const char* mc_scratch(void);                     /* real directory standing for / for the mapped paths */
int  mc_misuse(void);                             /* number of mutex misuses seen */
const char* mc_misuse_text(void);
/* raw virtual sockets for adversarial clients are simply socket()/connect()/... of the interposed set */
#ifdef __cplusplus
}
#endif
#endif
