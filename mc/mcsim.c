/* mcsim: a controlled scheduler and virtual kernel.
 *
 * Every thread of the code under test is a real thread, but exactly one runs at a time; control moves only at
 * intercepted operations.  Every nondeterministic decision goes through choose(), so an execution is a function of a
 * list of (choice index -> alternative).  explore() enumerates all lists within a deviation bound, one forked child per
 * execution. */
#define _GNU_SOURCE
#include "mcsim.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <signal.h>
#include <ftw.h>
#include <time.h>
#include <poll.h>
#include <sched.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/file.h>
#include <sys/uio.h>
#include <sys/prctl.h>
#include <netinet/in.h>
#include <linux/futex.h>

#define MAXPROC 14
#define MAXTHR 600
#define MAXPTS 60000
#define MAXDEV 72
#define VFD0 300
#define NVFD 400

/* ------------------------------------------------------------------------------------------------ shared results */
enum { ST_NONE, ST_OK, ST_FAIL, ST_DEADLOCK, ST_STEPS, ST_CRASH, ST_WALL, ST_DIVERGE, ST_CUT };
static const char* st_name[] = {"none","ok","fail","deadlock","livelock","crash","wall-timeout","diverged","cut"};
enum { K_SCHED, K_DATA, K_DEV };
typedef struct {
  int status, npts, last_forced; volatile uint64_t live; uint64_t steps; uint64_t outcome; int has_outcome; int crashes;
  char msg[1600]; char outtxt[400]; char note[512];
  uint64_t count[8];
  uint8_t alts[MAXPTS], kind[MAXPTS];
  char errtxt[6000];
} Result;

typedef struct { int n; int cost; struct { uint32_t idx; uint32_t alt; } d[MAXDEV]; } Dev;

/* ------------------------------------------------------------------------------------------------ simulator state */
enum Op { OP_RUN, OP_LOCK, OP_COND, OP_JOIN, OP_SEM, OP_SELECT, OP_RECV, OP_ACCEPT, OP_SLEEP, OP_SETTLE, OP_RDLOCK, OP_WRLOCK, OP_DEAD, OP_SPIN };
static const char* opn[] = {"run","lock","cond","join","sem","select","recv","accept","sleep","settle","rdlock","wrlock","dead","spin"};
typedef struct Sock Sock;
typedef struct Thr {
  int id, proc; int futex; pthread_t real;
  enum Op op; void* obj; int64_t deadline; /* us, -1 = none */
  int signaled; int timedout; int forced;  /* forced: time was advanced for it */
  fd_set *rs, *ws; int nfds; struct pollfd* pfds; int npfds; Sock* sock;
  void* (*fn)(void*); void* arg; void* ret;
  int finished, detached, dead, joined, lowpri, exiting, reusable;
  const char* where;
} Thr;
static Thr thr[MAXTHR]; static int nthr;
static __thread Thr* me;
typedef struct { int used, alive, pid; char name[32]; void* dl; char* base; int crashable, cuttable; } Proc;
static Proc proc[MAXPROC]; static int nproc; static int nslots;
static int64_t now_us; static const int64_t REAL0 = 1700000000LL*1000000;
static int optbits = MC_OPT_MUTEXPTS; static int window_on;
static int hang_ok; static uint64_t steps, max_steps = 400000, mark_steps; /* steps at the last sign of progress (a note or a count) */
static Result* R; static Dev curdev; static int devpos; static int verbose; static int ncrash;
static char scratch[128]; static int scratch_made; static int misuse; static char misuse_txt[256];
static char params[32][2][64]; static int nparams;
void* mc_shared;
static int64_t horizon_us = 3600LL*1000000;
static FILE* rawerr;

static int fut(int* a, int op, int v) { return (int)syscall(SYS_futex, a, op, v, NULL, NULL, 0); }
static void thr_wake(Thr* t) { __atomic_store_n(&t->futex, 1, __ATOMIC_SEQ_CST); fut(&t->futex, FUTEX_WAKE_PRIVATE, 1); }
static void thr_park(Thr* t) { while (!__atomic_load_n(&t->futex, __ATOMIC_SEQ_CST)) fut(&t->futex, FUTEX_WAIT_PRIVATE, 0); __atomic_store_n(&t->futex, 0, __ATOMIC_SEQ_CST); }

static void cleanup_scratch(void);
static void finish(int st) __attribute__((noreturn));
static void finish(int st) { R->status = st; R->steps = steps; R->crashes = ncrash; cleanup_scratch(); _exit(st == ST_OK ? 0 : 20 + st); }
static void vfail(int st, const char* fmt, va_list ap) { if (R->status == ST_NONE) vsnprintf(R->msg, sizeof R->msg, fmt, ap); }
void mc_fail(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(ST_FAIL, fmt, ap); va_end(ap);
  if (verbose) { fprintf(rawerr, "FAIL: %s\n", R->msg); fflush(rawerr); } finish(ST_FAIL); }
static void failst(int st, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(st, fmt, ap); va_end(ap);
  if (verbose) { fprintf(rawerr, "%s: %s\n", st_name[st], R->msg); mc_dump(); fflush(rawerr); } finish(st); }
static void trace(const char* fmt, ...) { if (!verbose) return; va_list ap; va_start(ap, fmt);
  fprintf(rawerr, "[%10.3fms p%-5d T%02d/%s] ", now_us/1000.0, R->npts, me ? me->id : -1, me ? proc[me->proc].name : "-"); vfprintf(rawerr, fmt, ap); fputc('\n', rawerr); va_end(ap); }
void mc_note(const char* fmt, ...) { if (R) { R->live++; mark_steps = steps; va_list aq; va_start(aq, fmt); vsnprintf(R->note, sizeof R->note, fmt, aq); va_end(aq); } if (!verbose) return; va_list ap; va_start(ap, fmt); fprintf(rawerr, "[%10.3fms p%-5d T%02d/%s] NOTE ", now_us/1000.0, R->npts, me?me->id:-1, me?proc[me->proc].name:"-"); vfprintf(rawerr, fmt, ap); fputc('\n', rawerr); va_end(ap); fflush(rawerr); }
void mc_outcome(const char* fmt, ...) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  uint64_t h = R->has_outcome ? R->outcome : 1469598103934665603ULL; for (char* p = b; *p; p++) { h ^= (unsigned char)*p; h *= 1099511628211ULL; }
  if (!R->has_outcome) snprintf(R->outtxt, sizeof R->outtxt, "%s", b); R->outcome = h; R->has_outcome = 1; }
void mc_count(int k, uint64_t n) { R->count[k & 7] += n; R->live++; mark_steps = steps; }
void mc_hang_ok(int ok) { hang_ok = ok; }
long mc_param(const char* n, long d) { for (int i = 0; i < nparams; i++) if (!strcmp(params[i][0], n)) return atol(params[i][1]); return d; }
void mc_window(int on) { window_on = on; }
void mc_opt(int o, int on) { if (on) optbits |= o; else optbits &= ~o; }
void mc_crashable(int p, int on) { proc[p].crashable = on; }
void mc_cuttable(int p, int on) { proc[p].cuttable = on; }
int mc_crashed(void) { return ncrash; }
int mc_misuse(void) { return misuse; }
const char* mc_misuse_text(void) { return misuse_txt; }
static void note_misuse(const char* what) { misuse++; if (!misuse_txt[0]) snprintf(misuse_txt, sizeof misuse_txt, "%s by T%d of %s", what, me->id, proc[me->proc].name); trace("MISUSE %s", what); }

static int choose(int n, int kind) {
  if (n <= 1) return 0;
  if (kind == K_SCHED && !window_on) return 0;
  int idx = R->npts; int alt = 0;
  if (idx >= MAXPTS) failst(ST_STEPS, "more than %d choice points", MAXPTS);
  if (n > 255) failst(ST_DIVERGE, "choice with %d alternatives", n);
  R->alts[idx] = (uint8_t)n; R->kind[idx] = (uint8_t)kind; R->npts++;
  if (devpos < curdev.n && curdev.d[devpos].idx == (uint32_t)idx) {
    alt = (int)curdev.d[devpos].alt; devpos++;
    if (alt >= n) failst(ST_DIVERGE, "replay diverged at choice %d: alternative %d of %d", idx, alt, n);
  }
  return alt;
}
int mc_choose(int n, const char* what) { int a = choose(n, K_DATA); trace("choose %s -> %d/%d", what, a, n); return a; }
int mc_deviate(int n, const char* what) { int a = choose(n, K_DEV); if (a) trace("deviate %s -> %d/%d", what, a, n); return a; }

/* ------------------------------------------------------------------------------------------------ virtual sockets */
typedef struct { unsigned char* d; size_t len, cap, off; } Buf;
struct Sock { int refs; int type; /*0 fresh,1 listening,2 stream,3 dead*/ char key[128]; Sock* peer; Buf in; int rd_shut, wr_shut, peer_closed; int owner; int connected_to_live;
  Sock* backlog[64]; int nback; int nonblock; uint32_t uid; struct sockaddr_storage addr; socklen_t addrlen; };
static Sock* vfd[NVFD]; static int vfd_owner[NVFD];
static uint32_t sock_uid;
static void buf_put(Buf* b, const void* p, size_t n) {
  if (!n) return;
  if (b->off + b->len + n > b->cap) { if (b->off) { memmove(b->d, b->d + b->off, b->len); b->off = 0; }
    if (b->len + n > b->cap) { b->cap = (b->len + n) * 2; b->d = realloc(b->d, b->cap); } }
  memcpy(b->d + b->off + b->len, p, n); b->len += n; }
static size_t buf_get(Buf* b, void* p, size_t n) { if (n > b->len) n = b->len; memcpy(p, b->d + b->off, n); b->off += n; b->len -= n; return n; }
static Sock* sk(int fd) { if (fd < VFD0 || fd >= VFD0 + NVFD) return NULL; return vfd[fd - VFD0]; }
static int isv(int fd) { return fd >= VFD0 && fd < VFD0 + NVFD; }
static int vfd_new(Sock* s) { for (int i = 0; i < NVFD; i++) if (!vfd[i]) { vfd[i] = s; vfd_owner[i] = me->proc; return VFD0 + i; } return -1; }
static void key_of(const struct sockaddr* a, char* out) {
  if (a->sa_family == AF_UNIX) snprintf(out, 128, "unix:%s", ((const struct sockaddr_un*)a)->sun_path);
  else if (a->sa_family == AF_INET) { const struct sockaddr_in* i = (const void*)a; snprintf(out, 128, "inet:%u", ntohs(i->sin_port)); }
  else if (a->sa_family == AF_INET6) { const struct sockaddr_in6* i = (const void*)a; snprintf(out, 128, "inet:%u", ntohs(i->sin6_port)); }
  else snprintf(out, 128, "af%d", a->sa_family); }
static Sock* find_listener(const char* key) { for (int i = 0; i < NVFD; i++) if (vfd[i] && vfd[i]->type == 1 && !strcmp(vfd[i]->key, key)) return vfd[i]; return NULL; }
static int rd_ready(Sock* s) { if (!s) return 1; if (s->type == 1) return s->nback > 0; if (s->type == 2) return s->in.len > 0 || s->rd_shut || s->peer_closed; return 1; }

static void peer_gone(Sock* s) { if (s->peer) { s->peer->peer_closed = 1; s->peer->peer = NULL; s->peer = NULL; } }
static void sock_close(Sock* s) {
  if (s->type == 1) for (int i = 0; i < s->nback; i++) { peer_gone(s->backlog[i]); }
  if (s->type == 2) peer_gone(s);
  s->type = 3; s->rd_shut = 1; }

/* ------------------------------------------------------------------------------------------------ scheduler */
typedef struct { int lock; unsigned owner; int count; int kind; } MX; /* overlay on pthread_mutex_t storage */
static MX* mxp(pthread_mutex_t* m) { return (MX*)m; } /* unused layout helper */
#define M_LOCK(m)  ((m)->__data.__lock)
#define M_OWNER(m) ((m)->__data.__owner)
#define M_COUNT(m) ((m)->__data.__count)
#define M_KIND(m)  ((m)->__data.__kind & 3)

static int sel_ready(Thr* t) {
  if (t->pfds) { for (int i = 0; i < t->npfds; i++) { if (t->pfds[i].fd < 0) continue; Sock* s = sk(t->pfds[i].fd); if ((t->pfds[i].events & POLLIN) && rd_ready(s)) return 1; if (t->pfds[i].events & POLLOUT) return 1; } return 0; }
  for (int fd = VFD0; fd < t->nfds && fd < VFD0 + NVFD; fd++) {
    if (t->rs && FD_ISSET(fd, t->rs) && rd_ready(sk(fd))) return 1;
    if (t->ws && FD_ISSET(fd, t->ws)) return 1; }
  return 0; }
static int timed_ok(Thr* t) { return t->deadline >= 0 && now_us >= t->deadline; }
static int enabled(Thr* t) {
  if (t->finished || t->dead) return 0;
  switch (t->op) {
    case OP_RUN: return 1;
    case OP_LOCK: return M_LOCK((pthread_mutex_t*)t->obj) == 0 || timed_ok(t);
    case OP_COND: return t->signaled || timed_ok(t);
    case OP_JOIN: return ((Thr*)t->obj)->finished || timed_ok(t);
    case OP_SEM: return *(int*)t->obj > 0 || timed_ok(t);
    case OP_SELECT: return sel_ready(t) || timed_ok(t);
    case OP_RECV: return rd_ready(t->sock);
    case OP_ACCEPT: return t->sock->nback > 0 || t->sock->type != 1;
    case OP_SLEEP: return timed_ok(t);
    case OP_RDLOCK: return *(int*)t->obj >= 0;
    case OP_WRLOCK: return *(int*)t->obj == 0;
    case OP_SPIN: return *(int*)t->obj == 0;
    case OP_SETTLE: return 0; /* handled specially */
    case OP_DEAD: return 0;
  }
  return 0; }

/* objects touched by more than one thread in this execution: remembered across points by address hash */
#define OBJN 65536
static struct { void* o; int t; int multi; } objtab[OBJN];
static int obj_shared(void* o) {
  if (!o) return 1;
  unsigned h = (unsigned)(((uintptr_t)o >> 3) * 2654435761u) % OBJN;
  for (int i = 0; i < 64; i++, h = (h + 1) % OBJN) {
    if (objtab[h].o == o) { if (objtab[h].t < 0) objtab[h].t = me->id; if (objtab[h].t != me->id) objtab[h].multi = 1; return objtab[h].multi; }
    if (!objtab[h].o) { objtab[h].o = o; objtab[h].t = me->id; return 0; } }
  return 1; }
/* a new object at an address used before: whether it is shared must not depend on what was there (addresses vary between runs) */
static void obj_new(void* o) {
  unsigned h = (unsigned)(((uintptr_t)o >> 3) * 2654435761u) % OBJN;
  for (int i = 0; i < 64 && objtab[h].o; i++, h = (h + 1) % OBJN) if (objtab[h].o == o) { objtab[h].t = -1; objtab[h].multi = 0; return; } }

void mc_dump(void) {
  for (int i = 0; i < nthr; i++) { Thr* t = &thr[i]; if (t->finished || t->dead) continue;
    fprintf(rawerr ? rawerr : stderr, "  T%02d proc=%s op=%s obj=%p owner=%d deadline=%lld where=%s\n", t->id, proc[t->proc].name, opn[t->op], t->obj,
      t->op == OP_LOCK && t->obj ? (int)M_OWNER((pthread_mutex_t*)t->obj) - 1 : -1, (long long)t->deadline, t->where ? t->where : ""); } }

static void describe_block(char* out, size_t n) {
  size_t o = 0; out[0] = 0;
  for (int i = 0; i < nthr && o + 80 < n; i++) { Thr* t = &thr[i]; if (t->finished || t->dead) continue;
    o += (size_t)snprintf(out + o, n - o, " T%d(%s):%s", t->id, proc[t->proc].name, opn[t->op]);
    if (t->op == OP_LOCK) o += (size_t)snprintf(out + o, n - o, "<-T%d", (int)M_OWNER((pthread_mutex_t*)t->obj) - 1); } }

static void kill_proc(int p);
static void cut_conn(int fdi);

/* the calling thread has set op/obj/deadline; returns when it may proceed */
static void sched(int branch) {
  Thr* self = me;
  for (;;) {
    R->live++;
    if (++steps > max_steps || steps - mark_steps > 5000000) failst(ST_STEPS, "no completion within the limit of scheduling steps");
    now_us += 1;
    Thr* list[MAXTHR]; int n = 0;
    if (enabled(self)) list[n++] = self;
    for (int k = 1; k <= nthr; k++) { Thr* t = &thr[(self->id + k) % nthr]; if (t != self && !t->lowpri && enabled(t)) list[n++] = t; }
    if (n == 0) for (int k = 0; k < nthr; k++) { Thr* t = &thr[k]; if (t->lowpri && enabled(t)) list[n++] = t; }
    if (n == 0) { for (int k = 0; k < nthr; k++) { Thr* t = &thr[k]; if (!t->finished && !t->dead && t->op == OP_SETTLE) { list[n++] = t; break; } } }
    if (n == 0) {
      int64_t best = -1; for (int k = 0; k < nthr; k++) { Thr* t = &thr[k]; if (t->finished || t->dead || t->deadline < 0) continue; if (best < 0 || t->deadline < best) best = t->deadline; }
      if (best >= 0 && best <= horizon_us) { if (best > now_us) now_us = best; continue; }
      char d[1200]; describe_block(d, sizeof d);
      failst(ST_DEADLOCK, "%s:%s", best >= 0 ? "virtual time horizon reached" : "no thread can run (deadlock)", d);
    }
    /* alternatives beyond picking another enabled thread */
    int alts = n, nt = 0, nc = 0, ncut = 0; Thr* tl[16]; int cl[MAXPROC]; int cut[64];
    if (window_on && branch) {
      if (optbits & MC_OPT_TIMEOUTS) for (int k = 0; k < nthr && nt < 16; k++) { Thr* t = &thr[k]; if (!t->finished && !t->dead && t->op == OP_COND && t->deadline >= 0 && !enabled(t)) tl[nt++] = t; }
      if (!ncrash && proc[self->proc].crashable && proc[self->proc].alive) cl[nc++] = self->proc;
      if (!ncrash && proc[self->proc].cuttable) for (int i = 0; i < NVFD && ncut < 8; i++) if (vfd[i] && vfd_owner[i] == self->proc && vfd[i]->type == 2 && vfd[i]->peer) cut[ncut++] = i;
      alts = n + nt + nc + ncut;
    }
    int c = branch ? choose(alts, K_SCHED) : 0;
    Thr* next;
    if (c < n) next = list[c];
    else if (c < n + nt) { next = tl[c - n]; if (next->deadline > now_us) now_us = next->deadline; trace("deviation: timeout of T%d fires", next->id); }
    else if (c < n + nt + nc) { int p = cl[c - n - nt]; ncrash++; trace("deviation: crash of process %s", proc[p].name); kill_proc(p); continue; }
    else { int i = cut[c - n - nt - nc]; ncrash++; trace("deviation: connection fd %d cut", i + VFD0); cut_conn(i); continue; }
    if (c) trace("deviation: switch T%d -> T%d (%s)", self->id, next->id, proc[next->proc].name);
    if (next == self) return;
    int ex = self->exiting;
    thr_wake(next);
    if (ex) return;
    thr_park(self);
    /* whoever woke us chose us while enabled; nothing ran in between */
    return;
  }
}
static void yieldpt(void* obj, const char* where) {
  me->op = OP_RUN; me->obj = obj; me->deadline = -1; me->where = where;
  int b = 1; if (!(optbits & MC_OPT_LOCALPTS) && !obj_shared(obj)) b = 0;
  if (!b && !window_on) return;
  if (!window_on) return;          /* an always-enabled op outside the window never branches: no need to enter */
  sched(b); }
static void blockpt(enum Op op, void* obj, int64_t deadline, const char* where) {
  me->op = op; me->obj = obj; me->deadline = deadline; me->where = where;
  int b = 1; if (op == OP_LOCK) { if (!(optbits & MC_OPT_MUTEXPTS)) b = 0; else if (!(optbits & MC_OPT_LOCALPTS) && !obj_shared(obj)) b = 0; }
  if (!(window_on && b) && enabled(me)) return;
  sched(b); me->op = OP_RUN; }
static void die(void) __attribute__((noreturn));
static void die(void) { for (;;) { me->op = OP_DEAD; me->obj = NULL; me->deadline = -1; sched(0); } }

/* ------------------------------------------------------------------------------------------------ processes */
static void cut_conn(int i) { Sock* s = vfd[i]; Sock* p = s->peer; s->peer_closed = 1; s->peer = NULL; if (p) { p->peer_closed = 1; p->peer = NULL; } }
static void kill_proc(int p) {
  proc[p].alive = 0;
  for (int i = 0; i < nthr; i++) if (thr[i].proc == p && !thr[i].finished) { thr[i].dead = 1; thr[i].finished = 1; thr[i].ret = NULL; }
  for (int i = 0; i < NVFD; i++) if (vfd[i] && vfd_owner[i] == p) { sock_close(vfd[i]); vfd[i] = NULL; } }
int mc_proc_new(const char* name) {
  if (nproc >= nslots) mc_fail("harness: out of process slots");
  Proc* p = &proc[nproc]; p->used = 1; p->alive = 1; p->pid = 5000 + nproc * 7; snprintf(p->name, sizeof p->name, "%s", name);
  return nproc++; }
void mc_kill(int p) { trace("kill process %s", proc[p].name); kill_proc(p); if (me->proc == p) die(); }
int mc_alive(int p) { return proc[p].alive; }
int mc_pid(int p) { return proc[p].pid; }
int mc_self_proc(void) { return me->proc; }
int mc_nthreads(int p) { int n = 0; for (int i = 0; i < nthr; i++) if (thr[i].proc == p && !thr[i].finished && !thr[i].dead) n++; return n; }
int mc_open_fds(int p) { int n = 0; for (int i = 0; i < NVFD; i++) if (vfd[i] && vfd_owner[i] == p) n++; return n; }

static void* thr_main(void* v) {
  Thr* t = v; me = t; thr_park(t);
  t->ret = t->fn(t->arg);
  trace("thread ends");
  t->finished = 1; t->exiting = 1; me->op = OP_DEAD; me->obj = NULL; me->deadline = -1; sched(0); return NULL; }
static Thr* thr_new(int p, void* (*fn)(void*), void* arg) {
  int slot = -1;
  if (nthr < MAXTHR - 100) slot = nthr++;
  else { for (int i = 1; i < nthr; i++) if (thr[i].finished && thr[i].exiting && (thr[i].reusable || thr[i].joined || thr[i].detached)) { slot = i; break; } if (slot < 0 && nthr < MAXTHR) slot = nthr++; }
  if (slot < 0) failst(ST_STEPS, "too many threads");
  Thr* t = &thr[slot]; memset(t, 0, sizeof *t); t->id = slot; t->proc = p; t->fn = fn; t->arg = arg; t->op = OP_RUN; t->deadline = -1;
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED); pthread_attr_setstacksize(&a, 512 * 1024);
  if (pthread_create(&t->real, &a, thr_main, t)) failst(ST_STEPS, "real pthread_create failed");
  pthread_attr_destroy(&a);
  return t; }
static void* xlate(int p, void* f) { /* a function of any libscn copy -> same function in p's copy */
  for (int i = 0; i < nslots; i++) { Dl_info di; if (dladdr(f, &di) && di.dli_fbase == proc[i].base) return proc[p].base + ((char*)f - (char*)di.dli_fbase); }
  failst(ST_FAIL, "harness: function not in libscn"); return NULL; }
int mc_spawn(int p, mc_fn fn, void* arg) { Thr* t = thr_new(p, (void*(*)(void*))xlate(p, (void*)fn), arg); trace("spawn T%d in %s", t->id, proc[p].name); yieldpt(NULL, "spawn"); return t->id; }
int mc_spawn_pri(int p, mc_fn fn, void* arg, int low) { Thr* t = thr_new(p, (void*(*)(void*))xlate(p, (void*)fn), arg); t->lowpri = low; yieldpt(NULL, "spawn"); return t->id; }
void* mc_join(int id) { blockpt(OP_JOIN, &thr[id], -1, "mc_join"); void* r = thr[id].ret; thr[id].reusable = 1; return r; }
int mc_joined(int id) { return thr[id].finished; }
int mc_joinable_within(int id, int64_t ms) { blockpt(OP_JOIN, &thr[id], now_us + ms * 1000, "mc_join"); int f = thr[id].finished; if (f) thr[id].reusable = 1; return f; }
void* mc_call(int p, mc_fn fn, void* arg) { int t = mc_spawn(p, fn, arg); return mc_join(t); }
void mc_settle(void) { blockpt(OP_SETTLE, NULL, -1, "settle"); }
void mc_sleep_ms(int64_t ms) { blockpt(OP_SLEEP, NULL, now_us + ms * 1000, "mc_sleep"); }
int64_t mc_now_us(void) { return now_us; }

/* ------------------------------------------------------------------------------------------------ pthread */
#define EXPORT __attribute__((visibility("default")))
EXPORT int mcs_pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  Thr* t = thr_new(me->proc, fn, arg); *out = (pthread_t)(uintptr_t)(t->id + 1);
  int ds = 0; if (a) { pthread_attr_getdetachstate(a, &ds); t->detached = ds == PTHREAD_CREATE_DETACHED; }
  trace("pthread_create T%d", t->id); yieldpt(NULL, "pthread_create"); return 0; }
static Thr* byh(pthread_t h) { uintptr_t i = (uintptr_t)h; if (i < 1 || i > (uintptr_t)nthr) return NULL; return &thr[i - 1]; }
EXPORT int mcs_pthread_join(pthread_t h, void** ret) { Thr* t = byh(h); if (!t || t->joined || t->detached) { note_misuse("pthread_join of an invalid/joined/detached thread"); return ESRCH; } if (t == me) return EDEADLK;
  trace("join T%d", t->id); blockpt(OP_JOIN, t, -1, "pthread_join"); t->joined = 1; if (ret) *ret = t->ret; return 0; }
EXPORT int mcs_pthread_detach(pthread_t h) { Thr* t = byh(h); if (!t) return ESRCH; t->detached = 1; return 0; }
EXPORT int mcs_pthread_cancel(pthread_t h) { Thr* t = byh(h); if (!t || t->finished) return ESRCH; trace("cancel T%d", t->id); t->finished = 1; t->dead = 1; t->ret = PTHREAD_CANCELED; if (t == me) die(); return 0; }
EXPORT void mcs_pthread_exit(void* r) { me->ret = r; me->finished = 1; die(); }
EXPORT pthread_t mcs_pthread_self(void) { return (pthread_t)(uintptr_t)(me->id + 1); }
EXPORT int mcs_pthread_kill(pthread_t h, int s) { Thr* t = byh(h); (void)s; return t && !t->finished ? 0 : ESRCH; }
EXPORT int mcs_pthread_setname_np(pthread_t h, const char* n) { (void)h; (void)n; return 0; }

EXPORT int mcs_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { obj_new(m); memset(m, 0, sizeof *m); int ty = 0; if (a) pthread_mutexattr_gettype(a, &ty); m->__data.__kind = ty; return 0; }
EXPORT int mcs_pthread_mutex_destroy(pthread_mutex_t* m) { if (M_LOCK(m)) { return EBUSY; } return 0; }
static int mx_lock(pthread_mutex_t* m, int64_t dl, int try_) {
  unsigned self = (unsigned)me->id + 1;
  if (M_LOCK(m) && M_OWNER(m) == (int)self) {
    if (M_KIND(m) == PTHREAD_MUTEX_RECURSIVE) { M_COUNT(m)++; return 0; }
    if (try_) return EBUSY;
    if (M_KIND(m) == PTHREAD_MUTEX_ERRORCHECK) { note_misuse("relock of an error-checking mutex"); return EDEADLK; }
    /* NORMAL: self deadlock, fall through and block forever */ }
  if (try_) { yieldpt(m, "trylock"); if (M_LOCK(m)) return EBUSY; }
  else { blockpt(OP_LOCK, m, dl, "lock"); if (M_LOCK(m)) return ETIMEDOUT; }
  M_LOCK(m) = 1; M_OWNER(m) = (int)self; M_COUNT(m) = 1; return 0; }
EXPORT int mcs_pthread_mutex_lock(pthread_mutex_t* m) { return mx_lock(m, -1, 0); }
EXPORT int mcs_pthread_mutex_trylock(pthread_mutex_t* m) { return mx_lock(m, -1, 1); }
static int64_t abs_to_us(int clk, const struct timespec* ts) { int64_t us = (int64_t)ts->tv_sec * 1000000 + (ts->tv_nsec + 999) / 1000; return clk == CLOCK_REALTIME ? us - REAL0 : us; }
EXPORT int mcs_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return mx_lock(m, abs_to_us(CLOCK_REALTIME, ts), 0); }
EXPORT int mcs_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!M_LOCK(m)) { note_misuse("unlock of an unlocked mutex"); return M_KIND(m) == PTHREAD_MUTEX_NORMAL ? 0 : EPERM; }
  if (M_OWNER(m) != me->id + 1) { note_misuse("unlock of a mutex owned by another thread"); if (M_KIND(m) != PTHREAD_MUTEX_NORMAL) return EPERM; }
  if (--M_COUNT(m) > 0 && M_KIND(m) == PTHREAD_MUTEX_RECURSIVE) return 0;
  M_LOCK(m) = 0; M_OWNER(m) = 0; M_COUNT(m) = 0;
  if (optbits & MC_OPT_UNLOCKPTS) yieldpt(m, "unlock");
  return 0; }
typedef struct { int clk; } CV;
EXPORT int mcs_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { obj_new(c); memset(c, 0, sizeof *c); clockid_t k = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &k); ((CV*)c)->clk = k; return 0; }
EXPORT int mcs_pthread_cond_destroy(pthread_cond_t* c) { (void)c; return 0; }
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, int64_t dl) {
  if (!M_LOCK(m) || M_OWNER(m) != me->id + 1) note_misuse("cond wait without owning the mutex");
  unsigned cnt = M_COUNT(m); M_LOCK(m) = 0; M_OWNER(m) = 0; M_COUNT(m) = 0;
  me->signaled = 0; 
  me->op = OP_COND; me->obj = c; me->deadline = dl; me->where = "cond"; sched(1);
  int to = !me->signaled; me->signaled = 0; me->op = OP_RUN; me->obj = NULL; me->deadline = -1;
  if (M_LOCK(m)) blockpt(OP_LOCK, m, -1, "cond-relock");
  M_LOCK(m) = 1; M_OWNER(m) = me->id + 1; M_COUNT(m) = cnt ? cnt : 1;
  return to ? ETIMEDOUT : 0; }
EXPORT int mcs_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, -1); }
EXPORT int mcs_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) { note_misuse("cond_timedwait with an invalid timespec"); return EINVAL; } return cwait(c, m, abs_to_us(((CV*)c)->clk, ts)); }
EXPORT int mcs_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { return cwait(c, m, abs_to_us(k, ts)); }
EXPORT int mcs_pthread_cond_signal(pthread_cond_t* c) {
  yieldpt(c, "signal");
  Thr* w[MAXTHR]; int n = 0; for (int i = 0; i < nthr; i++) if (!thr[i].finished && !thr[i].dead && thr[i].op == OP_COND && thr[i].obj == c && !thr[i].signaled) w[n++] = &thr[i];
  if (n) { int k = choose(n, K_SCHED); w[k]->signaled = 1; } return 0; }
EXPORT int mcs_pthread_cond_broadcast(pthread_cond_t* c) { yieldpt(c, "broadcast"); for (int i = 0; i < nthr; i++) if (!thr[i].finished && !thr[i].dead && thr[i].op == OP_COND && thr[i].obj == c) thr[i].signaled = 1; return 0; }
/* rwlocks: first int = readers (>0) / -1 writer */
EXPORT int mcs_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t* a) { obj_new(l); (void)a; memset(l, 0, sizeof *l); return 0; }
EXPORT int mcs_pthread_rwlock_destroy(pthread_rwlock_t* l) { (void)l; return 0; }
EXPORT int mcs_pthread_rwlock_rdlock(pthread_rwlock_t* l) { blockpt(OP_RDLOCK, l, -1, "rdlock"); ++*(int*)l; return 0; }
EXPORT int mcs_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { yieldpt(l, "tryrdlock"); if (*(int*)l < 0) return EBUSY; ++*(int*)l; return 0; }
EXPORT int mcs_pthread_rwlock_wrlock(pthread_rwlock_t* l) { blockpt(OP_WRLOCK, l, -1, "wrlock"); *(int*)l = -1; return 0; }
EXPORT int mcs_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { yieldpt(l, "trywrlock"); if (*(int*)l) return EBUSY; *(int*)l = -1; return 0; }
EXPORT int mcs_pthread_rwlock_unlock(pthread_rwlock_t* l) { if (*(int*)l < 0) *(int*)l = 0; else if (*(int*)l > 0) --*(int*)l; return 0; }
EXPORT int mcs_pthread_spin_init(pthread_spinlock_t* l, int s) { obj_new(l); (void)s; *(int*)l = 0; return 0; }
EXPORT int mcs_pthread_spin_destroy(pthread_spinlock_t* l) { (void)l; return 0; }
EXPORT int mcs_pthread_spin_lock(pthread_spinlock_t* l) { blockpt(OP_SPIN, (void*)l, -1, "spin"); *(int*)l = 1; return 0; }
EXPORT int mcs_pthread_spin_trylock(pthread_spinlock_t* l) { yieldpt((void*)l, "spin"); if (*(int*)l) return EBUSY; *(int*)l = 1; return 0; }
EXPORT int mcs_pthread_spin_unlock(pthread_spinlock_t* l) { *(int*)l = 0; return 0; }
EXPORT int mcs_sem_init(sem_t* s, int p, unsigned v) { obj_new(s); (void)p; memset(s, 0, sizeof *s); *(int*)s = (int)v; return 0; }
EXPORT int mcs_sem_destroy(sem_t* s) { (void)s; return 0; }
EXPORT int mcs_sem_wait(sem_t* s) { blockpt(OP_SEM, s, -1, "sem"); --*(int*)s; return 0; }
EXPORT int mcs_sem_trywait(sem_t* s) { yieldpt(s, "sem"); if (*(int*)s <= 0) { errno = EAGAIN; return -1; } --*(int*)s; return 0; }
EXPORT int mcs_sem_timedwait(sem_t* s, const struct timespec* ts) { blockpt(OP_SEM, s, abs_to_us(CLOCK_REALTIME, ts), "sem"); if (*(int*)s <= 0) { errno = ETIMEDOUT; return -1; } --*(int*)s; return 0; }
EXPORT int mcs_sem_post(sem_t* s) { ++*(int*)s; yieldpt(s, "sem_post"); return 0; }

/* ------------------------------------------------------------------------------------------------ time */
EXPORT int mcs_usleep(useconds_t);
EXPORT int mcs_pthread_once(pthread_once_t* c, void (*fn)(void)) { yieldpt(c, "once"); if (*(int*)c == 0) { *(int*)c = 1; fn(); *(int*)c = 2; } else while (*(int*)c == 1) mcs_usleep(1); return 0; }
EXPORT int mcs_sched_yield(void) { yieldpt(NULL, "yield"); return 0; }
EXPORT int mcs_usleep(useconds_t us) { blockpt(OP_SLEEP, NULL, now_us + us, "usleep"); return 0; }
EXPORT unsigned mcs_sleep(unsigned s) { blockpt(OP_SLEEP, NULL, now_us + (int64_t)s * 1000000, "sleep"); return 0; }
EXPORT int mcs_nanosleep(const struct timespec* a, struct timespec* b) { (void)b; blockpt(OP_SLEEP, NULL, now_us + (int64_t)a->tv_sec * 1000000 + a->tv_nsec / 1000, "nanosleep"); return 0; }
EXPORT int mcs_clock_nanosleep(clockid_t k, int fl, const struct timespec* a, struct timespec* b) { (void)b; blockpt(OP_SLEEP, NULL, fl & TIMER_ABSTIME ? abs_to_us(k, a) : now_us + (int64_t)a->tv_sec * 1000000 + a->tv_nsec / 1000, "clock_nanosleep"); return 0; }
EXPORT int mcs_clock_gettime(clockid_t k, struct timespec* ts) { now_us += 1; int64_t v = now_us + ((k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE) ? REAL0 : 0); ts->tv_sec = v / 1000000; ts->tv_nsec = (v % 1000000) * 1000; return 0; }
EXPORT int mcs_gettimeofday(struct timeval* tv, void* z) { (void)z; now_us += 1; int64_t v = now_us + REAL0; tv->tv_sec = v / 1000000; tv->tv_usec = v % 1000000; return 0; }
EXPORT time_t mcs_time(time_t* t) { now_us += 1; time_t v = (now_us + REAL0) / 1000000; if (t) *t = v; return v; }

/* ------------------------------------------------------------------------------------------------ sockets */
EXPORT int mcs_socket(int d, int t, int p) { (void)d; (void)t; (void)p; Sock* s = calloc(1, sizeof *s); s->owner = me->proc; s->uid = ++sock_uid; int fd = vfd_new(s); if (fd < 0) { errno = EMFILE; return -1; } trace("socket -> %d", fd); return fd; }
EXPORT int mcs_bind(int fd, const struct sockaddr* a, socklen_t l) { Sock* s = sk(fd); if (!s) { errno = EBADF; return -1; } char k[128]; key_of(a, k); if (find_listener(k)) { errno = EADDRINUSE; return -1; } snprintf(s->key, sizeof s->key, "%s", k); memcpy(&s->addr, a, l < sizeof s->addr ? l : sizeof s->addr); s->addrlen = l; return 0; }
EXPORT int mcs_listen(int fd, int b) { (void)b; Sock* s = sk(fd); if (!s) { errno = EBADF; return -1; } s->type = 1; trace("listen %s", s->key); yieldpt(NULL, "listen"); return 0; }
EXPORT int mcs_connect(int fd, const struct sockaddr* a, socklen_t l) { (void)l; yieldpt(NULL, "connect"); Sock* s = sk(fd); if (!s) { errno = EBADF; return -1; } char k[128]; key_of(a, k); Sock* L = find_listener(k);
  if (!L || L->nback >= 64) { trace("connect %s refused", k); errno = ECONNREFUSED; return -1; }
  Sock* p = calloc(1, sizeof *p); p->uid = ++sock_uid; p->type = 2; s->type = 2; p->peer = s; s->peer = p; L->backlog[L->nback++] = p; memcpy(&s->addr, a, l < sizeof s->addr ? l : sizeof s->addr);
  trace("connect %d -> %s", fd, k); return 0; }
EXPORT int mcs_accept(int fd, struct sockaddr* a, socklen_t* l) { Sock* s = sk(fd); if (!s) { errno = EBADF; return -1; } if (s->type != 1) { errno = EINVAL; return -1; }
  me->sock = s; blockpt(OP_ACCEPT, s, -1, "accept"); if (s->type != 1) { errno = EINVAL; return -1; }
  Sock* c = s->backlog[0]; memmove(s->backlog, s->backlog + 1, sizeof(Sock*) * (size_t)(--s->nback));
  int nfd = vfd_new(c); if (a && l && *l >= sizeof(sa_family_t)) { memset(a, 0, sizeof(sa_family_t)); a->sa_family = AF_UNIX; *l = sizeof(sa_family_t); } trace("accept -> %d", nfd); return nfd; }
EXPORT int mcs_accept4(int fd, struct sockaddr* a, socklen_t* l, int f) { (void)f; return mcs_accept(fd, a, l); }
__attribute__((weak)) void* __asan_region_is_poisoned(void*, size_t);
static void chk(const void* p, size_t n, const char* what) { if (n && __asan_region_is_poisoned) { void* b = __asan_region_is_poisoned((void*)p, n); if (b) failst(ST_CRASH, "memory error: %s of %zu bytes touches invalid memory at offset %ld", what, n, (long)((char*)b - (char*)p)); } }
static ssize_t do_recv(int fd, void* b, size_t n, int fl) {
  Sock* s = sk(fd); if (!s) { errno = EBADF; return -1; } if (s->type != 2) { errno = s->type == 1 ? ENOTCONN : ENOTCONN; return -1; }
  if (n == 0 && s->in.len) return 0;
  if ((fl & MSG_DONTWAIT || s->nonblock) && !rd_ready(s)) { errno = EAGAIN; return -1; }
  me->sock = s; blockpt(OP_RECV, s, -1, "recv");
  if (s->in.len == 0) { return 0; }
  size_t k = n < s->in.len ? n : s->in.len;
  if ((optbits & MC_OPT_SHORTREAD) && window_on && k > 1) { int c = choose(k > 2 ? 3 : 2, K_SCHED); if (c == 1) k = 1; else if (c == 2) k = k - 1; }
  if (s->rd_shut && !s->in.len) return 0;
  chk(b, k, "socket read into a buffer");
  if (fl & MSG_PEEK) { memcpy(b, s->in.d + s->in.off, k); return (ssize_t)k; }
  return (ssize_t)buf_get(&s->in, b, k); }
EXPORT ssize_t mcs_recv(int fd, void* b, size_t n, int fl) { return do_recv(fd, b, n, fl); }
EXPORT ssize_t mcs_recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) { (void)a; (void)l; return do_recv(fd, b, n, fl); }
EXPORT ssize_t mcs_recvmsg(int fd, struct msghdr* h, int fl) { if (!h->msg_iovlen) return 0; return do_recv(fd, h->msg_iov[0].iov_base, h->msg_iov[0].iov_len, fl); }
static ssize_t do_send(int fd, const struct iovec* v, int nv) {
  yieldpt(NULL, "send");
  Sock* s = sk(fd); if (!s) { errno = EBADF; return -1; } if (s->type != 2) { errno = ENOTCONN; return -1; }
  if (!s->peer || s->wr_shut) { errno = EPIPE; return -1; }
  size_t t = 0; for (int i = 0; i < nv; i++) { if (v[i].iov_len) { chk(v[i].iov_base, v[i].iov_len, "socket write from a buffer"); if (!s->peer->rd_shut) buf_put(&s->peer->in, v[i].iov_base, v[i].iov_len); } t += v[i].iov_len; }
  trace("send fd %d: %zu bytes", fd, t); return (ssize_t)t; }
EXPORT ssize_t mcs_send(int fd, const void* b, size_t n, int fl) { (void)fl; struct iovec v = {(void*)b, n}; return do_send(fd, &v, 1); }
EXPORT ssize_t mcs_sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l) { (void)a; (void)l; return mcs_send(fd, b, n, fl); }
EXPORT ssize_t mcs_sendmsg(int fd, const struct msghdr* h, int fl) { (void)fl; return do_send(fd, h->msg_iov, (int)h->msg_iovlen); }
EXPORT ssize_t mcs_read(int fd, void* b, size_t n) { return isv(fd) ? do_recv(fd, b, n, 0) : read(fd, b, n); }
EXPORT ssize_t mcs_write(int fd, const void* b, size_t n) { return isv(fd) ? mcs_send(fd, b, n, 0) : write(fd, b, n); }
EXPORT ssize_t mcs_readv(int fd, const struct iovec* v, int n) { if (!isv(fd)) return readv(fd, v, n); return do_recv(fd, v[0].iov_base, v[0].iov_len, 0); }
EXPORT ssize_t mcs_writev(int fd, const struct iovec* v, int n) { return isv(fd) ? do_send(fd, v, n) : writev(fd, v, n); }
EXPORT int mcs_shutdown(int fd, int how) { Sock* s = sk(fd); if (!s) { errno = EBADF; return -1; } if (s->type == 2) { if (how != SHUT_WR) s->rd_shut = 1; if (how != SHUT_RD) { s->wr_shut = 1; if (s->peer) s->peer->peer_closed = 1; } } else if (s->type == 1) { s->rd_shut = 1; s->type = 3; } trace("shutdown %d", fd); yieldpt(NULL, "shutdown"); return 0; }
EXPORT int mcs_close(int fd) { if (!isv(fd)) return close(fd); yieldpt(NULL, "close"); Sock* s = sk(fd); if (!s) { errno = EBADF; return -1; } trace("close %d", fd); vfd[fd - VFD0] = NULL; sock_close(s); return 0; }
EXPORT int mcs_fcntl(int fd, int c, ...) { if (!isv(fd)) { va_list ap; va_start(ap, c); long x = va_arg(ap, long); va_end(ap); return fcntl(fd, c, x); } Sock* s = sk(fd); if (!s) { errno = EBADF; return -1; } if (c == F_SETFL) { va_list ap; va_start(ap, c); long x = va_arg(ap, long); va_end(ap); s->nonblock = !!(x & O_NONBLOCK); } if (c == F_GETFL) return s->nonblock ? O_NONBLOCK | O_RDWR : O_RDWR; return 0; }
EXPORT int mcs_fcntl64(int fd, int c, ...) { va_list ap; va_start(ap, c); long x = va_arg(ap, long); va_end(ap); return mcs_fcntl(fd, c, x); }
EXPORT int mcs_ioctl(int fd, unsigned long r, ...) { (void)fd; (void)r; errno = ENOTTY; return -1; }
EXPORT int mcs_setsockopt(int a, int b, int c, const void* d, socklen_t e) { (void)a; (void)b; (void)c; (void)d; (void)e; return 0; }
EXPORT int mcs_getsockopt(int a, int b, int c, void* d, socklen_t* e) { (void)a; (void)b; (void)c; if (d && e && *e >= 4) *(int*)d = 0; return 0; }
EXPORT int mcs_getsockname(int fd, struct sockaddr* a, socklen_t* l) { Sock* s = sk(fd); if (!s) { errno = EBADF; return -1; } if (*l >= sizeof(sa_family_t)) { a->sa_family = s->addr.ss_family ? s->addr.ss_family : AF_UNIX; if (a->sa_family == AF_UNIX && *l > sizeof(sa_family_t)) ((struct sockaddr_un*)a)->sun_path[0] = 0; *l = sizeof(sa_family_t); } return 0; }
EXPORT int mcs_getpeername(int fd, struct sockaddr* a, socklen_t* l) { return mcs_getsockname(fd, a, l); }
static int do_select(int n, fd_set* r, fd_set* w, fd_set* e, int64_t dl) {
  for (int fd = VFD0; fd < n && fd < VFD0 + NVFD; fd++) if (((r && FD_ISSET(fd, r)) || (w && FD_ISSET(fd, w))) && !sk(fd)) { errno = EBADF; return -1; }
  me->rs = r; me->ws = w; me->nfds = n; me->pfds = NULL; blockpt(OP_SELECT, NULL, dl, "select");
  int c = 0; fd_set rr; FD_ZERO(&rr); if (r) { for (int fd = VFD0; fd < n && fd < VFD0 + NVFD; fd++) if (FD_ISSET(fd, r) && rd_ready(sk(fd))) { FD_SET(fd, &rr); c++; } }
  if (w) for (int fd = VFD0; fd < n && fd < VFD0 + NVFD; fd++) if (FD_ISSET(fd, w)) c++;
  if (r) *r = rr; if (e) FD_ZERO(e); return c; }
EXPORT int mcs_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) { return do_select(n, r, w, e, tv ? now_us + (int64_t)tv->tv_sec * 1000000 + tv->tv_usec : -1); }
EXPORT int mcs_pselect(int n, fd_set* r, fd_set* w, fd_set* e, const struct timespec* tv, const sigset_t* m) { (void)m; return do_select(n, r, w, e, tv ? now_us + (int64_t)tv->tv_sec * 1000000 + tv->tv_nsec / 1000 : -1); }
EXPORT int mcs_poll(struct pollfd* p, nfds_t n, int ms) { me->pfds = p; me->npfds = (int)n; blockpt(OP_SELECT, NULL, ms >= 0 ? now_us + (int64_t)ms * 1000 : -1, "poll"); me->pfds = NULL; int c = 0;
  for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; Sock* s = sk(p[i].fd); if (!s) { p[i].revents = POLLNVAL; c++; continue; } if ((p[i].events & POLLIN) && rd_ready(s)) p[i].revents |= POLLIN; if (p[i].events & POLLOUT) p[i].revents |= POLLOUT; if (p[i].revents) c++; } return c; }

/* ------------------------------------------------------------------------------------------------ process-ish calls */
EXPORT int mcs_getpid(void) { return proc[me->proc].pid; }
EXPORT int mcs_gettid(void) { return 20000 + me->id; }
EXPORT long mcs_syscall(long n, ...) { if (n == SYS_gettid) return 20000 + me->id; if (n == SYS_getpid) return proc[me->proc].pid; errno = ENOSYS; return -1; }
EXPORT int mcs_kill(int pid, int sig) { for (int i = 0; i < nproc; i++) if (proc[i].pid == pid && proc[i].alive) { if (sig == 9) mc_kill(i); return 0; } errno = ESRCH; return -1; }
EXPORT int mcs_daemon(int a, int b) { (void)a; (void)b; return 0; }
EXPORT void mcs_exit(int c) { trace("exit(%d)", c); int p = me->proc; kill_proc(p); die(); }
EXPORT int mcs_pause(void) { for (;;) blockpt(OP_SLEEP, NULL, -1, "pause"); }
EXPORT void* mcs_signal(int s, void* f) { (void)s; (void)f; return NULL; }
EXPORT int mcs_sigaction(int s, const void* a, void* b) { (void)s; (void)a; (void)b; return 0; }
EXPORT int mcs_flock(int fd, int op) { (void)fd; (void)op; return 0; }

/* ------------------------------------------------------------------------------------------------ files */
static void cleanup_scratch(void) { }
const char* mc_scratch(void) { return scratch; }
static const char* mapped(const char* p, char* b, size_t n) {
  static const char* pre[] = {"/tmp", "/nvram", "/etc", "/opt", "/var", NULL};
  size_t sl = strlen(scratch); if (!strncmp(p, scratch, sl)) return p;
  for (int i = 0; pre[i]; i++) { size_t l = strlen(pre[i]); if (!strncmp(p, pre[i], l) && (p[l] == '/' || !p[l])) {
    if (!scratch_made) { scratch_made = 1; mkdir(scratch, 0700); for (int j = 0; pre[j]; j++) { char t[200]; snprintf(t, sizeof t, "%s%s", scratch, pre[j]); mkdir(t, 0700); } }
    snprintf(b, n, "%s%s", scratch, p); return b; } }
  return p; }
static void filept(void) { if (optbits & MC_OPT_FILEPTS) yieldpt(NULL, "file"); }
EXPORT FILE* mcs_fopen(const char* p, const char* m) { char b[600]; filept(); trace("fopen %s %s", p, m); return fopen(mapped(p, b, sizeof b), m); }
EXPORT FILE* mcs_fopen64(const char* p, const char* m) { return mcs_fopen(p, m); }
EXPORT int mcs_fclose(FILE* f) { filept(); return fclose(f); }
EXPORT int mcs_fflush(FILE* f) { if (f && f != stdout && f != stderr) filept(); return fflush(f); }
EXPORT int mcs_remove(const char* p) { char b[600]; filept(); trace("remove %s", p); return remove(mapped(p, b, sizeof b)); }
EXPORT int mcs_unlink(const char* p) { char b[600]; filept(); return unlink(mapped(p, b, sizeof b)); }
EXPORT int mcs_rename(const char* p, const char* q) { char b[600], c[600]; filept(); return rename(mapped(p, b, sizeof b), mapped(q, c, sizeof c)); }
EXPORT int mcs_stat(const char* p, struct stat* s) { char b[600]; return stat(mapped(p, b, sizeof b), s); }
EXPORT int mcs_stat64(const char* p, struct stat64* s) { char b[600]; return stat64(mapped(p, b, sizeof b), s); }
EXPORT int mcs_lstat(const char* p, struct stat* s) { char b[600]; return lstat(mapped(p, b, sizeof b), s); }
EXPORT int mcs_lstat64(const char* p, struct stat64* s) { char b[600]; return lstat64(mapped(p, b, sizeof b), s); }
EXPORT int mcs_access(const char* p, int m) { char b[600]; return access(mapped(p, b, sizeof b), m); }
EXPORT int mcs_mkdir(const char* p, mode_t m) { char b[600]; filept(); return mkdir(mapped(p, b, sizeof b), m); }
EXPORT int mcs_rmdir(const char* p) { char b[600]; return rmdir(mapped(p, b, sizeof b)); }
EXPORT int mcs_chmod(const char* p, mode_t m) { char b[600]; return chmod(mapped(p, b, sizeof b), m); }
EXPORT int mcs_open(const char* p, int f, ...) { char b[600]; va_list ap; va_start(ap, f); int m = (f & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); filept(); return open(mapped(p, b, sizeof b), f, m); }
EXPORT int mcs_open64(const char* p, int f, ...) { va_list ap; va_start(ap, f); int m = (f & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return mcs_open(p, f, m); }

/* ================================================================================================ explorer */
static int rmcb(const char* p, const struct stat* s, int t, struct FTW* f) { (void)s; (void)t; (void)f; return remove(p); }
static const char* scen; static double wall_limit = 20; static long exec_limit = -1;
static double nowd(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec / 1e9; }

static void child_body(void) {
  void (*fn)(void) = NULL; char sym[128]; snprintf(sym, sizeof sym, "scn_%s", scen); fn = (void(*)(void))dlsym(proc[0].dl, sym);
  Proc* p = &proc[0]; nproc = 1; p->used = p->alive = 1; p->pid = 5000; snprintf(p->name, sizeof p->name, "ctl");
  memset(thr, 0, sizeof(Thr)); nthr = 1; me = &thr[0]; me->op = OP_RUN; me->deadline = -1; me->proc = 0; now_us = 1000000;
  fn();
  if (devpos < curdev.n) failst(ST_DIVERGE, "replay diverged: execution ended before choice %u", curdev.d[devpos].idx);
  finish(ST_OK);
}
static int errfd = -1, nullfd = -1; static char wscratch[100];
static double run_deadline(void);
static double cpu_of(pid_t pid) { clockid_t c; struct timespec t; if (clock_getcpuclockid(pid, &c) || clock_gettime(c, &t)) return 0; return (double)t.tv_sec + (double)t.tv_nsec / 1e9; }
#define BUSY_CPU 40 /* seconds of processor time without a single intercepted operation, note or count: a busy loop */
static void run_one(const Dev* d, Result* r) {
  r->status = ST_NONE; r->npts = 0; r->steps = 0; r->has_outcome = 0; r->msg[0] = 0; r->outtxt[0] = 0; r->errtxt[0] = 0; r->crashes = 0; memset(r->count, 0, sizeof r->count);
  if (errfd < 0) errfd = memfd_create("err", 0);
  if (nullfd < 0) nullfd = open("/dev/null", O_RDWR);
  if (ftruncate(errfd, 0)) {}
  lseek(errfd, 0, SEEK_SET);
  static unsigned long seq; snprintf(scratch, sizeof scratch, "%s/%lu", wscratch, seq++ % 1000000);
  pid_t pid = fork();
  if (pid < 0) { r->status = ST_WALL; snprintf(r->msg, sizeof r->msg, "fork failed"); return; }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    R = r; curdev = *d; devpos = 0; scratch_made = 0;
    if (verbose) { int fd = dup(2); rawerr = fdopen(fd, "w"); setvbuf(rawerr, NULL, _IONBF, 0); if (verbose < 2) { dup2(nullfd, 1); } }
    else { dup2(nullfd, 1); dup2(errfd, 2); }
    child_body();
  }
  int st = 0; double t0 = nowd(), cpu0 = 0; uint64_t seen = 0; int reaped = 0; r->live = 0;
  /* wait with a wall clock guard */
  for (int spin = 0;; spin++) {
    pid_t w = waitpid(pid, &st, spin < 3 || wall_limit <= 0 ? 0 : WNOHANG);
    if (spin == 0 && w == pid) { reaped = 1; break; }
    if (w == pid) { reaped = 1; break; }
    if (w < 0 && errno != EINTR) break;
    if (r->live != seen) { seen = r->live; cpu0 = cpu_of(pid); }
    else if (cpu_of(pid) - cpu0 > BUSY_CPU) { kill(pid, SIGKILL); waitpid(pid, &st, 0); reaped = 2; break; }
    if (run_deadline() > 0 && nowd() > run_deadline() + 1) { kill(pid, SIGKILL); waitpid(pid, &st, 0); reaped = 3; break; }
    if (nowd() - t0 > wall_limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); reaped = 2; break; }
    usleep(2000);
  }
  if (reaped == 3) { r->status = ST_CUT; }
  else if (reaped == 2) { r->status = ST_WALL; snprintf(r->msg, sizeof r->msg, "execution made no progress (busy loop?)%s%s", r->note[0] ? "; at: " : "", r->note); }
  else if (WIFSIGNALED(st)) { r->status = ST_CRASH; snprintf(r->msg, sizeof r->msg, "killed by signal %d (%s)%s%s", WTERMSIG(st), strsignal(WTERMSIG(st)), r->note[0] ? "; at: " : "", r->note); }
  else if (WEXITSTATUS(st) != 0 && r->status <= ST_OK) { r->status = ST_CRASH; snprintf(r->msg, sizeof r->msg, "abnormal exit %d (memory error or abort)%s%s", WEXITSTATUS(st), r->note[0] ? "; at: " : "", r->note); }
  else if (WEXITSTATUS(st) == 0 && r->status == ST_NONE) { r->status = ST_CRASH; snprintf(r->msg, sizeof r->msg, "exited without finishing"); }
  if (r->status != ST_OK && !verbose) { ssize_t k = pread(errfd, r->errtxt, sizeof r->errtxt - 1, 0); r->errtxt[k > 0 ? k : 0] = 0; }
  struct stat sb; if (stat(scratch, &sb) == 0) nftw(scratch, rmcb, 16, FTW_DEPTH | FTW_PHYS);
}
/* use SIGALRM-free wait: first waitpid blocks; arm an interval timer in the worker to bound it */
static void on_alrm(int s) { (void)s; }

typedef struct {
  pthread_mutex_t mu; volatile long pending, nitems, top; volatile int stop; volatile int bound;
  volatile uint64_t execs, transitions, points, diverged, crashes, maxpts, ok, leaf;
  volatile uint64_t count[8]; volatile int nviol; volatile double deadline; volatile int capped; volatile uint64_t per_cost[8];
  uint64_t memo[65536];
  volatile uint64_t nout; uint64_t outs[65536]; char outtxt[12][200]; int nouttxt;
  struct { Dev d; int status; char msg[1600]; char err[6000]; } viol[64];
} Shared;
static Shared* S;
/* results a scenario has already established, shared by all its executions (a cache only: nothing when replaying) */
EXPORT int mc_memo(uint64_t h, int add) {
  if (!S) return 0;
  if (!h) h = 1;
  for (unsigned k = (unsigned)(h % 65536), i = 0; i < 2000; i++, k = (k + 1) % 65536) {
    uint64_t o = __atomic_load_n(&S->memo[k], __ATOMIC_RELAXED); if (o == h) return 1;
    if (!o) { if (!add) return 0; uint64_t z = 0; if (__atomic_compare_exchange_n(&S->memo[k], &z, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED) || z == h) return 1; } }
  return 0; }
static double run_deadline(void) { return S ? S->deadline : 0; }
static Dev* stack; static long STACKMAX = 4000000;

static int max_viol = 8;
static void add_outcome(Result* r) {
  uint64_t h = r->has_outcome ? r->outcome : 0; if (!h) h = 1;
  unsigned k = (unsigned)(h % 65536);
  for (int i = 0; i < 65536; i++, k = (k + 1) % 65536) { if (S->outs[k] == h) return; if (!S->outs[k]) { S->outs[k] = h; S->nout++; if (S->nouttxt < 12) { snprintf(S->outtxt[S->nouttxt++], 200, "%s", r->outtxt); } return; } if (i > 2000) return; } }
static int same_sig(const char* a, const char* b) { return !strcmp(a, b); }
static void explore_item(Dev* d, Result* r, int depth) {
  if (S->stop) return;
  run_one(d, r);
  if (r->status == ST_DIVERGE && getenv("MC_DIV")) { int sv = dup(2); char m[1600]; strcpy(m, r->msg); for (int q = 0; q < 6; q++) { char nm[100]; snprintf(nm, sizeof nm, "/dev/shm/div.%d.%d", getpid(), q); int fd = open(nm, O_RDWR | O_CREAT | O_TRUNC, 0644); dup2(fd, 2); verbose = 1; Dev e = *d; if (q & 1) e.n--; run_one(&e, r); verbose = 0; dup2(sv, 2); } r->status = ST_DIVERGE; strcpy(r->msg, m); }
  if (r->status == ST_CUT) { pthread_mutex_lock(&S->mu); S->stop = 1; S->capped = 1; pthread_mutex_unlock(&S->mu); return; }
  if (r->status == ST_WALL || (r->status == ST_CRASH && strstr(r->msg, "signal 9"))) { run_one(d, r); }
  pthread_mutex_lock(&S->mu);
  S->execs++; S->transitions += r->steps; S->points += (uint64_t)r->npts; if ((uint64_t)r->npts > S->maxpts) S->maxpts = (uint64_t)r->npts; S->crashes += (uint64_t)r->crashes; S->per_cost[d->cost & 7]++;
  for (int i = 0; i < 8; i++) S->count[i] += r->count[i];
  if (r->status == ST_OK) { S->ok++; add_outcome(r); }
  else if (r->status == ST_DIVERGE && !getenv("MC_DIV")) S->diverged++;
  else {
    int dup = 0; for (int i = 0; i < S->nviol; i++) if (same_sig(S->viol[i].msg, r->msg)) dup = 1;
    if (!dup && S->nviol < 64) { int i = S->nviol; S->viol[i].d = *d; S->viol[i].status = r->status; memcpy(S->viol[i].msg, r->msg, sizeof r->msg); memcpy(S->viol[i].err, r->errtxt, sizeof r->errtxt); S->nviol++; if (S->nviol >= max_viol) S->stop = 1; } }
  if (exec_limit > 0 && (long)S->execs >= exec_limit) { S->stop = 1; S->capped = 1; }
  if (S->deadline > 0 && nowd() > S->deadline) { S->stop = 1; S->capped = 1; }
  pthread_mutex_unlock(&S->mu);
  if (r->status == ST_DIVERGE) return;
  uint32_t start = d->n ? d->d[d->n - 1].idx + 1 : 0;
  uint32_t n = (uint32_t)r->npts; if (n <= start) return;
  uint8_t* alts = malloc(n); uint8_t* kind = malloc(n); memcpy(alts, r->alts, n); memcpy(kind, r->kind, n);
  for (uint32_t i = start; i < n && !S->stop; i++) {
    int c = d->cost + (kind[i] == K_DATA ? 0 : 1);
    if (c > S->bound) continue;
    if (d->n >= MAXDEV) { S->capped = 1; continue; }
    for (int a = alts[i] - 1; a >= 1 && !S->stop; a--) {
      Dev e = *d; e.d[e.n].idx = i; e.d[e.n].alt = (uint32_t)a; e.n++; e.cost = c;
      int pushed = 0;
      if (S->nitems < 20000 || (depth == 0 && S->nitems < STACKMAX - 10)) { pthread_mutex_lock(&S->mu); if (S->nitems < STACKMAX - 1) { stack[S->nitems++] = e; S->pending++; pushed = 1; } pthread_mutex_unlock(&S->mu); }
      if (!pushed) explore_item(&e, r, depth + 1);
    } }
  free(alts); free(kind); }
static void worker(int w) {
  { cpu_set_t all, one; CPU_ZERO(&all); if (!sched_getaffinity(0, sizeof all, &all)) { int n = CPU_COUNT(&all), want = n ? w % n : 0; for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &all) && want-- == 0) { CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); break; } } }

  prctl(PR_SET_PDEATHSIG, SIGKILL);
  snprintf(wscratch + strlen(wscratch), sizeof wscratch - strlen(wscratch), "/w%d", w); mkdir(wscratch, 0700);
  Result* r = mmap(NULL, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alrm; sigaction(SIGALRM, &sa, NULL);
  struct itimerval it = {{2, 0}, {2, 0}}; setitimer(ITIMER_REAL, &it, NULL);
  errfd = -1;
  for (;;) {
    Dev d; int got = 0; pthread_mutex_lock(&S->mu);
    if (S->nitems > 0) { d = stack[--S->nitems]; got = 1; }
    long pend = S->pending; pthread_mutex_unlock(&S->mu);
    if (S->stop) break;
    if (!got) { if (pend == 0) break; usleep(300); continue; }
    explore_item(&d, r, 0);
    pthread_mutex_lock(&S->mu); S->pending--; pthread_mutex_unlock(&S->mu);
  }
  rmdir(wscratch);
  _exit(0); }

static void json_str(FILE* f, const char* s) { fputc('"', f); for (; *s; s++) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if (c == '\n') fputs("\\n", f); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }

const char* __asan_default_options(void) { return "detect_leaks=0:detect_odr_violation=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=6:max_free_fill_size=64:max_malloc_fill_size=70000:malloc_fill_byte=190"; }

int main(int argc, char** argv) {
  const char* lib = NULL; const char* out = NULL; int bound = 1, jobs = 8, slots = 6; double budget = 0; const char* replay = NULL; const char* sdir = "/dev/shm"; 
  if (access(sdir, W_OK)) sdir = "/tmp";
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--lib")) lib = argv[++i]; else if (!strcmp(argv[i], "--scn")) scen = argv[++i];
    else if (!strcmp(argv[i], "--bound")) bound = atoi(argv[++i]); else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--budget")) budget = atof(argv[++i]); else if (!strcmp(argv[i], "--out")) out = argv[++i];
    else if (!strcmp(argv[i], "--replay")) replay = argv[++i]; else if (!strcmp(argv[i], "-v")) verbose++; else if (!strcmp(argv[i], "--slots")) slots = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--execs")) exec_limit = atol(argv[++i]); else if (!strcmp(argv[i], "--steps")) max_steps = (uint64_t)atol(argv[++i]);
    else if (!strcmp(argv[i], "--wall")) wall_limit = atof(argv[++i]); else if (!strcmp(argv[i], "--viol")) max_viol = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--param")) { char* s = argv[++i]; char* e = strchr(s, '='); snprintf(params[nparams][0], 64, "%.*s", (int)(e - s), s); snprintf(params[nparams++][1], 64, "%s", e + 1); }
    else { fprintf(stderr, "unknown option %s\n", argv[i]); return 2; } }
  setenv("RT_LOG_LEVEL", verbose >= 2 ? "debug" : "fatal", 1); 
  if (!lib || !scen) { fprintf(stderr, "usage: mcrun --lib libscn.so --scn NAME\n"); return 2; }
  snprintf(wscratch, sizeof wscratch, "%s/mc.%d", sdir, (int)getpid()); mkdir(wscratch, 0700);
  /* private copies of the library: one per virtual process */
  if (slots > MAXPROC) slots = MAXPROC;
  thr[0].proc = 0; me = &thr[0]; nproc = 1; now_us = 1000000; /* constructors may call intercepted functions */
  static Result dummy; R = &dummy;
  for (int i = 0; i < slots; i++) {
    char p[200]; snprintf(p, sizeof p, "%s/lib%d.so", wscratch, i);
    FILE* a = fopen(lib, "rb"); FILE* b = fopen(p, "wb"); if (!a || !b) { perror("copy lib"); return 2; } static char buf[1 << 16]; size_t k; while ((k = fread(buf, 1, sizeof buf, a)) > 0) fwrite(buf, 1, k, b); fclose(a); fclose(b);
    proc[i].dl = dlopen(p, RTLD_NOW | RTLD_LOCAL); if (!proc[i].dl) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 2; }
    unlink(p);
    char sym[128]; snprintf(sym, sizeof sym, "scn_%s", scen); void* f = dlsym(proc[i].dl, sym); if (!f) { fprintf(stderr, "no scenario %s\n", scen); return 2; }
    Dl_info di; dladdr(f, &di); proc[i].base = di.dli_fbase; }
  nslots = slots; if (jobs < 1) jobs = 1;
  if (replay) {
    Dev d; memset(&d, 0, sizeof d); /* format: idx:alt,idx:alt,... or a file containing a "choices" line */
    char buf[4096]; snprintf(buf, sizeof buf, "%s", replay);
    if (replay[0] == '@' || replay[0] == '/') { FILE* f = fopen(replay[0] == '@' ? replay + 1 : replay, "r"); if (!f) { perror(replay); return 2; } buf[0] = 0; char line[4096]; while (fgets(line, sizeof line, f)) if (!strncmp(line, "choices=", 8)) { line[strcspn(line, "\n")] = 0; snprintf(buf, sizeof buf, "%s", line + 8); } fclose(f); }
    for (char* t = strtok(buf, ", \n"); t; t = strtok(NULL, ", \n")) { unsigned a, b; if (sscanf(t, "%u:%u", &a, &b) == 2) { d.d[d.n].idx = a; d.d[d.n].alt = b; d.n++; } }
    Result* r = mmap(NULL, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    run_one(&d, r); rmdir(wscratch);
    printf("status=%s steps=%llu points=%d outcome=%s%s%s\n", st_name[r->status], (unsigned long long)r->steps, r->npts, r->outtxt, r->status == ST_OK ? "" : "\n", r->msg); if (r->errtxt[0]) printf("%s\n", r->errtxt);
    return r->status == ST_OK ? 0 : 1; }
  S = mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  stack = mmap(NULL, sizeof(Dev) * (size_t)STACKMAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&S->mu, &ma);
  double t0 = nowd(); if (budget > 0) S->deadline = t0 + budget;
  /* determinism self check: the default execution twice must look identical */
  int nondet = 0; int completed = -1;
  { Result* r1 = mmap(NULL, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); Result* r2 = mmap(NULL, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Dev d; memset(&d, 0, sizeof d); run_one(&d, r1); memset(S->memo, 0, sizeof S->memo); run_one(&d, r2);
    if (r1->status != r2->status || r1->npts != r2->npts || r1->steps != r2->steps || r1->outcome != r2->outcome) { nondet = 1; fprintf(stderr, "NONDETERMINISM: %d/%d points, %llu/%llu steps, %s/%s\n", r1->npts, r2->npts, (unsigned long long)r1->steps, (unsigned long long)r2->steps, r1->msg, r2->msg); }
    munmap(r1, sizeof(Result)); munmap(r2, sizeof(Result)); }
  for (int b = 0; b <= bound; b++) {
    if (b > 0 && S->stop) break;
    /* each round re-enumerates everything up to its bound; counters are those of the last round run */
    S->bound = b; S->nitems = 0; S->pending = 0; S->execs = S->transitions = S->points = S->ok = 0; memset((void*)S->per_cost, 0, sizeof S->per_cost); memset((void*)S->count, 0, sizeof S->count); S->crashes = 0;
    memset(&stack[0], 0, sizeof(Dev)); S->nitems = 1; S->pending = 1;
    for (int w = 0; w < jobs; w++) { pid_t p = fork(); if (p == 0) worker(w); if (p < 0) { perror("fork"); } }
    while (wait(NULL) > 0 || errno == EINTR) {}
    if (!S->stop && S->pending == 0) completed = b;
    if (S->nviol) break;
    if (S->per_cost[b] == 0 && b > 0) { completed = bound; break; }
  }
  nftw(wscratch, rmcb, 16, FTW_DEPTH | FTW_PHYS);
  double wall = nowd() - t0;
  FILE* f = out ? fopen(out, "w") : stdout; if (!f) { perror("out"); return 2; }
  fprintf(f, "{\"scenario\":\"%s\",\"bound\":%d,\"completed_bound\":%d,\"capped\":%d,\"executions\":%llu,\"transitions\":%llu,\"choice_points\":%llu,\"max_points\":%llu,\"outcomes\":%llu,\"diverged\":%llu,\"crash_points\":%llu,\"nondet\":%d,\"wall_s\":%.1f,\"per_cost\":[%llu,%llu,%llu,%llu],\"counts\":[",
    scen, bound, completed, S->capped, (unsigned long long)S->execs, (unsigned long long)S->transitions, (unsigned long long)S->points, (unsigned long long)S->maxpts, (unsigned long long)S->nout, (unsigned long long)S->diverged, (unsigned long long)S->crashes, nondet, wall,
    (unsigned long long)S->per_cost[0], (unsigned long long)S->per_cost[1], (unsigned long long)S->per_cost[2], (unsigned long long)S->per_cost[3]);
  for (int i = 0; i < 8; i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)S->count[i]);
  fprintf(f, "],\"params\":{"); for (int i = 0; i < nparams; i++) fprintf(f, "%s\"%s\":\"%s\"", i ? "," : "", params[i][0], params[i][1]);
  fprintf(f, "},\"sample_outcomes\":["); for (int i = 0; i < S->nouttxt; i++) { if (i) fputc(',', f); json_str(f, S->outtxt[i]); }
  fprintf(f, "],\"violations\":[");
  for (int i = 0; i < S->nviol; i++) { fprintf(f, "%s{\"kind\":\"%s\",\"msg\":", i ? "," : "", st_name[S->viol[i].status]); json_str(f, S->viol[i].msg); fprintf(f, ",\"stderr\":"); json_str(f, S->viol[i].err); fprintf(f, ",\"choices\":\""); for (int k = 0; k < S->viol[i].d.n; k++) fprintf(f, "%s%u:%u", k ? "," : "", S->viol[i].d.d[k].idx, S->viol[i].d.d[k].alt); fprintf(f, "\"}"); }
  fprintf(f, "]}\n"); if (out) fclose(f);
  return S->nviol ? 1 : 0; }
