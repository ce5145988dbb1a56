#include <rbus.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
/* memory shared by all processes of the demonstration */
typedef struct { volatile int ready[16], n[64]; volatile char s[16][256]; } Shared;
static Shared* S;
#define FAIL(...) do { printf("FAIL: " __VA_ARGS__); printf("\n"); fflush(stdout); exit(1); } while(0)
#define CHK(x) do { if(!(x)) FAIL("line %d: %s", __LINE__, #x); } while(0)
static void init(void) { S = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)S, 0, sizeof *S); }
/* run f in a process of its own; returns when it has set ready[id] */
static pid_t spawn(int id, void (*f)(void)) { fflush(stdout); pid_t p = fork(); if(p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); f(); for(;;) pause(); } for(int i = 0; i < 100 && !S->ready[id]; i++) usleep(100000); if(!S->ready[id]) FAIL("process %d does not start", id); return p; }
static rbusHandle_t open_(const char* n) { rbusHandle_t h = 0; if(rbus_open(&h, n)) FAIL("rbus_open %s", n); return h; }
static void reg(rbusHandle_t h, rbusDataElement_t* e, int n) { int r = rbus_regDataElements(h, n, e); if(r) FAIL("register %s: %d", e[0].name, r); }
