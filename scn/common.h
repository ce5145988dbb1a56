#ifndef SCN_COMMON_H
#define SCN_COMMON_H
#include "mcsim.h"
#include <limits.h>
#include <rbus.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
extern "C" {
int mc_rtrouted_main(int argc, char** argv);
int mc_session_manager_main(int argc, char** argv);
}
#define SCN(name) extern "C" __attribute__((visibility("default"))) void scn_##name(void)
#define OPFN extern "C" __attribute__((visibility("default")))
#define CHECK(c, ...) do { if(!(c)) mc_fail(__VA_ARGS__); } while(0)
typedef std::string Str;
typedef std::vector<Str> StrV;
Str fmt(const char* f, ...) __attribute__((format(printf,1,2)));
Str join(const StrV& v, const char* sep = ",");

/* run a lambda inside process p (its own copy of the code and globals) */
template<class F> static void* lam_tramp(void* p) { F* f = (F*)p; (*f)(); return nullptr; }
template<class F> static void call(int p, F f) { mc_call(p, lam_tramp<F>, &f); }
/* same, but returns the thread; the lambda object stays allocated.  f must only capture data that outlives it */
template<class F> static int async(int p, F f) { return mc_spawn(p, lam_tramp<F>, new F(f)); }
/* run with a limit on virtual time: a call that does not return in time is a failure */
template<class F> static void call_within(int p, int64_t ms, const char* what, F f) {
  F* g = new F(f); int t = mc_spawn(p, lam_tramp<F>, g); if (!mc_joinable_within(t, ms)) mc_fail("%s did not return within %lld ms", what, (long long)ms); delete g; }

/* in-process enumerator of choice lists (for pure data enumeration many cases share one execution).
   for (Odo o; o.more(); ) { o.choose(n) ... }   part(k,n): this execution takes only case numbers congruent to k modulo n */
struct Odo { std::vector<std::pair<int,int>> st; size_t pos = 0; bool first = true; uint64_t ncase = 0;
  int choose(int n) { if (pos < st.size()) return st[pos++].second; st.push_back({n, 0}); pos++; return 0; }
  bool more() { if (first) { first = false; pos = 0; return true; } ncase++; while (!st.empty() && st.back().second + 1 >= st.back().first) st.pop_back(); if (st.empty()) return false; st.back().second++; pos = 0; return true; } };

int scn_start_router();                 /* new process running rtrouted; returns after it listens */
int scn_start_session_manager();

/* ---- values ---- */
Str vstr(rbusValue_t v);                /* type and exact content, by typed accessors only */
Str pstr(rbusProperty_t p, bool list = true);
Str ostr(rbusObject_t o);
rbusValue_t vint(int i);
rbusValue_t vstrv(const char* s);
struct ValSpec { rbusValueType_t type; Str text; };
int  nvals();                           /* boundary values of every type */
rbusValue_t mkval(int i);
Str valname(int i);
const char* ename(int e);
inline const char* en(rbusError_t e) { return ename((int)e); }

/* ---- components ---- */
struct Comp { int proc; Str name; rbusHandle_t h; };
Comp comp_new(const char* name, const char* procname = nullptr);   /* fresh process + rbus_open */
void comp_open(Comp& c);
rbusError_t comp_close(Comp& c);
#endif
