/* P15: calls made from within handlers return, with the result they have outside */
#include "kit.h"
enum { X_GET, X_SET, X_MET, X_SUB, X_ADD, X_REM, X_EV, X_AINV, X_POLL, X_IVAL, X_ASUB, X_IMM, NX };
static const char* XN[] = {"get handler", "set handler", "method handler", "subscribe handler", "add-row handler", "remove-row handler", "event handler", "method answer handler", "get handler polled for changes", "get handler polled at intervals", "subscription answer handler", "first-value get handler"};
enum { N_GET, N_SET, N_INV, N_SUB, N_UNSUB, N_ADD, N_REM, N_ROWS, N_DISC, N_REG, N_UNREG, N_PUB, N_REGROW, N_UNREGROW, N_OPEN, N_BACK, N_AINV, N_ASUB, N_VSUB, N_CYCLE, N_SELF, N_SETMANY, N_UNSELF, N_CHAIN, NN };
static const char* NNM[] = {"get", "set", "invoke", "subscribe", "unsubscribe", "add row", "remove row", "row names", "discover", "register", "unregister", "publish", "register row", "unregister row", "open and close another component", "get from the caller", "invoke asynchronously", "subscribe asynchronously", "subscribe to changes", "get whose handler gets from the first", "get an element of its own", "set several", "unsubscribe the event handled", "invoke whose handler publishes to the first"};
static StrV* n_out;
static void n_mcb(rbusHandle_t, char const*, rbusError_t, rbusObject_t) {}
/* own: prefix of the component making the call, oth: of another one */
static Str ncall(rbusHandle_t h, int op, const Str& own, const Str& oth, const Str& back) {
  rbusError_t e = RBUS_ERROR_SUCCESS; Str A = oth + "A", E = oth + "E!", E2 = oth + "E2!", M = oth + "M()", T = oth + "T.", R = oth + "T.1.";
  auto get = [&](const Str& n) { rbusValue_t v = nullptr; rbusError_t e = rbus_get(h, n.c_str(), &v); Str r = e ? Str(en(e)) : vstr(v); if (!e) rbusValue_Release(v); return r; };
  auto inv = [&](const Str& n) { rbusObject_t o = nullptr; rbusError_t e = rbusMethod_Invoke(h, n.c_str(), nullptr, &o); Str r = Str(en(e)) + ostr(o); if (o) rbusObject_Release(o); return r; };
  switch (op) {
    case N_GET: return get(A);
    case N_SET: { rbusValue_t v = vint(5); e = rbus_set(h, A.c_str(), v, nullptr); rbusValue_Release(v); return en(e); }
    case N_INV: return inv(M);
    case N_SUB: return en(rbusEvent_Subscribe(h, E.c_str(), k_evh, (void*)71, 0));
    case N_UNSUB: return en(rbusEvent_Unsubscribe(h, E2.c_str()));
    case N_ADD: { uint32_t i = 0; e = rbusTable_addRow(h, T.c_str(), nullptr, &i); return en(e); }
    case N_REM: return en(rbusTable_removeRow(h, R.c_str()));
    case N_ROWS: { rbusRowName_t* rows = nullptr; e = rbusTable_getRowNames(h, T.c_str(), &rows); Str r = en(e); if (!e) { for (auto* x = rows; x; x = x->next) r += fmt(" %s", x->name); rbusTable_freeRowNames(h, rows); } return r; }
    case N_DISC: { const char* q[] = {A.c_str()}; int n = 0; char** l = nullptr; e = rbus_discoverComponentName(h, 1, q, &n, &l); Str r = en(e); if (!e) { for (int i = 0; i < n; i++) { r += Str(" ") + l[i]; free(l[i]); } free(l); } return r; }
    case N_REG: { Elems x({own + "New:pgs"}); return en(rbus_regDataElements(h, 1, x.e.data())); }
    case N_UNREG: { Elems x({own + "B:pgs"}); return en(rbus_unregDataElements(h, 1, x.e.data())); }
    case N_PUB: { rbusObject_t o; rbusObject_Init(&o, nullptr); Str E9 = own + "E9!"; rbusEvent_t ev; memset(&ev, 0, sizeof ev); ev.name = E9.c_str(); ev.type = RBUS_EVENT_GENERAL; ev.data = o; e = rbusEvent_Publish(h, &ev); rbusObject_Release(o); return en(e); }
    case N_REGROW: return en(rbusTable_registerRow(h, (own + "T.").c_str(), 40, nullptr));
    case N_UNREGROW: return en(rbusTable_unregisterRow(h, (own + "T.2.").c_str()));
    case N_OPEN: { rbusHandle_t h2 = nullptr; e = rbus_open(&h2, (own + "second").c_str()); if (e) return en(e); rbusValue_t v = nullptr; e = rbus_get(h2, A.c_str(), &v); Str r = e ? Str(en(e)) : vstr(v); if (!e) rbusValue_Release(v); return r + " " + en(rbus_close(h2)); }
    case N_BACK: return get(back + "A");
    case N_AINV: return en(rbusMethod_InvokeAsync(h, M.c_str(), nullptr, n_mcb, 0));
    case N_ASUB: return en(rbusEvent_SubscribeAsync(h, E.c_str(), k_evh, k_ash, (void*)72, 0));
    case N_VSUB: return en(rbusEvent_Subscribe(h, A.c_str(), k_evh, (void*)73, 0));
    case N_CYCLE: return get(oth + "Cyc" + own.substr(0, 1));
    case N_SELF: return get(own + "B");
    case N_SETMANY: { Str V = oth + "B"; rbusValue_t v = vint(6); rbusProperty_t p, q; rbusProperty_Init(&p, A.c_str(), v); rbusProperty_Init(&q, V.c_str(), v); rbusProperty_SetNext(p, q); e = rbus_setMulti(h, 2, p, nullptr); rbusValue_Release(v); rbusProperty_Release(p); rbusProperty_Release(q); return en(e); }
    case N_UNSELF: return en(rbusEvent_Unsubscribe(h, (own == "C." ? Str("P.E9!") : Str("Q.E9!")).c_str()));
    case N_CHAIN: return inv(oth + "MP()"); }
  return "?"; }
/* a component with everything; its special handlers call back */
static PC n_comp(const char* name) {
  Str n = Str(name) + "."; PC c = pc_new(name); PS* s = c.s; s->logget = 0; s->autopub = 1; StrV el; for (auto x : {"A:pgs", "B:pgs", "V:pgse", "I:pgse", "T.{i}.:tare", "T.{i}.N:pgs", "E!:ee", "E2!:ee", "E9!:ee", "M():mm", "MP():mm", "MX():mm", "CycP:pg", "CycC:pg"}) el.push_back(n + x); CHECK(!k_reg(c, el), "register");
  call(c.proc, [=] { for (auto x : {"A", "B", "V", "I"}) ps->v[n + x] = vint(x[0]); rbusTable_registerRow(c.h, (n + "T.").c_str(), 1, nullptr); rbusTable_registerRow(c.h, (n + "T.").c_str(), 2, nullptr); ps->next[n + "T."] = 2; });
  return c; }
static void n_set(PC& c, int x, int op, Str own, Str oth, Str back, bool* armed, Str* out) {
  PC* pc = &c; (void)pc;
  call(c.proc, [=] {
    auto go = [=](rbusHandle_t h) { if (!*armed) return; *armed = false; *out = "started"; *out = ncall(h, op, own, oth, back); };
    if (x == X_GET || x == X_POLL || x == X_IVAL || x == X_IMM) ps->get = [=](rbusHandle_t h, const char* n, rbusProperty_t p, rbusGetHandlerOptions_t* o) { if (!strcmp(n, (own + (x == X_GET ? "A" : x == X_IVAL ? "I" : "V")).c_str()) && (x != X_POLL || (o && o->requestingComponent && strstr(o->requestingComponent, "Poll")))) go(h); auto i = ps->v.find(n); if (i != ps->v.end()) rbusProperty_SetValue(p, i->second); else { rbusValue_t v = vint(7); rbusProperty_SetValue(p, v); rbusValue_Release(v); } return RBUS_ERROR_SUCCESS; };
    if (x == X_SET) ps->set = [=](rbusHandle_t h, const char* n, rbusProperty_t p, rbusSetHandlerOptions_t*) { if (!strcmp(n, (own + "A").c_str())) go(h); rbusValue_t v = rbusProperty_GetValue(p); auto& y = ps->v[n]; if (y) rbusValue_Release(y); rbusValue_Retain(v); y = v; return RBUS_ERROR_SUCCESS; };
    if (x == X_MET) ps->met = [=](rbusHandle_t h, const char* n, rbusObject_t, rbusObject_t, rbusMethodAsyncHandle_t) { if (strstr(n, "MX()")) go(h); return RBUS_ERROR_SUCCESS; };
    if (x == X_SUB) ps->sub = [=](rbusHandle_t h, rbusEventSubAction_t, const char* n, rbusFilter_t, int32_t, bool*) { if (strstr(n, ".E!")) go(h); return RBUS_ERROR_SUCCESS; };
    if (x == X_ADD || x == X_REM) ps->row = [=](rbusHandle_t h, const char*) { go(h); };
    if (x == X_EV) ps->onev = [=](rbusHandle_t h, const rbusEvent_t*, rbusEventSubscription_t*) { go(h); };
    if (x == X_AINV) ps->onmet = [=](rbusHandle_t h, const char*, rbusError_t, rbusObject_t) { go(h); };
    if (x == X_ASUB) ps->onas = [=](rbusHandle_t h, const char*) { go(h); };
  }); }
static void n_ans(rbusHandle_t h, char const* n, rbusError_t e, rbusObject_t o) { if (ps->onmet) ps->onmet(h, n, e, o); }
static bool g_armed; static Str g_out;
static void nested(int x, int op) {
  bool incons = x == X_EV || x == X_AINV || x == X_ASUB; Str own = incons ? "C." : "P.", back = incons ? "P." : "C."; Str info = fmt(" (%s from within a %s)", NNM[op], XN[x]); mc_note("%s", info.c_str());
  /* the requests to a component are handled one after another: one that makes itself wait for its own next one times out */
  bool onreq = x != X_AINV && x != X_ASUB && x != X_IVAL && x != X_POLL;
  if ((op == N_UNSELF && x != X_EV) || ((op == N_SELF || op == N_CYCLE) && onreq)) { mc_outcome("-"); return; }
  scn_start_router(); PC p = n_comp("P"), q = n_comp("Q"), c = n_comp("C"); PC& w = incons ? c : p; bool* armed = &g_armed; Str* out = &g_out; *armed = false; *out = "";
  /* Q's elements that turn back to the component which asks */
  call(q.proc, [=] { ps->get = [=](rbusHandle_t h, const char* n, rbusProperty_t pr, rbusGetHandlerOptions_t*) { rbusValue_t v = nullptr; Str nm = n; size_t k = nm.find("Cyc"); if (k != Str::npos) { if (rbus_get(h, (nm.substr(k + 3) + ".B").c_str(), &v)) v = vint(-1); } else { auto i = ps->v.find(n); if (i != ps->v.end()) { v = i->second; rbusValue_Retain(v); } else v = vint(7); } rbusProperty_SetValue(pr, v); rbusValue_Release(v); return RBUS_ERROR_SUCCESS; };
    ps->met = [=](rbusHandle_t h, const char* n, rbusObject_t, rbusObject_t, rbusMethodAsyncHandle_t) { if (strstr(n, "MP()")) { rbusObject_t o; rbusObject_Init(&o, nullptr); rbusEvent_t ev; memset(&ev, 0, sizeof ev); ev.name = "Q.E9!"; ev.type = RBUS_EVENT_GENERAL; ev.data = o; rbusError_t e = rbusEvent_Publish(h, &ev); rbusObject_Release(o); return e; } return RBUS_ERROR_SUCCESS; }; });
  CHECK(!c_sub(w, "Q.E2!", 60) && !c_sub(w, "Q.E9!", 61) && !c_sub(c, "P.E9!", 62) && !c_sub(q, "C.E9!", 63), "subscribe");
  if (x == X_AINV) CHECK(!c_sub(c, "P.E!", 64), "subscribe");
  mc_settle(); n_set(w, x, op, own, "Q.", back, armed, out); *armed = x != X_POLL;
  Str r; int64_t t0 = mc_now_us(); rbusError_t e = RBUS_ERROR_SUCCESS; uint32_t inst = 0; rbusHandle_t hc = c.h; SubX sx;
  mc_window(1);
  switch (x) { case X_GET: r = c_get(c, "P.A"); break; case X_SET: e = c_seti(c, "P.A", 9); break; case X_MET: r = c_inv(c, "P.MX()", nullptr); break; case X_SUB: e = c_sub(c, "P.E!", 1); break; case X_ADD: e = c_add(c, "P.T.", nullptr, &inst); break; case X_REM: e = c_rem(c, "P.T.1."); break; case X_EV: e = c_pubi(p, "P.E9!", 1); break;
    case X_AINV: call(c.proc, [=, &e] { e = rbusMethod_InvokeAsync(hc, "P.M()", nullptr, n_ans, 0); }); break; case X_POLL: e = c_sub(c, "P.V", 2); *armed = true; break; case X_IVAL: sx.name = "P.I"; sx.interval = 2; sx.ud = 3; e = c_subx(c, sx); break; case X_ASUB: sx.name = "P.E!"; sx.ud = 4; e = c_subasync(c, sx); break; case X_IMM: e = c_sub(c, "P.V", 5); break; }
  mc_settle(); if (x == X_POLL || x == X_IVAL) { mc_sleep_ms(2500); mc_settle(); }
  mc_window(0); int64_t t1 = mc_now_us(); (void)t0; (void)t1;
  CHECK(!e, "the outer call failed: %s%s", en(e), info.c_str()); CHECK(*out != "", "harness: the handler was not called%s", info.c_str()); CHECK(*out != "started", "the call made in the handler did not return%s", info.c_str());
  static const char* want[NN] = {"i32:65", "SUCCESS", "SUCCESS", "SUCCESS", "SUCCESS", "SUCCESS", "SUCCESS", "SUCCESS Q.T.1. Q.T.2.", "SUCCESS Q", "SUCCESS", "SUCCESS", "SUCCESS", "SUCCESS", "SUCCESS", "i32:65 SUCCESS", "i32:65", "SUCCESS", "SUCCESS", "SUCCESS", "i32:66", "i32:66", "SUCCESS", "SUCCESS", "SUCCESS"};
  Str got = *out; bool okk = op == N_INV || op == N_CHAIN ? got.find("SUCCESS") == 0 : op == N_ROWS ? got.find("SUCCESS") == 0 : got == want[op]; if (op == N_PUB && own == "P." && false) okk = true;
  CHECK(okk, "the call made in the handler gave %s instead of %s%s", got.c_str(), want[op], info.c_str());
  CHECK(t1 - t0 < 5000000, "it took %lld ms%s", (long long)(t1 - t0) / 1000, info.c_str());
  /* everything still works */
  CHECK(c_get(c, "Q.A").find("ok") == 0 && c_get(q, "P.A").find("ok") == 0 && c_get(p, "C.A").find("ok") == 0, "a later get failed%s", info.c_str());
  p.s->takeev(); c.s->takeev(); q.s->takeev(); CHECK(!c_pubi(q, "Q.E9!", 3), "publish%s", info.c_str()); mc_settle(); StrV ev = w.s->takeev(); CHECK(ev.size() == (op == N_UNSELF && x == X_EV && own == "x" ? 0 : 1), "%zu events instead of 1 afterwards%s", ev.size(), info.c_str());
  CHECK(!comp_close(c) && !comp_close(q) && !comp_close(p), "close%s", info.c_str());
  CHECK(!mc_misuse(), "%s%s", mc_misuse_text(), info.c_str()); mc_outcome("%d %d %s", x, op, got.c_str()); }
SCN(p15_nested) { int x = (int)mc_param("x", -1), op = (int)mc_param("op", -1); if (x < 0) { x = mc_choose(NX, "handler"); op = mc_choose(NN, "call"); } nested(x, op); }
