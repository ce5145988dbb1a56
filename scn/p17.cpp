/* P17: the death of a component or of the broker leaves nothing stale and is survived */
#include "kit.h"
#include <rbuscore.h>
static const StrV PE = {"P.A:pgs", "P.V:pg", "P.I:pg", "P.E!:ee", "P.E2!:ee", "P.T.{i}.:tar", "P.T.{i}.N:pg", "P.M():mm"};
static void evh17(rbusHandle_t h, rbusEvent_t const* e, rbusEventSubscription_t* s) { k_evh(h, e, s); }
static int nev17(PC& c, long ud) { int n = 0; Str p = fmt("%ld|", ud); for (auto& s : c.s->ev) if (s.compare(0, p.size(), p) == 0) n++; return n; }
static void amet17(rbusHandle_t, char const* n, rbusError_t e, rbusObject_t) { ps->as.push_back(fmt("%s %s", n, en(e))); }
static int net(const StrV& log, const char* ev) { int n = 0; for (auto& s : log) { if (s.find(Str("sub ") + ev + " ") == 0) n++; if (s.find(Str("unsub ") + ev + " ") == 0) n--; } return n; }
static int cntlog(const StrV& log, const char* pre) { int n = 0; for (auto& s : log) if (s.find(pre) == 0) n++; return n; }
struct W17 { PC p, c, b; Str info; int rt = 0;
  void setupP() { call(p.proc, [] { ps->v["P.A"] = vint(1); ps->v["P.V"] = vint(1); ps->v["P.I"] = vint(1); }); CHECK(!k_reg(p, PE), "register%s", info.c_str()); }
  void up() { rt = scn_start_router(); p = pc_new("P"); c = pc_new("C"); b = pc_new("B"); setupP(); CHECK(!k_reg(b, {"B.A:pgs"}) && !k_reg(c, {"C.A:pgs"}), "register"); uint32_t inst; CHECK(!c_add(b, "P.T.", nullptr, &inst), "add");
    CHECK(!c_sub(c, "P.E2!", 1) && !c_sub(c, "P.V", 2), "subscribe"); SubX x; x.name = "P.I"; x.interval = 2; x.ud = 3; CHECK(!c_subx(c, x), "subscribe"); CHECK(!c_sub(b, "P.E!", 4), "subscribe"); mc_settle(); }
  /* a component with a direct connection is told when others die */
  rbusHandle_t dh = nullptr; void watch() { rbusHandle_t h = p.h, d = nullptr; rbusError_t e; call(p.proc, [&] { e = rbus_openDirect(h, &d, "B.A"); }); CHECK(!e, "open direct gives %s", en(e)); dh = d; mc_settle(); }
  void unwatch() { rbusHandle_t d = dh; rbusError_t e; call(p.proc, [&] { e = rbus_closeDirect(d); }); CHECK(!e, "close direct gives %s%s", en(e), info.c_str()); dh = nullptr; }
  void works(PC& a, const char* who) { /* everything works for a at P */
    Str r = c_get(a, "P.A"); CHECK(r.find("ok:") == 0, "%s: get gives %s%s", who, r.c_str(), info.c_str()); rbusError_t e = c_seti(a, "P.A", 5); CHECK(!e, "%s: set gives %s%s", who, en(e), info.c_str()); r = c_inv(a, "P.M()", nullptr); CHECK(r.find("SUCCESS") == 0, "%s: invoke gives %s%s", who, r.c_str(), info.c_str()); uint32_t i = 0; e = c_add(a, "P.T.", nullptr, &i); CHECK(!e && i, "%s: add gives %s%s", who, en(e), info.c_str()); e = c_rem(a, fmt("P.T.%u", i)); CHECK(!e, "%s: remove gives %s%s", who, en(e), info.c_str()); } };
static const char* OP17[] = {"get", "set", "invoke", "subscribe", "unsubscribe", "subscribe to a value", "add a row", "remove a row", "invoke asynchronously", "ask for the owner", "close", "subscribe asynchronously", "P publishes", "P registers", "P unregisters", "P registers a row", "P closes", "nothing"};
static rbusError_t do17(int op, rbusHandle_t h) { rbusError_t e = RBUS_ERROR_SUCCESS; uint32_t inst; rbusEventSubscription_t x; memset(&x, 0, sizeof x);
  switch (op) {
    case 0: { rbusValue_t v = nullptr; e = rbus_get(h, "P.A", &v); if (!e) rbusValue_Release(v); return e; }
    case 1: { rbusValue_t v = vint(2); e = rbus_set(h, "P.A", v, nullptr); rbusValue_Release(v); return e; }
    case 2: { rbusObject_t o = nullptr; e = rbusMethod_Invoke(h, "P.M()", nullptr, &o); if (o) rbusObject_Release(o); return e; }
    case 3: return rbusEvent_Subscribe(h, "P.E!", evh17, (void*)5, 0);
    case 4: return rbusEvent_Unsubscribe(h, "P.E2!");
    case 5: return rbusEvent_Subscribe(h, "P.A", evh17, (void*)6, 0);
    case 6: return rbusTable_addRow(h, "P.T.", nullptr, &inst);
    case 7: return rbusTable_removeRow(h, "P.T.1");
    case 8: return rbusMethod_InvokeAsync(h, "P.M()", nullptr, amet17, 0);
    case 9: { const char* n = "P.A"; int k = 0; char** l = nullptr; e = rbus_discoverComponentName(h, 1, &n, &k, &l); for (int i = 0; i < k; i++) free(l[i]); free(l); return e; }
    case 10: return rbus_close(h);
    case 11: x.eventName = "P.E!"; x.handler = (void*)evh17; x.userData = (void*)7; return rbusEvent_SubscribeExAsync(h, &x, 1, k_ash, 5);
    case 12: { rbusObject_t o; rbusObject_Init(&o, nullptr); rbusEvent_t ev; memset(&ev, 0, sizeof ev); ev.name = "P.E2!"; ev.type = RBUS_EVENT_GENERAL; ev.data = o; e = rbusEvent_Publish(h, &ev); rbusObject_Release(o); return e; }
    case 13: { Elems q({"P.X:pg", "P.Y:pg"}); return rbus_regDataElements(h, 2, q.e.data()); }
    case 14: { Elems q({"P.A:pgs"}); return rbus_unregDataElements(h, 1, q.e.data()); }
    case 15: return rbusTable_registerRow(h, "P.T.", 7, nullptr);
    case 16: return rbus_close(h);
    default: return e; } }
/* a component dies at any point of an operation in progress */
SCN(p17_death) {
  int op = mc_choose(18, "operation"), vic = mc_choose(3, "victim"), watch = vic == 0; if (vic == 2) vic = 0; if (watch && op == 16) return; W17 w; w.info = fmt(" (%s dies; %s%s)", vic ? "P" : "C", OP17[op], watch ? "; P is told of deaths" : ""); w.up(); if (watch) w.watch(); PC& a = op >= 12 ? w.p : w.c; PC& v = vic ? w.p : w.c; rbusHandle_t h = a.h; rbusError_t e = RBUS_ERROR_SUCCESS; rbusError_t* pe = &e; w.b.s->takeev();
  if (op == 7) { uint32_t i; (void)i; }
  mc_window(1); mc_crashable(v.proc, 1); int64_t t0 = mc_now_us(); int t = async(a.proc, [op, h, pe] { *pe = do17(op, h); }); bool j = mc_joinable_within(t, op == 10 ? 20000 : 61000); mc_settle(); mc_window(0); mc_crashable(v.proc, 0); int64_t dt = mc_now_us() - t0;
  bool cr = mc_crashed() > 0, self = (op >= 12) == (vic == 1); CHECK(j || (cr && self), "the call did not return%s", w.info.c_str()); if (!cr) mc_kill(v.proc); mc_sleep_ms(100); mc_settle(); w.info += cr ? " (at a crash point)" : " (afterwards)"; if (!self || !cr) w.info += fmt(" result %s after %.3f s", en(e), (double)dt / 1e6);
  if (!vic) { /* C is gone */
    bool pclosed = op == 16; if (pclosed) { comp_open(w.p); CHECK(!k_reg(w.p, PE), "register again%s", w.info.c_str()); mc_sleep_ms(3000); mc_settle(); }
    StrV log = w.p.s->log; if (watch) { for (const char* n : {"P.E2!"}) CHECK(net(log, n) == 0, "%d subscriptions of the dead consumer to %s remain%s", net(log, n), n, w.info.c_str()); CHECK(net(log, "P.E!") == 1, "the subscribe handler of P.E! ran %d times more than it should, for one subscriber%s", net(log, "P.E!"), w.info.c_str()); }
    if (op == 14) CHECK(!k_reg(w.p, {"P.A:pgs"}), "register again%s", w.info.c_str());
    w.p.s->take(); if (watch) { mc_sleep_ms(9000); mc_settle(); log = w.p.s->take(); CHECK(!cntlog(log, "get "), "values are still polled for a dead consumer: %s%s", join(log).c_str(), w.info.c_str()); }
    w.b.s->takeev(); rbusError_t q = c_pubi(w.p, "P.E2!", 1); CHECK(q == RBUS_ERROR_NOSUBSCRIBERS || (!watch && !q), "publishing P.E2!, which only the dead consumer subscribed to, gives %s%s", en(q), w.info.c_str()); q = c_pubi(w.p, "P.E!", 2); mc_settle(); CHECK(!q && nev17(w.b, 4) == 1, "%d events at the other subscriber (%s)%s", nev17(w.b, 4), en(q), w.info.c_str());
    w.works(w.b, "other consumer"); Str r = c_who(w.b, {"C.A"}); CHECK(r == "ok:" || r == "ELEMENT_DOES_NOT_EXIST", "the owner of an element of the dead component is %s%s", r.c_str(), w.info.c_str()); int64_t t1 = mc_now_us(); r = c_get(w.b, "C.A"); CHECK(r.find("ok:") && mc_now_us() - t1 < 1000000, "get of an element of the dead component gives %s after %.3f s%s", r.c_str(), (double)(mc_now_us() - t1) / 1e6, w.info.c_str());
    w.c = pc_new("C"); CHECK(!k_reg(w.c, {"C.A:pgs"}), "the restarted component cannot register%s", w.info.c_str()); CHECK(!c_sub(w.c, "P.E2!", 1) && !c_sub(w.c, "P.V", 2), "the restarted component cannot subscribe%s", w.info.c_str()); r = c_get(w.b, "C.A"); CHECK(r.find("ok:") == 0, "get of the restarted component gives %s%s", r.c_str(), w.info.c_str()); q = c_pubi(w.p, "P.E2!", 1); mc_settle(); CHECK(!q && nev17(w.c, 1) == 1, "%d events at the restarted subscriber (%s)%s", nev17(w.c, 1), en(q), w.info.c_str());
    w.c.s->takeev(); call(w.p.proc, [] { ps->v["P.V"] = vint(9); }); mc_sleep_ms(4200); mc_settle(); CHECK(nev17(w.c, 2) == 1, "%d value changes at the restarted subscriber%s", nev17(w.c, 2), w.info.c_str()); w.works(w.c, "restarted"); }
  else { Str r; int64_t t1; if (op == 10) comp_open(w.c);
    for (const char* n : {"P.A", "P.T.1.N"}) { t1 = mc_now_us(); r = c_get(w.b, n); CHECK(r.find("ok:") && mc_now_us() - t1 < 1000000, "get of %s of the dead provider gives %s after %.3f s%s", n, r.c_str(), (double)(mc_now_us() - t1) / 1e6, w.info.c_str()); } r = c_who(w.b, {"P.A"}); CHECK(r == "ok:" || r == "ELEMENT_DOES_NOT_EXIST", "the owner of an element of the dead component is %s%s", r.c_str(), w.info.c_str());
    r = c_get(w.c, "B.A"); CHECK(r.find("ok:") == 0, "get from another provider gives %s%s", r.c_str(), w.info.c_str()); r = c_inv(w.b, "P.M()", nullptr); CHECK(r.find("SUCCESS"), "invoking a method of the dead provider gives %s%s", r.c_str(), w.info.c_str());
    w.p = pc_new("P"); w.setupP(); mc_settle(); w.works(w.b, "other consumer"); w.works(w.c, "consumer"); w.b.s->takeev(); w.c.s->takeev(); rbusError_t q = c_pubi(w.p, "P.E!", 2); mc_settle(); CHECK(!q && nev17(w.b, 4) == 1, "%d events after the restart of the provider (%s)%s", nev17(w.b, 4), en(q), w.info.c_str());
    if (op != 10 && op != 4) { q = c_pubi(w.p, "P.E2!", 2); mc_settle(); CHECK(!q && nev17(w.c, 1) == 1, "%d events after the restart of the provider (%s)%s", nev17(w.c, 1), en(q), w.info.c_str()); call(w.p.proc, [] { ps->v["P.V"] = vint(9); }); mc_sleep_ms(4200); mc_settle(); CHECK(nev17(w.c, 2) == 1, "%d value changes after the restart of the provider%s", nev17(w.c, 2), w.info.c_str()); int n = nev17(w.c, 3); CHECK(n >= 1 && n <= 3, "%d interval events in 4.2 s after the restart of the provider%s", n, w.info.c_str()); }
    if (op != 10) CHECK(!comp_close(w.c), "close%s", w.info.c_str()); }
  if (watch) w.unwatch(); CHECK(!comp_close(w.b) && !comp_close(w.p), "close%s", w.info.c_str()); CHECK(!mc_misuse(), "%s%s", mc_misuse_text(), w.info.c_str()); mc_outcome("%d %d %d", op, vic, (int)e); }
/* the broker dies idle or during an operation, once or twice, and comes back */
static int stray17(PC& c) { int n = (int)c.s->ev.size(); c.s->ev.clear(); return n; }
static const int RD17[] = {0, 1500, 7000, 40000};
static void back17(W17& w, int ms, int again) { /* bring the broker back */
  if (ms) mc_sleep_ms(ms); w.rt = scn_start_router(); if (again) { mc_kill(w.rt); mc_sleep_ms(again == 1 ? 300 : 9000); w.rt = scn_start_router(); } mc_sleep_ms(35000); mc_settle(); }
static void after17(W17& w) { rbusError_t q; Str r; int64_t t0;
  for (PC* x : {&w.p, &w.c, &w.b}) stray17(*x);
  for (int i = 0; i < 2; i++) { q = c_pubi(w.p, "P.E!", 2 + i); mc_settle(); CHECK(!q && nev17(w.b, 4) == 1, "%d events at B (%s)%s", nev17(w.b, 4), en(q), w.info.c_str()); q = c_pubi(w.p, "P.E2!", 2 + i); mc_settle(); CHECK(!q && nev17(w.c, 1) == 1, "%d events at C (%s)%s", nev17(w.c, 1), en(q), w.info.c_str()); stray17(w.b); stray17(w.c); }
  call(w.p.proc, [] { ps->v["P.V"] = vint(9); }); mc_sleep_ms(4200); mc_settle(); CHECK(nev17(w.c, 2) == 1, "%d value changes%s", nev17(w.c, 2), w.info.c_str()); int n = nev17(w.c, 3); CHECK(n >= 1 && n <= 3, "%d interval events in 4.2 s%s", n, w.info.c_str());
  t0 = mc_now_us(); r = c_get(w.b, "P.A"); CHECK(mc_now_us() - t0 < 16000000, "get took %.3f s%s", (double)(mc_now_us() - t0) / 1e6, w.info.c_str());
  { rbusCoreError_t ce = RBUSCORE_SUCCESS; int32_t rc = -1; call(w.c.proc, [&] { rbusMessage m, rsp = nullptr; rbusMessage_Init(&m); rbusMessage_SetString(m, "C"); rbusMessage_SetInt32(m, 1); rbusMessage_SetString(m, "P.A"); ce = rbus_invokeRemoteMethod("P", METHOD_GETPARAMETERVALUES, m, 5000, &rsp); if (!ce && rsp) { rbusMessage_GetInt32(rsp, &rc); rbusMessage_Release(rsp); } }); CHECK(!ce && (rc == 0 || rc == 100), "a request to the address of P gives %d/%d%s", (int)ce, rc, w.info.c_str()); }
  CHECK(!k_reg(w.p, {"P.N1:pgs", "P.N2!:ee"}), "register%s", w.info.c_str()); r = c_get(w.c, "P.N1"); CHECK(r.find("ok:") == 0 || r.find("ELEMENT") != Str::npos || r == "null", "get of a newly registered element gives %s%s", r.c_str(), w.info.c_str()); CHECK(!c_seti(w.b, "P.N1", 3), "set of a newly registered element%s", w.info.c_str()); r = c_get(w.c, "P.N1"); CHECK(r.find("ok:") == 0, "get of a newly registered element gives %s%s", r.c_str(), w.info.c_str());
  q = c_sub(w.b, "P.N2!", 8); CHECK(!q, "subscribe gives %s%s", en(q), w.info.c_str()); q = c_pubi(w.p, "P.N2!", 1); mc_settle(); CHECK(!q && nev17(w.b, 8) == 1, "%d events of a newly registered event%s", nev17(w.b, 8), w.info.c_str());
  PC d = pc_new("D"); CHECK(!k_reg(d, {"D.A:pgs"}), "a new component cannot register%s", w.info.c_str()); r = c_get(w.b, "D.A"); CHECK(r.find("ok:") == 0 || r == "null", "get from a new component gives %s%s", r.c_str(), w.info.c_str()); r = c_get(d, "P.N1"); CHECK(r.find("ok:") == 0, "get by a new component gives %s%s", r.c_str(), w.info.c_str()); CHECK(!comp_close(d), "close%s", w.info.c_str()); }
SCN(p17_router) {
  int op = mc_choose(18, "operation"), rd = mc_choose(4, "broker back after"), again = mc_choose(3, "dies again"); if (op == 16 || op == 10 || op == 14 || op == 4) return; W17 w; w.info = fmt(" (broker dies, back after %g s%s; %s)", RD17[rd] / 1e3, again == 2 ? ", dies again at once for 9 s" : again ? ", dies again at once for 0.3 s" : "", OP17[op]); w.up(); PC& a = op >= 12 ? w.p : w.c; rbusHandle_t h = a.h; rbusError_t e = RBUS_ERROR_SUCCESS; rbusError_t* pe = &e; w.b.s->takeev();
  mc_window(1); mc_crashable(w.rt, 1); int64_t t0 = mc_now_us(); int t = async(a.proc, [op, h, pe] { *pe = do17(op, h); }); bool j = mc_joinable_within(t, 100); mc_settle(); mc_window(0); mc_crashable(w.rt, 0); bool cr = mc_crashed() > 0; if (!cr) { CHECK(j, "the call did not return%s", w.info.c_str()); mc_kill(w.rt); } w.info += cr ? " (at a crash point)" : " (afterwards)";
  back17(w, RD17[rd], again); if (!j) j = mc_joinable_within(t, 65000); CHECK(j, "the call did not return%s", w.info.c_str()); w.info += fmt(" result %s", en(e)); (void)t0; mc_settle();
  after17(w); for (PC* x : {&w.c, &w.b, &w.p}) CHECK(!comp_close(*x), "close%s", w.info.c_str()); CHECK(!mc_misuse(), "%s%s", mc_misuse_text(), w.info.c_str()); mc_outcome("%d %d %d %d", op, rd, again, (int)e); }
/* the broker dies, and again at any point of the reconnection of the components to the new one */
SCN(p17_again) {
  int op = mc_param("few", 0) ? mc_choose(2, "operation") : mc_choose(4, "operation"), rd = mc_choose(2, "broker back after"); static const int O[] = {17, 0, 3, 12}; op = O[op]; W17 w; w.info = fmt(" (broker dies, back after %g s, dies again; %s)", rd ? 1.5 : 0.1, OP17[op]); w.up(); PC& a = op >= 12 ? w.p : w.c; rbusHandle_t h = a.h; rbusError_t e = RBUS_ERROR_SUCCESS; rbusError_t* pe = &e; mc_kill(w.rt); w.b.s->takeev();
  int t = async(a.proc, [op, h, pe] { *pe = do17(op, h); }); mc_sleep_ms(rd ? 1500 : 100); w.rt = scn_start_router(); mc_window(1); mc_crashable(w.rt, 1); mc_sleep_ms(12000); mc_settle(); mc_window(0); mc_crashable(w.rt, 0); bool cr = mc_crashed() > 0; if (cr) { w.info += " (at a crash point)"; mc_sleep_ms(2000); w.rt = scn_start_router(); } mc_sleep_ms(35000); mc_settle();
  bool j = mc_joinable_within(t, 65000); CHECK(j, "the call did not return%s", w.info.c_str()); after17(w); for (PC* x : {&w.c, &w.b, &w.p}) CHECK(!comp_close(*x), "close%s", w.info.c_str()); CHECK(!mc_misuse(), "%s%s", mc_misuse_text(), w.info.c_str()); mc_outcome("%d %d %d", op, rd, (int)e); }
/* the connection of one component breaks at any point while the broker lives */
SCN(p17_cut) {
  int op = mc_choose(18, "operation"), vic = mc_choose(3, "component"); if (op == 16 || op == 10 || op == 14 || op == 4) return; W17 w; w.info = fmt(" (connection of %s breaks; %s)", vic == 0 ? "C" : vic == 1 ? "P" : "B", OP17[op]); w.up(); PC& a = op >= 12 ? w.p : w.c; PC& v = vic == 0 ? w.c : vic == 1 ? w.p : w.b; rbusHandle_t h = a.h; rbusError_t e = RBUS_ERROR_SUCCESS; rbusError_t* pe = &e; w.b.s->takeev();
  mc_window(1); mc_cuttable(v.proc, 1); int t = async(a.proc, [op, h, pe] { *pe = do17(op, h); }); bool j = mc_joinable_within(t, 100); mc_settle(); mc_window(0); mc_cuttable(v.proc, 0); mc_sleep_ms(35000); mc_settle(); if (!j) j = mc_joinable_within(t, 65000); CHECK(j, "the call did not return%s", w.info.c_str()); w.info += fmt(" result %s", en(e));
  after17(w); for (PC* x : {&w.c, &w.b, &w.p}) CHECK(!comp_close(*x), "close%s", w.info.c_str()); CHECK(!mc_misuse(), "%s%s", mc_misuse_text(), w.info.c_str()); mc_outcome("%d %d %d", op, vic, (int)e); }
/* known finding: a provider that is not told of deaths keeps the subscriptions of a dead consumer */
SCN(p17_stale) {
  W17 w; w.up(); mc_kill(w.c.proc); mc_sleep_ms(100); mc_settle(); w.p.s->take(); mc_sleep_ms(9000); mc_settle(); StrV log = w.p.s->take(); rbusError_t q = c_pubi(w.p, "P.E2!", 1); 
  CHECK(q == RBUS_ERROR_NOSUBSCRIBERS && !cntlog(log, "get "), "stale subscriptions: without direct connections a provider keeps the subscriptions of a dead consumer: publishing gives %s, %d polls in 9 s", en(q), cntlog(log, "get ")); mc_outcome("%d", (int)q); }
