/* P10: value-change and filter subscriptions */
#include "kit.h"
#include "vals.h"
/* ---- filters with their reference meaning ---- */
struct F10 { int op, a, b; };                    /* op 0-5: relation with reference value a; 6 and, 7 or, 8 not: filters a, b */
static bool verdict(const std::vector<F10>& f, int i, const RV& v, const std::vector<RV>& ref) { const F10& x = f[i]; if (x.op >= 6) return x.op == 6 ? verdict(f, x.a, v, ref) && verdict(f, x.b, v, ref) : x.op == 7 ? verdict(f, x.a, v, ref) || verdict(f, x.b, v, ref) : !verdict(f, x.a, v, ref);
  int c = refcmp(v, ref[x.a]); switch (x.op) { case 0: return c > 0; case 1: return c >= 0; case 2: return c < 0; case 3: return c <= 0; case 4: return c == 0; default: return c != 0; } }
static rbusFilter_t mkf(const std::vector<F10>& f, int i, const std::vector<RV>& ref) { const F10& x = f[i]; rbusFilter_t r; if (x.op >= 6) { rbusFilter_t a = mkf(f, x.a, ref), b = x.op == 8 ? nullptr : mkf(f, x.b, ref); rbusFilter_InitLogic(&r, x.op == 6 ? RBUS_FILTER_OPERATOR_AND : x.op == 7 ? RBUS_FILTER_OPERATOR_OR : RBUS_FILTER_OPERATOR_NOT, a, b); rbusFilter_Release(a); if (b) rbusFilter_Release(b); return r; }
  rbusValue_t v = mk(ref[x.a]); rbusFilter_InitRelation(&r, (rbusFilter_RelationOperator_t)(RBUS_FILTER_OPERATOR_GREATER_THAN + x.op), v); rbusValue_Release(v); return r; }
static Str fstr(const std::vector<F10>& f, int i) { if (i < 0) return "none"; const F10& x = f[i]; static const char* o[] = {">", ">=", "<", "<=", "==", "!="}; return x.op < 6 ? fmt("%s#%d", o[x.op], x.a) : x.op == 8 ? "not(" + fstr(f, x.a) + ")" : "(" + fstr(f, x.a) + (x.op == 6 ? " and " : " or ") + fstr(f, x.b) + ")"; }
/* what a handler saw: "ud type old>new verdict" */
static Str vs(rbusObject_t o, const char* k) { rbusValue_t v = o ? rbusObject_GetValue(o, k) : nullptr; return v ? vstr(v) : Str("-"); }
static void h10(rbusHandle_t, rbusEvent_t const* e, rbusEventSubscription_t* s) { ps->ev.push_back(fmt("%ld t%d %s>%s f:%s i:%s", (long)(intptr_t)s->userData, (int)e->type, vs(e->data, "oldValue").c_str(), vs(e->data, "value").c_str(), vs(e->data, "filter").c_str(), vs(e->data, "initialValue").c_str())); }
static Str want10(long ud, const Str& o, const Str& n, int f) { return fmt("%ld t%d %s>%s f:%s i:-", ud, (int)RBUS_EVENT_VALUE_CHANGED, o.c_str(), n.c_str(), f < 0 ? "-" : f ? "bool:1" : "bool:0"); }
static rbusError_t sub10(PC& c, const Str& n, rbusFilter_t f, long ud, bool pos = false) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = n.c_str(); x.filter = f; x.handler = (void*)h10; x.userData = (void*)(intptr_t)ud; x.publishOnSubscribe = pos; e = rbusEvent_SubscribeEx(h, &x, 1, -1); }); return e; }
static rbusError_t unsub10(PC& c, const Str& n, rbusFilter_t f) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = n.c_str(); x.filter = f; x.handler = (void*)h10; e = rbusEvent_UnsubscribeEx(h, &x, 1); }); return e; }
static void put(PC& p, const Str& n, const RV& r) { auto& x = p.s->v[n]; call(p.proc, [&] { if (x) rbusValue_Release(x); x = mk(r); }); }
static rbusError_t pubvc(PC& p, const Str& n, const RV& o, const RV& v) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = p.h; call(p.proc, [&] { rbusObject_t d; rbusObject_Init(&d, nullptr); rbusValue_t a = mk(o), b = mk(v); rbusObject_SetValue(d, "value", b); rbusObject_SetValue(d, "oldValue", a); rbusValue_Release(a); rbusValue_Release(b); rbusEvent_t ev; memset(&ev, 0, sizeof ev); ev.name = n.c_str(); ev.type = RBUS_EVENT_VALUE_CHANGED; ev.data = d; e = rbusEvent_Publish(h, &ev); if (rbusObject_GetValue(d, "filter")) mc_fail("publishing changes the publisher's own event data"); rbusObject_Release(d); }); return e; }
static Str rstr(const RV& r) { rbusValue_t v = mk(r); Str s = vstr(v); rbusValue_Release(v); return s; }
/* every transition between boundary values of every type, with every filter subscribed at the same time between unfiltered subscriptions */
SCN(p10_filter) { int mode = mc_choose(3, "polled/published/wildcard"); std::vector<RV> all = rvs(); std::vector<std::vector<RV>> by; for (auto& r : all) { if (by.empty() || by.back()[0].t != r.t) by.push_back({}); by.back().push_back(r); } int t = mc_choose((int)by.size(), "type"), chunk = mc_choose(7, "filters"), part = chunk > 2; std::vector<RV>& v = by[t]; int n = (int)v.size();
  std::vector<F10> f; std::vector<int> use; int lo = 0, hi = n - 1; while (hi > 0 && !refcmp(v[hi], v[lo])) hi--; if (part == 0) { for (int op = 0; op < 6; op++) for (int r = 0; r < n; r++) { bool dup = false; for (int q = 0; q < r; q++) if (!refcmp(v[q], v[r])) dup = true; if (dup) continue; use.push_back((int)f.size()); f.push_back({op, r, 0}); } } else { f = {{0, lo, 0}, {2, hi, 0}, {4, lo, 0}, {5, hi, 0}}; for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int k = 0; k < 5; k++) { int z; switch (k) { case 0: f.push_back({6, a, b}); break; case 1: f.push_back({7, a, b}); break; case 2: f.push_back({6, a, b}); z = (int)f.size() - 1; f.push_back({8, z, 0}); break; case 3: f.push_back({8, a, 0}); z = (int)f.size() - 1; f.push_back({7, z, b}); break; case 4: f.push_back({7, a, b}); z = (int)f.size() - 1; f.push_back({8, a, 0}); f.push_back({6, z, z + 1}); break; } use.push_back((int)f.size() - 1); } for (int a = 0; a < 4; a++) { f.push_back({8, a, 0}); use.push_back((int)f.size() - 1); } }
  /* a consumer that has 30 unprocessed messages loses further ones by design: at most 28 filters at a time */ { int z = part ? chunk - 3 : chunk, w = 28; if (z * w >= (int)use.size()) return; use = std::vector<int>(use.begin() + z * w, use.begin() + std::min((int)use.size(), z * w + w)); }
  scn_start_router(); PC p = pc_new("prov"), c = pc_new("c1"), d = pc_new("c2"); p.s->logget = p.s->logsub = 0; p.s->autopub = mode == 1 ? 0 : 1; Str nm = mode == 2 ? "P.T.1.A" : "P.A", sn = mode == 2 ? "P.T.*.A" : nm; CHECK(!k_reg(p, {"P.A:pgse", "P.T.{i}.:tar", "P.T.{i}.A:pgse"}), "register"); if (mode == 2) { rbusHandle_t hp = p.h; call(p.proc, [&] { rbusTable_registerRow(hp, "P.T.", 1, nullptr); rbusTable_registerRow(hp, "P.T.", 2, nullptr); }); put(p, "P.T.2.A", v[0]); }
  put(p, nm, v[0]); int cur = 0; int N = (int)use.size(); CHECK(!sub10(d, sn, nullptr, 9000), "subscribe");
  for (int i = 0; i < N; i++) { call(c.proc, [&] { }); rbusFilter_t ff; Str who; call(c.proc, [&] { ff = mkf(f, use[i], v); }); rbusError_t e = sub10(i % 7 == 3 ? d : c, sn, ff, i); call(c.proc, [&] { rbusFilter_Release(ff); }); CHECK(!e, "subscribing with filter %s gives %s", fstr(f, use[i]).c_str(), en(e)); }
  CHECK(!sub10(c, sn, nullptr, 9001), "subscribe"); if (mode != 1) mc_sleep_ms(1000); mc_settle(); CHECK(c.s->ev.empty() && d.s->ev.empty(), "events without a change");
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < 2; k++) { int to = k ? j : i; put(p, nm, v[to]); if (mode == 1) CHECK(!pubvc(p, nm, v[cur], v[to]), "publish"); else mc_sleep_ms(2000); mc_settle(); StrV got = c.s->takeev(), g2 = d.s->takeev(), want; got.insert(got.end(), g2.begin(), g2.end()); Str o = rstr(v[cur]), w = rstr(v[to]);
    if (mode == 1 || refcmp(v[cur], v[to])) { want.push_back(want10(9000, o, w, -1)); want.push_back(want10(9001, o, w, -1)); for (int q = 0; q < N; q++) { bool x = verdict(f, use[q], v[cur], v), y = verdict(f, use[q], v[to], v); if (x != y) want.push_back(want10(q, o, w, y)); } }
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); if (got != want) { for (auto& x : want) if (!std::count(got.begin(), got.end(), x)) { Str ex = fmt("got %zu want %zu ", got.size(), want.size()); for (auto& y : want) if (!std::count(got.begin(), got.end(), y)) ex += fmt("M%d ", atoi(y.c_str())); for (auto& y : got) if (!std::count(want.begin(), want.end(), y)) ex += y + "; "; mc_fail("change %s -> %s: missing [%s] filter %s (mode %d), unexpected [%s]", o.c_str(), w.c_str(), x.c_str(), atoi(x.c_str()) < N ? fstr(f, use[atoi(x.c_str())]).c_str() : "none", mode, ex.c_str()); } for (auto& x : got) if (!std::count(want.begin(), want.end(), x)) mc_fail("change %s -> %s: unexpected [%s] filter %s (mode %d)", o.c_str(), w.c_str(), x.c_str(), atoi(x.c_str()) < N ? fstr(f, use[atoi(x.c_str())]).c_str() : "none", mode); mc_fail("change %s -> %s: repeated events (mode %d)", o.c_str(), w.c_str(), mode); } cur = to; mc_count(0, 1); }
  if (mode != 2) { rbusFilter_t ff; call(d.proc, [&] { ff = mkf(f, use[0], v); }); CHECK(!unsub10(c, sn, nullptr), "unsubscribe"); CHECK(!sub10(c, sn, nullptr, 9002, true), "subscribe"); CHECK(!sub10(d, sn, ff, 9003, true), "subscribe"); mc_settle(); StrV a = c.s->takeev(), b = d.s->takeev(); Str iv = fmt(" t%d ->- f:- i:", (int)RBUS_EVENT_INITIAL_VALUE) + rstr(v[cur]); CHECK(a.size() == 1 && a[0] == "9002" + iv && b.size() == 1 && b[0] == "9003" + iv, "initial value: got [%s] [%s], expected %s", join(a).c_str(), join(b).c_str(), iv.c_str()); }
  mc_outcome("%d %d %d", mode, t, chunk); }
/* every history of subscribe, unsubscribe and value changes: polls after each operation */
struct W10 { PC p, c[3]; bool sub[5]; Str h; int val, known, bad; std::vector<F10> f; std::vector<RV> ref; StrV want; bool begun = false; std::set<Str> may;
  /* subscriptions: 0 plain c0, 1 >4 c0, 2 >4 c2, 3 not(>4) c1, 4 plain c2 */
  int who(int s) { return s < 2 ? 0 : s == 3 ? 1 : 2; } int fil(int s) { return s == 1 || s == 2 ? 0 : s == 3 ? 1 : -1; } bool any() { for (bool b : sub) if (b) return true; return false; }
  void up() { for (int i : {0, 4, 5, 9}) { RV r; r.cls = 0; r.t = RBUS_INT32; r.i = i; ref.push_back(r); } f = {{0, 1, 0}, {8, 0, 0}}; scn_start_router(); p = pc_new("prov"); c[0] = pc_new("c1"); c[1] = c[0]; c[1].name = "c1b"; comp_open(c[1]); c[2] = pc_new("c2"); }
  void begin() { if (begun) { for (auto& x : c) comp_close(x); comp_close(p); comp_open(p); for (auto& x : c) comp_open(x); } begun = true; memset(sub, 0, sizeof sub); h = ""; val = 0; known = -1; bad = 0; p.s->autopub = 1; p.s->logget = p.s->logsub = 0; p.s->geterr.clear(); put(p, "P.A", ref[0]); CHECK(!k_reg(p, {"P.A:pgse"}), "register"); for (auto& x : c) x.s->ev.clear(); }
  void poll() { mc_sleep_ms(2000); mc_settle(); StrV got = c[0].s->takeev(), g2 = c[2].s->takeev(), want; got.insert(got.end(), g2.begin(), g2.end()); if (!bad && any() && known == -2) known = val; if (!bad && known >= 0 && any() && known != val) { for (int s = 0; s < 5; s++) if (sub[s]) { Str o = rstr(ref[known]), w = rstr(ref[val]); if (fil(s) < 0) want.push_back(want10(s, o, w, -1)); else { bool x = verdict(f, fil(s), ref[known], ref), y = verdict(f, fil(s), ref[val], ref); if (x != y) want.push_back(want10(s, o, w, y)); } } known = val; }
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); CHECK(got == want, "got [%s], expected [%s]%s", join(got).c_str(), join(want).c_str(), h.c_str()); }
  enum { NOP = 18 };
  bool op(int k, bool last) { rbusFilter_t ff = nullptr; if (k < 10) { int s = k % 5; int n = who(s); if (k >= 5 && !sub[s] && !last) return false; if (fil(s) >= 0) call(c[n].proc, [&] { ff = mkf(f, fil(s), ref); }); rbusError_t e = k < 5 ? sub10(c[n], "P.A", ff, s) : unsub10(c[n], "P.A", ff); if (ff) call(c[n].proc, [&] { rbusFilter_Release(ff); }); h += fmt("; %s %d", k < 5 ? "subscribe" : "unsubscribe", s);
      if (k < 5) { CHECK(e == (sub[s] ? RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST : RBUS_ERROR_SUCCESS), "subscribing gives %s%s", en(e), h.c_str()); if (!sub[s]) { if (!any()) known = bad ? -2 : val; sub[s] = true; } } else { CHECK(!e == sub[s], "unsubscribing gives %s%s", en(e), h.c_str()); sub[s] = false; if (!any()) known = -1; } return true; }
    if (k < 14) { h += fmt("; value %d", (int)ref[k - 10].i); put(p, "P.A", ref[k - 10]); val = k - 10; return true; }
    if (k < 16) { int i = k == 14 ? 3 : 0; h += fmt("; set %d", (int)ref[i].i); rbusError_t e = c_seti(c[2], "P.A", (int)ref[i].i); CHECK(!e, "set gives %s%s", en(e), h.c_str()); val = i; return true; }
    if (k == 16) { h += "; value 9 and back"; put(p, "P.A", ref[3]); mc_settle(); put(p, "P.A", ref[val]); return true; }
    h += bad ? "; readable" : "; unreadable"; bad = !bad; if (bad) p.s->geterr["P.A"] = RBUS_ERROR_BUS_ERROR; else p.s->geterr.clear(); return true; } };
SCN(p10_hist) { int depth = (int)mc_param("depth", 3), fst = mc_choose(W10::NOP, "first"), snd = mc_choose(W10::NOP, "second"); W10 w; w.up(); for (Odo od; od.more();) { w.begin(); bool ok = true; for (int i = 0; ok && i < depth; i++) { ok = w.op(i == 0 ? fst : i == 1 ? snd : od.choose(W10::NOP), i == depth - 1); if (ok) w.poll(); } if (!ok) continue; mc_count(0, 1); put(w.p, "P.A", w.ref[(w.val + 2) % 4]); w.val = (w.val + 2) % 4; w.h += "; change"; w.poll(); } mc_outcome("%d %d", fst, snd); }
/* the poll that finds a change, against subscriptions coming and going, rows coming and going, sets and closes: every schedule */
SCN(p10_conc) { int mode = mc_choose(9, "mode"), slow = mc_choose(2, "slow get handler"); scn_start_router(); PC p = pc_new("prov"), c = pc_new("c1"), d = pc_new("c2"), q; p.s->logget = p.s->logsub = 0; p.s->autopub = 1; std::vector<RV> v; for (int i : {0, 4, 9, 20}) { RV r; r.cls = 0; r.t = RBUS_INT32; r.i = i; v.push_back(r); } q = p; q.name = "provb"; comp_open(q);
  CHECK(!k_reg(p, {"P.A:pgse", "P.T.{i}.:tar", "P.T.{i}.A:pgse"}) && !k_reg(q, {"Q.A:pgse"}), "register"); rbusHandle_t hp = p.h, hq = q.h, hc = c.h, hd = d.h; call(p.proc, [&] { rbusTable_registerRow(hp, "P.T.", 1, nullptr); rbusTable_registerRow(hp, "P.T.", 2, nullptr); }); for (const char* n : {"P.A", "Q.A", "P.T.1.A", "P.T.2.A", "P.T.3.A"}) put(p, n, v[0]);
  bool row = mode == 3 || mode == 4; Str n = row ? "P.T.*.A" : "P.A"; CHECK(!sub10(c, n, nullptr, 1), "subscribe"); if (mode == 1 || mode == 8) CHECK(!sub10(d, n, nullptr, 2), "subscribe"); if (mode == 7) CHECK(!sub10(d, "Q.A", nullptr, 2), "subscribe"); mc_settle(); if (row) put(p, "P.T.1.A", v[1]); else put(p, "P.A", v[1]); if (mode == 7) put(p, "Q.A", v[1]); if (row) put(p, "P.T.2.A", v[1]);
  if (slow) call(p.proc, [] { ps->get = [](rbusHandle_t, const char* nm, rbusProperty_t pr, rbusGetHandlerOptions_t*) { mc_sleep_ms(4); rbusProperty_SetValue(pr, ps->v[nm]); return RBUS_ERROR_SUCCESS; }; }); /* all wake up at the moment of the poll */ rbusError_t e = RBUS_ERROR_SUCCESS; int t = -1; mc_window(1);
  auto at = [&](int proc, auto g) { return async(proc, [g, &e, slow] { mc_sleep_ms(slow ? 2002 : 2000); e = g(); }); };
  rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = n.c_str(); x.handler = (void*)h10; x.userData = (void*)2; auto* px = &x;
  switch (mode) { case 0: t = at(d.proc, [hd, px] { px->handler = (void*)h10; return rbusEvent_SubscribeEx(hd, px, 1, -1); }); break; case 1: t = at(d.proc, [hd, px] { px->handler = (void*)h10; return rbusEvent_UnsubscribeEx(hd, px, 1); }); break; case 2: t = at(c.proc, [hc, px] { px->handler = (void*)h10; return rbusEvent_UnsubscribeEx(hc, px, 1); }); break; case 3: t = at(p.proc, [hp] { return rbusTable_unregisterRow(hp, "P.T.1"); }); break; case 4: t = at(p.proc, [hp] { return rbusTable_registerRow(hp, "P.T.", 3, nullptr); }); break;
    case 5: t = at(p.proc, [hp] { return rbus_close(hp); }); break; case 6: t = at(d.proc, [hd] { rbusValue_t v9; rbusValue_Init(&v9); rbusValue_SetInt32(v9, 9); rbusError_t r = rbus_set(hd, "P.A", v9, nullptr); rbusValue_Release(v9); return r; }); break; case 7: t = at(p.proc, [hq] { return rbus_close(hq); }); break; case 8: t = at(d.proc, [hd] { return rbus_close(hd); }); break; }
  CHECK(mc_joinable_within(t, 12000), "a call did not return (mode %d)", mode); mc_window(0); CHECK(!e, "the call gives %s (mode %d)", en(e), mode); mc_sleep_ms(2100); mc_settle(); StrV a = c.s->takeev(), b = d.s->takeev(); Str w = want10(1, "i32:0", "i32:4", -1), w2 = want10(2, "i32:0", "i32:4", -1), info = fmt(" (mode %d: [%s] [%s])", mode, join(a).c_str(), join(b).c_str());
  if (mode == 0 || mode == 1 || mode == 7 || mode == 8) CHECK(a.size() == 1 && a[0] == w && b.size() <= 1 && (b.empty() || b[0] == w2), "events%s", info.c_str()); else if (mode == 2 || mode == 5) CHECK(a.size() <= 1 && (a.empty() || a[0] == w), "events%s", info.c_str()); else if (mode == 4) CHECK(a.size() == 2 && a[0] == w && a[1] == w, "events%s", info.c_str()); else if (mode == 3) CHECK((a.size() == 1 || a.size() == 2) && a[0] == w && a.back() == w, "events%s", info.c_str());
  else if (mode == 6) CHECK((a.size() == 1 && a[0] == want10(1, "i32:0", "i32:9", -1)) || (a.size() == 2 && a[0] == w && a[1] == want10(1, "i32:4", "i32:9", -1)), "events%s", info.c_str());
  /* afterwards changes are noticed for exactly the current subscriptions */ if (mode != 5) { if (mode != 8) { Str g = c_get(d, "P.A"); CHECK(g.compare(0, 3, "ok:") == 0, "afterwards a get gives %s%s", g.c_str(), info.c_str()); } if (mode == 2) CHECK(!sub10(c, n, nullptr, 1), "afterwards subscribing fails%s", info.c_str()); mc_settle(); for (const char* z : {"P.A", "Q.A", "P.T.1.A", "P.T.2.A", "P.T.3.A"}) put(p, z, v[3]); mc_sleep_ms(2100); mc_settle(); a = c.s->takeev(); b = d.s->takeev(); info = fmt(" (mode %d: [%s] [%s])", mode, join(a).c_str(), join(b).c_str()); size_t na = mode == 4 ? 3 : mode == 3 ? 1 : 1, nb = mode == 0; CHECK(a.size() == na && b.size() == nb, "afterwards%s", info.c_str()); }
  mc_outcome("%d %zu %zu", mode, a.size(), b.size()); }
/* several polled parameters of two components in one process: each step keeps, changes or makes (un)readable each of them independently; one poll after each step */
SCN(p10_several) { int depth = (int)mc_param("depth", 2), fst = mc_choose(27, "first"), snd = mc_choose(27, "second"), two = mc_choose(2, "owners"); scn_start_router(); PC p = pc_new("prov"), q = p, c = pc_new("c1"), d = pc_new("c2"); if (two) { q.name = "provb"; comp_open(q); } std::vector<RV> v; for (int i : {0, 4, 9}) { RV r; r.cls = 0; r.t = RBUS_INT32; r.i = i; v.push_back(r); } p.s->logget = p.s->logsub = 0; p.s->autopub = 1;
  const char* n[3] = {"P.A", "P.T.1.A", "Q.A"}; CHECK(!k_reg(p, {"P.A:pgse", "P.T.{i}.:tar", "P.T.{i}.A:pgse"}) && !k_reg(q, {"Q.A:pgse"}), "register"); rbusHandle_t hp = p.h; call(p.proc, [&] { rbusTable_registerRow(hp, "P.T.", 1, nullptr); }); int cur[3] = {0, 0, 0}, known[3] = {0, 0, 0}; bool bad[3] = {false, false, false}; for (auto x : n) put(p, x, v[0]);
  for (int i = 0; i < 3; i++) { CHECK(!sub10(i == 1 ? d : c, n[i], nullptr, i), "subscribe"); }
  for (Odo od; od.more();) { Str h; for (int s = 0; s < depth; s++) { int k = s == 0 ? fst : s == 1 ? snd : od.choose(27); for (int i = 0; i < 3; i++, k /= 3) { if (k % 3 == 1) { cur[i] = (cur[i] + 1) % 3; put(p, n[i], v[cur[i]]); h += fmt("; change %s", n[i]); } else if (k % 3 == 2) { bad[i] = !bad[i]; if (bad[i]) p.s->geterr[n[i]] = RBUS_ERROR_BUS_ERROR; else p.s->geterr.erase(n[i]); h += fmt("; %s %sreadable", n[i], bad[i] ? "un" : ""); } }
      StrV want; for (int i = 0; i < 3; i++) if (!bad[i] && cur[i] != known[i]) { want.push_back(want10(i, rstr(v[known[i]]), rstr(v[cur[i]]), -1)); known[i] = cur[i]; } mc_sleep_ms(2000); mc_settle(); StrV got = c.s->takeev(), g2 = d.s->takeev(); got.insert(got.end(), g2.begin(), g2.end()); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); CHECK(got == want, "got [%s], expected [%s]%s (owners %d)", join(got).c_str(), join(want).c_str(), h.c_str(), two + 1); h += " |"; }
    mc_count(0, 1); } mc_outcome("%d %d %d", fst, snd, two); }
