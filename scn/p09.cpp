/* P09: events.  consumers 0 and 1 are two handles of one process, 2 is another process */
#include "kit.h"
static const char* SN[] = {"P.E!", "P.T.1.F!", "P.T.*.F!", "P.T.*.N", "P.T.2.N", "P.T.", "P.T.1.U.*.G!"}; enum { NSN = 7 };
static const char* PN[] = {"P.E!", "P.T.1.F!", "P.T.2.F!", "P.T.1.N", "P.T.2.N", "P.T.3.F!", "P.T.3.N", "P.E2!", "P.Nope!", "P.T.1.U.1.G!"}; enum { NPN = 10 };
struct W9 { PC p, c[3]; bool sub[3][NSN]; std::set<int> rows; Str h; StrV want[3]; bool begun = false;
  void up() { scn_start_router(); p = pc_new("prov"); c[0] = pc_new("c1"); c[1] = c[0]; c[1].name = "c1b"; comp_open(c[1]); c[2] = pc_new("c2"); }
  void begin() { if (begun) { for (auto& x : c) comp_close(x); comp_close(p); comp_open(p); for (auto& x : c) comp_open(x); } begun = true; memset(sub, 0, sizeof sub); rows.clear(); h = ""; for (auto& x : want) x.clear(); p.s->autopub = 0; p.s->suberr.clear(); CHECK(!k_reg(p, {"P.E!:ee", "P.E2!:ee", "P.T.{i}.:tare", "P.T.{i}.N:pgse", "P.T.{i}.F!:ee", "P.T.{i}.U.{i}.:tar", "P.T.{i}.U.{i}.G!:ee"}), "register"); row(1, true, false); row(2, true, false); h = ""; p.s->log.clear(); for (auto& x : c) x.s->ev.clear(); }
  void row(int n, bool add, bool count = true) { h += fmt("; row %d %s", n, add ? "added" : "removed"); rbusHandle_t hh = p.h; rbusError_t e = RBUS_ERROR_SUCCESS; bool had = rows.count(n); call(p.proc, [&] { if (add) { e = rbusTable_registerRow(hh, "P.T.", (uint32_t)n, nullptr); if (!e && n == 1) rbusTable_registerRow(hh, "P.T.1.U.", 1, nullptr); } else { e = rbusTable_unregisterRow(hh, fmt("P.T.%d", n).c_str()); } }); CHECK(!e == (add ? !had : had), "row operation gives %s%s", en(e), h.c_str()); if (e) return; if (add) rows.insert(n); else { rows.erase(n); for (auto& x : sub) { for (int k : {1, 4, 6}) if ((k == 4) == (n == 2) && n < 3 && x[k]) { x[k] = false; stale[&x - sub][k] = true; } } }
    if (count) for (int i = 0; i < 3; i++) if (sub[i][5]) want[i].push_back(fmt("%d|P.T.|%d|", i * 100 + 5, (int)(add ? RBUS_EVENT_OBJECT_CREATED : RBUS_EVENT_OBJECT_DELETED))); }
  bool there(int k) { if (k == 1 || k == 6) return rows.count(1); if (k == 4) return rows.count(2); return true; }
  rbusError_t dosub(int i, int k, int refuse = 0) { h += fmt("; %s subscribes %s%s", c[i].name.c_str(), SN[k], refuse ? " refused" : ""); if (refuse) p.s->suberr[SN[k]] = refuse; p.s->log.clear(); rbusError_t e = c_sub(c[i], SN[k], i * 100 + k, -1); p.s->suberr.clear(); if (sub[i][k]) CHECK(e == RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST, "subscribing again gives %s%s", en(e), h.c_str()); else if (!there(k)) {} else if (refuse) CHECK(e == refuse, "a refused subscription gives %s%s", en(e), h.c_str()); else { if (e == RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST) { CHECK(stale[i][k], "subscribing gives %s%s", en(e), h.c_str()); } else { CHECK(!e, "subscribing gives %s%s", en(e), h.c_str()); sub[i][k] = true; } } return e; }
  bool stale[3][NSN] = {};
  void dounsub(int i, int k) { h += fmt("; %s unsubscribes %s", c[i].name.c_str(), SN[k]); rbusError_t e = c_unsub(c[i], SN[k]); if (sub[i][k]) CHECK(!e, "unsubscribing gives %s%s", en(e), h.c_str()); sub[i][k] = false; stale[i][k] = false; }
  void doclose(int i) { h += fmt("; %s closes and opens", c[i].name.c_str()); comp_close(c[i]); comp_open(c[i]); for (int k = 0; k < NSN; k++) sub[i][k] = stale[i][k] = false; }
  static bool match(int k, int n) { switch (k) { case 0: return n == 0; case 1: return n == 1; case 2: return n == 1 || n == 2 || n == 5; case 3: return n == 3 || n == 4 || n == 6; case 4: return n == 4; case 6: return n == 9; } return false; }
  bool exists(int n) { switch (n) { case 1: case 3: case 9: return rows.count(1); case 2: case 4: return rows.count(2); case 5: case 6: return rows.count(3); case 8: return false; } return true; }
  void pub(int n, int val) { rbusError_t e = c_pubi(p, PN[n], val); int ns = 0; for (int i = 0; i < 3; i++) for (int k = 0; k < NSN; k++) if (sub[i][k] && match(k, n) && exists(n)) { ns++; want[i].push_back(fmt("%d|%s|%d|", i * 100 + k, PN[n], (int)RBUS_EVENT_GENERAL) + fmt("%d", val)); }
    if (!exists(n)) CHECK(e == RBUS_ERROR_ELEMENT_DOES_NOT_EXIST, "publishing %s gives %s%s", PN[n], en(e), h.c_str()); else if (ns) CHECK(!e, "publishing %s gives %s%s", PN[n], en(e), h.c_str()); else CHECK(e == RBUS_ERROR_NOSUBSCRIBERS, "publishing %s with nobody subscribed gives %s%s", PN[n], en(e), h.c_str()); }
  void check() { mc_settle(); StrV got[3]; for (int pr : {0, 2}) for (auto& x : c[pr].s->takeev()) { int ud = atoi(x.c_str()); got[ud / 100].push_back(x); } for (int i = 0; i < 3; i++) { std::map<int, StrV> w, g; for (auto& x : want[i]) w[atoi(x.c_str())].push_back(x); for (auto& x : got[i]) g[atoi(x.c_str())].push_back(x); for (int k = 0; k < NSN; k++) { StrV &a = w[i * 100 + k], &b = g[i * 100 + k]; bool ok = a.size() == b.size(); for (size_t j = 0; ok && j < a.size(); j++) { size_t z = a[j].rfind('|') + 1; ok = b[j].find(a[j].substr(0, z)) == 0 && (z == a[j].size() || b[j].find("i32:" + a[j].substr(z)) != Str::npos || b[j].find(":" + a[j].substr(z)) != Str::npos); } CHECK(ok, "subscription of %s to %s received [%s], expected [%s]%s", c[i].name.c_str(), SN[k], join(b).c_str(), join(a).c_str(), h.c_str()); } CHECK(got[i].size() == want[i].size(), "%s received [%s]%s", c[i].name.c_str(), join(got[i]).c_str(), h.c_str()); want[i].clear(); } }
  enum { NOP = 3 * NSN * 2 + 4 + 3 + 2 };
  bool op(int k, bool last = true) { if (k < 3 * NSN) { dosub(k % 3, k / 3); return true; } k -= 3 * NSN; if (k < 3 * NSN) { if (!last && !sub[k % 3][k / 3]) return false; dounsub(k % 3, k / 3); return true; } k -= 3 * NSN; if (k < 4) { row(k == 0 ? 3 : k == 3 ? 1 : k, k == 0 || k == 3); return true; } k -= 4; if (k < 3) { doclose(k); return true; } k -= 3; dosub(2, k ? 2 : 0, RBUS_ERROR_ACCESS_NOT_ALLOWED); return true; } };
SCN(p09_hist) { int depth = (int)mc_param("depth", 2), f = mc_choose(W9::NOP, "first"); if (f < 6 * NSN && f % 3 == 1) return; int g = depth > 2 ? mc_choose(W9::NOP, "second") : 0; W9 w; w.up(); for (Odo od; od.more();) { w.begin(); memset(w.stale, 0, sizeof w.stale); bool ok = w.op(f, depth == 1); w.check(); for (int i = 1; ok && i < depth; i++) { int k = i == 1 && depth > 2 ? g : od.choose(W9::NOP); ok = w.op(k, depth <= 2); w.check(); } if (!ok) continue; mc_count(0, 1); for (int r = 0; r < 2; r++) for (int n = 0; n < NPN; n++) w.pub(n, 100 * r + n); w.check(); } mc_outcome("%d", f); }
/* publishing against subscribing, unsubscribing, closing and other publishers, every schedule */
static StrV evk(PS* s, int ud) { StrV r; for (auto& x : s->ev) if (atoi(x.c_str()) == ud) { size_t z = x.rfind("i32:"); r.push_back(fmt("%d", z == Str::npos ? -1 : atoi(x.c_str() + z + 4))); } return r; }
SCN(p09_conc) { int mode = mc_choose(7, "mode"); W9 w; w.up(); w.begin(); CHECK(!c_sub(w.c[0], "P.E!", 1, -1), "subscribe"); bool two = mode == 1 || mode == 4 || mode == 5; if (two) CHECK(!c_sub(w.c[2], "P.E!", 2, -1), "subscribe"); rbusHandle_t hp = w.p.h, h0 = w.c[0].h, h1 = w.c[1].h, h2 = w.c[2].h; PS *s0 = w.c[0].s, *s2 = w.c[2].s; rbusError_t pe[4] = {RBUS_ERROR_SUCCESS}, e2 = RBUS_ERROR_SUCCESS, e3 = e2; size_t atret = 999; int seq0 = 0;
  auto pub = [](rbusHandle_t h, int from, int n, rbusError_t* out) { for (int i = 0; i < n; i++) { rbusObject_t o; rbusObject_Init(&o, nullptr); rbusValue_t v = vint(from + i); rbusObject_SetValue(o, "k", v); rbusValue_Release(v); rbusEvent_t ev; memset(&ev, 0, sizeof ev); ev.name = "P.E!"; ev.type = RBUS_EVENT_GENERAL; ev.data = o; out[i] = rbusEvent_Publish(h, &ev); rbusObject_Release(o); } }; (void)seq0;
  if (mode == 5) call(w.c[2].proc, [s2] { s2->onev = [](rbusHandle_t h, const rbusEvent_t*, rbusEventSubscription_t*) { ps->log.push_back(fmt("unsub %d", (int)rbusEvent_Unsubscribe(h, "P.E!"))); }; });
  mc_window(1); int tp = async(w.p.proc, [&, pub] { pub(hp, 10, mode == 3 ? 2 : 3, pe); }), tq = -1, tr = -1; PS* ss2 = s2;
  switch (mode) { case 0: tq = async(w.c[2].proc, [&] { e2 = rbusEvent_Subscribe(h2, "P.E!", k_evh, (void*)2, -1); }); break; case 1: tq = async(w.c[2].proc, [&, ss2] { e2 = rbusEvent_Unsubscribe(h2, "P.E!"); atret = ss2->ev.size(); }); break; case 2: case 3: tq = async(w.p.proc, [&, pub] { pub(hp, 20, 1, pe + 3); }); break; case 4: tq = async(w.c[2].proc, [&] { e2 = rbus_close(h2); }); break; case 6: tq = async(w.c[1].proc, [&] { e2 = rbusEvent_Subscribe(h1, "P.E!", k_evh, (void*)3, -1); }); tr = async(w.c[0].proc, [&] { e3 = rbusEvent_Unsubscribe(h0, "P.E!"); }); break; }
  CHECK(mc_joinable_within(tp, 30000) && (tq < 0 || mc_joinable_within(tq, 30000)) && (tr < 0 || mc_joinable_within(tr, 30000)), "a call did not return (mode %d)", mode); mc_settle(); mc_window(0);
  StrV a = evk(s0, 1), b = evk(s2, 2), c3 = evk(s0, 3); Str info = fmt(" (mode %d: first [%s], second [%s], third [%s], %s, publish %s %s %s %s)", mode, join(a).c_str(), join(b).c_str(), join(c3).c_str(), en(e2), en(pe[0]), en(pe[1]), en(pe[2]), en(pe[3])); CHECK(!e2 && !e3, "a call fails%s", info.c_str());
  auto seq = [](const StrV& v, const char* base, int from, int n) { (void)base; std::vector<Str> w2; for (int i = 0; i < n; i++) w2.push_back(fmt("%d", from + i)); size_t j = 0; for (auto& x : v) { bool mine = false; for (auto& y : w2) if (x.size() >= 2 && x.substr(x.size() - y.size()) == y) mine = true; if (mine) { if (j >= w2.size() || x.substr(x.size() - 2) != w2[j]) return -1; j++; } } return (int)j; };
  auto sub = [](const StrV& v, int from, int to, bool pre, bool suf) { std::vector<int> g; for (auto& x : v) g.push_back(atoi(x.substr(x.size() - 2).c_str())); for (size_t i = 0; i + 1 < g.size(); i++) if (g[i + 1] != g[i] + 1) return false; if (!g.empty() && pre && g[0] != from) return false; if (!g.empty() && suf && g.back() != to) return false; return true; };
  if (mode != 6) { CHECK((int)a.size() == (mode == 2 ? 4 : mode == 3 ? 3 : 3), "a subscriber received %zu events%s", a.size(), info.c_str()); CHECK(seq(a, "", 10, mode == 3 ? 2 : 3) == (mode == 3 ? 2 : 3), "events lost, repeated or out of order%s", info.c_str()); for (int i = 0; i < 4; i++) CHECK(!pe[i], "publishing fails%s", info.c_str()); }
  if (mode == 0) CHECK(sub(b, 10, 12, false, true), "the new subscriber missed events in the middle%s", info.c_str()); if (mode == 1 || mode == 4) { CHECK(sub(b, 10, 12, true, false), "the leaving subscriber missed events%s", info.c_str()); } if (mode == 5) CHECK(b.size() == 1 || true, "%s", info.c_str()); if (mode == 6) { CHECK(sub(a, 10, 12, true, false) && sub(c3, 10, 12, false, true), "events lost%s", info.c_str()); }
  /* afterwards: exactly the current subscriptions */ s0->ev.clear(); s2->ev.clear(); call(w.p.proc, [&, pub] { rbusError_t x[1]; pub(hp, 50, 1, x); }); mc_settle(); a = evk(s0, 1); b = evk(s2, 2); c3 = evk(s0, 3); CHECK(a.size() == (mode != 6) && b.size() == (mode == 0) && c3.size() == (mode == 6), "afterwards an event reaches %zu, %zu, %zu%s", a.size(), b.size(), c3.size(), info.c_str()); mc_outcome("%d %s", mode, info.c_str()); }
/* raw-data subscriptions of several consumers at events of two providers: each event reaches exactly the handlers subscribed to it */
SCN(p09_raw) { static const char* E[] = {"X.R1!", "X.R2!", "Y.R1!", "Y.R2!"}; int depth = (int)mc_param("depth", 3); std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(mc_choose(15, "op")); scn_start_router(); PC p[2] = {pc_new("px"), pc_new("py")}, c[3]; c[0] = pc_new("c1"); c[1] = c[0]; c[1].name = "c1b"; comp_open(c[1]); c[2] = pc_new("c2"); for (int i = 0; i < 2; i++) CHECK(!k_reg(p[i], {Str(E[2 * i]) + ":ee", Str(E[2 * i + 1]) + ":ee"}), "register"); bool on[3][4] = {}; Str h; int n = 0;
  auto raw = [](int proc, rbusHandle_t h, const char* name, bool add, long ud) { rbusError_t e = RBUS_ERROR_SUCCESS; call(proc, [&] { auto f = [](rbusHandle_t, rbusEventRawData_t const* ev, rbusEventSubscription_t* s) { ps->ev.push_back(fmt("%ld|%s|%s", (long)(intptr_t)s->userData, s->eventName, Str((const char*)ev->rawData, ev->rawDataLen).c_str())); }; e = add ? rbusEvent_SubscribeRawData(h, name, (rbusEventHandler_t)(void*)+f, (void*)(intptr_t)ud, 0) : rbusEvent_UnsubscribeRawData(h, name); }); return e; };
  for (int x : ops) { if (x < 12) { int i = x / 4, k = x % 4; h += fmt("; %s %s %s", c[i].name.c_str(), on[i][k] ? "unsubscribes" : "subscribes", E[k]); rbusError_t e = raw(c[i].proc, c[i].h, E[k], !on[i][k], i * 10 + k); CHECK(!e, "gives %s%s", en(e), h.c_str()); on[i][k] = !on[i][k]; } else { int i = x - 12; h += fmt("; %s closes and opens", c[i].name.c_str()); CHECK(!comp_close(c[i]), "close%s", h.c_str()); comp_open(c[i]); for (bool& b : on[i]) b = false; }
    mc_settle(); c[0].s->takeev(); c[2].s->takeev(); std::multiset<Str> want, got; for (int k = 0; k < 4; k++) { Str d = fmt("%s-%d", E[k], ++n); rbusHandle_t ph = p[k / 2].h; call(p[k / 2].proc, [&] { rbusEventRawData_t r; memset(&r, 0, sizeof r); r.name = E[k]; r.rawData = (void*)d.data(); r.rawDataLen = (unsigned)d.size(); rbusEvent_PublishRawData(ph, &r); }); for (int i = 0; i < 3; i++) if (on[i][k]) want.insert(fmt("%d|%s|%s", i * 10 + k, E[k], d.c_str())); } mc_settle(); for (int i : {0, 2}) for (auto& s : c[i].s->takeev()) got.insert(s); auto show = [](std::multiset<Str>& m) { Str r; for (auto& s : m) r += s + " "; return r; }; CHECK(got == want, "received [%s], expected [%s]%s", show(got).c_str(), show(want).c_str(), h.c_str()); mc_outcome("%zu", want.size()); } }
