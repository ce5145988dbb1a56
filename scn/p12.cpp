/* P12: provider restart and the saved subscriptions */
#include "kit.h"
static const StrV EL = {"P.E!:e", "P.A:pgse", "P.T.{i}.:tar", "P.T.{i}.F!:e", "P.R!:e"};
struct K12 { const char* name; int who, f, iv; bool raw; };
static const K12 K[] = {{"P.E!", 0, 0, 0, false}, {"P.A", 0, 0, 0, false}, {"P.A", 1, 1, 0, false}, {"P.A", 0, 2, 0, false}, {"P.T.*.F!", 1, 0, 0, false}, {"P.T.1.F!", 0, 0, 0, false}, {"P.A", 0, 0, 1, false}, {"P.E!", 1, 0, 0, false}, {"P.R!", 0, 0, 0, true}, {"P.T.10.F!", 1, 0, 0, false}, {"P.A", 1, 3, 0, false}};
enum { NK = 11 };
static rbusFilter_t flt(int f) { if (!f) return nullptr; rbusValue_t v = vint(4), w = vint(6); rbusFilter_t a = mkfilter(RBUS_FILTER_OPERATOR_GREATER_THAN, v), b = mkfilter(RBUS_FILTER_OPERATOR_LESS_THAN, w), n = nullptr, r = a; if (f >= 2) rbusFilter_InitLogic(&n, RBUS_FILTER_OPERATOR_NOT, a, nullptr); if (f == 2) r = n; if (f == 3) rbusFilter_InitLogic(&r, RBUS_FILTER_OPERATOR_OR, n, b); rbusValue_Release(v); rbusValue_Release(w); return r; }
static rbusError_t subk(PC& c, int k, bool add) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = K[k].name; x.filter = flt(K[k].f); x.interval = (uint32_t)K[k].iv; x.handler = (void*)k_evh; x.userData = (void*)(intptr_t)k;
    auto raw = [](rbusHandle_t, rbusEventRawData_t const* ev, rbusEventSubscription_t* s) { ps->ev.push_back(fmt("%ld|%s|raw|%s", (long)(intptr_t)s->userData, ev->name, Str((const char*)ev->rawData, ev->rawDataLen).c_str())); };
    if (K[k].raw) e = add ? rbusEvent_SubscribeRawData(h, K[k].name, (rbusEventHandler_t)(void*)+raw, (void*)(intptr_t)k, 0) : rbusEvent_UnsubscribeRawData(h, K[k].name); else e = add ? rbusEvent_SubscribeEx(h, &x, 1, 0) : rbusEvent_UnsubscribeEx(h, &x, 1); }); return e; }
static void put12(PC& p, int i) { auto& x = p.s->v["P.A"]; call(p.proc, [&] { if (x) rbusValue_Release(x); x = vint(i); }); }
static Str want12(int k) { switch (k) { case 0: case 7: return "P.E!|k5"; case 1: return "7<2;2<7"; case 2: return "7<2 t;2<7 f"; case 3: case 10: return "7<2 f;2<7 t"; case 4: return "P.T.1.F!|k6;P.T.10.F!|k7"; case 5: return "P.T.1.F!|k6"; case 8: return "raw"; case 9: return "P.T.10.F!|k7"; } return ""; }
static PC start12(int ord, int between, const std::function<void()>& mid) { PC p = pc_new("prov"); p.s->logget = 0; p.s->autopub = -1; put12(p, 2); rbusHandle_t h = p.h; CHECK(!k_reg(p, EL), "registering after a restart fails"); if (between) mid(); call(p.proc, [&] { for (int i = 0; i < 2; i++) { rbusError_t e = rbusTable_registerRow(h, "P.T.", (i ^ ord) ? 10 : 1, nullptr); CHECK(!e, "registerRow gives %s", en(e)); } }); mc_settle(); return p; }
/* everything the subscriptions receive when each source fires: k -> list of events, abbreviated */
static std::map<int, Str> probe12(PC& p, std::vector<PC*> cs) { for (auto c : cs) if (c) c->s->takeev(); rbusHandle_t h = p.h; c_pubi(p, "P.E!", 5); c_pubi(p, "P.T.1.F!", 6); c_pubi(p, "P.T.10.F!", 7); call(p.proc, [&] { rbusEventRawData_t r; memset(&r, 0, sizeof r); r.name = "P.R!"; r.rawData = (void*)"raw"; r.rawDataLen = 3; rbusEvent_PublishRawData(h, &r); }); mc_settle();
  put12(p, 7); mc_sleep_ms(2100); put12(p, 2); mc_sleep_ms(2100); mc_settle(); std::map<int, Str> r; std::map<int, int> ticks;
  for (auto c : cs) if (c) for (auto& s : c->s->takeev()) { int k = atoi(s.c_str()); if (K[k].raw) { r[k] += Str(r[k].empty() ? "" : ";") + s.substr(s.rfind('|') + 1); continue; } if (K[k].iv) { if (s.find(fmt("|%d|", (int)RBUS_EVENT_INTERVAL)) != Str::npos) ticks[k]++; continue; } Str n = s.substr(s.find('|') + 1); Str e; auto num = [&](const char* w) { size_t q = n.find(w); return q == Str::npos ? Str("") : Str(1, n[q + strlen(w)]); };
      if (n.compare(0, 4, "P.A|") == 0) { e = num("P.A=i32:"); if (e.empty()) e = num("value=i32:"); e += "<" + num("oldValue=i32:"); if (n.find("filter=") != Str::npos) e += n.find("filter=bool:1") != Str::npos ? " t" : n.find("filter=bool:0") != Str::npos ? " f" : " ?"; } else e = n.substr(0, n.find('|')) + "|k" + num("k=i32:");
      if (mc_param("show", 0)) mc_note("%s", s.c_str()); r[k] += Str(r[k].empty() ? "" : ";") + e; }
  for (auto& t : ticks) r[t.first] = t.second >= 3 && t.second <= 5 ? "" : fmt("%d ticks", t.second); for (auto& t : ticks) if (r[t.first].empty()) r[t.first] = "ticks"; return r; }
SCN(p12_hist) { int depth = (int)mc_param("depth", 3), from = mc_choose(2, "start"), ord = mc_choose(2, "row order"), end = mc_choose(2, "kill or close"), between = mc_choose(6, "between registration and rows"); std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(mc_choose(NK + 6, "op")); Str h; scn_start_router(); PC c[2] = {pc_new("c1"), pc_new("c2")}, p; bool on[NK] = {}, up = true, alive[2] = {true, true}, unk[NK] = {};
  p = start12(ord, 0, nullptr); auto tgl = [&](int k) { if (!alive[K[k].who] || (!up && !on[k])) return; rbusError_t e = subk(c[K[k].who], k, !on[k]); if (up) CHECK(!e, "%s %s gives %s%s", on[k] ? "unsubscribing" : "subscribing", K[k].name, en(e), h.c_str()); on[k] = !on[k]; unk[k] = !up; }; auto down = [&](int kill) { if (!up) return; if (kill) mc_kill(p.proc); else CHECK(!comp_close(p), "close%s", h.c_str()); mc_settle(); up = false; };
  auto gone = [&](int w, int kill) { if (!alive[w]) return; if (kill) mc_kill(c[w].proc); else CHECK(!comp_close(c[w]), "close%s", h.c_str()); mc_settle(); alive[w] = false; for (int k = 0; k < NK; k++) if (K[k].who == w) { on[k] = false; if (!up) unk[k] = !kill; } };
  auto restart = [&](int btw) { p = start12(ord, btw, [&] { mc_settle(); up = true; switch (btw) { case 1: gone(1, 1); break; case 2: gone(0, 0); break; case 3: if (on[5]) tgl(5); break; case 4: if (on[9]) tgl(9); else tgl(4); break; case 5: if (on[0]) tgl(0); break; } }); up = true; for (int k = 0; k < NK; k++) unk[k] = false; };
  auto check = [&](const char* when) { StrV l = p.s->take(); auto r = probe12(p, {alive[0] ? &c[0] : nullptr, alive[1] ? &c[1] : nullptr}); for (int k = 0; k < NK; k++) { Str w = on[k] ? K[k].iv ? Str("ticks") : want12(k) : Str(""); CHECK(r[k] == w, "%s: subscription %d (%s of c%d%s%s) received [%s], expected [%s]%s", when, k, K[k].name, K[k].who + 1, K[k].f ? " filter" : "", K[k].iv ? " interval" : "", r[k].c_str(), w.c_str(), h.c_str()); } };
  if (from) for (int k = 0; k < NK; k++) tgl(k);
  for (int x : ops) { if (x < NK) { h += fmt("; %s %d", on[x] ? "unsub" : "sub", x); tgl(x); } else if (x == NK) { h += "; kill provider"; down(1); } else if (x == NK + 1) { h += "; close provider"; down(0); } else if (x == NK + 2) { if (!up) { h += "; restart"; restart(0); check("after the restart"); } } else if (x == NK + 3) { h += "; kill c2"; gone(1, 1); } else if (x == NK + 4) { h += "; close c1"; gone(0, 0); } else { h += "; close c2"; gone(1, 0); } }
  down(end); h += fmt(" (then restart, rows %d, between %d)", ord, between); bool before[NK], stale[NK]; for (int k = 0; k < NK; k++) { stale[k] = unk[k] && !on[k] && alive[K[k].who]; before[k] = on[k] || unk[k]; } restart(between); 
  { StrV l = p.s->take(); std::map<Str, int> n, w; for (auto& s : l) if (s.compare(0, 4, "sub ") == 0) n[s]++; for (int k = 0; k < NK; k++) if (before[k] || on[k]) w[fmt("sub %s f%d i%d", K[k].name, K[k].f ? 1 : 0, K[k].iv)]++; for (auto& x : n) CHECK(x.second <= w[x.first], "the provider is asked %d times [%s]%s", x.second, x.first.c_str(), h.c_str()); }
  check("at the end"); int again = 0; for (int k = 0; k < NK; k++) if (stale[k] && !on[k] && alive[K[k].who]) { rbusError_t e = subk(c[K[k].who], k, true); CHECK(!e, "subscribing %d again gives %s%s", k, en(e), h.c_str()); on[k] = true; again++; } if (again) check("subscribed again"); int cnt = 0; for (int k = 0; k < NK; k++) if (on[k]) { cnt++; tgl(k); } check("after unsubscribing"); down(1); restart(0); { StrV l = p.s->take(); for (auto& s : l) CHECK(s.compare(0, 4, "sub ") != 0, "an ended subscription is revived: %s%s", s.c_str(), h.c_str()); } check("after the last restart");
  for (int w = 0; w < 2; w++) if (alive[w]) { rbusError_t e = subk(c[w], w ? 7 : 0, true); CHECK(!e, "subscribing at the end gives %s%s", en(e), h.c_str()); on[w ? 7 : 0] = true; } check("new subscriptions"); mc_outcome("%d", cnt); }
/* the provider dies at any point while a subscription is added or removed: the others survive it */
SCN(p12_crash) { static const int BASE[][3] = {{0, 2, 3}, {5, 4, 1}, {7, 10, 8}}; int b = mc_choose(3, "base"), x = mc_choose(5, "operation"); scn_start_router(); PC c[2] = {pc_new("c1"), pc_new("c2")}, p = start12(0, 0, nullptr); bool on[NK] = {}; for (int k : BASE[b]) { CHECK(!subk(c[K[k].who], k, true), "subscribe"); on[k] = true; }
  static const int NEW[] = {9, 6, 2}; int k = x < 3 ? NEW[x] : BASE[b][x - 3]; bool add = !on[k]; rbusError_t e = RBUS_ERROR_SUCCESS; PC* pc = &c[K[k].who]; struct A { PC* c; int k; bool add; rbusError_t* e; }* a = new A{pc, k, add, &e}; mc_opt(MC_OPT_FILEPTS, 1); mc_window(1); mc_crashable(p.proc, 1);
  int t = async(pc->proc, [a] { rbusEventSubscription_t s; memset(&s, 0, sizeof s); s.eventName = K[a->k].name; s.filter = flt(K[a->k].f); s.interval = (uint32_t)K[a->k].iv; s.handler = (void*)k_evh; s.userData = (void*)(intptr_t)a->k; *a->e = a->add ? rbusEvent_SubscribeEx(a->c->h, &s, 1, 0) : rbusEvent_UnsubscribeEx(a->c->h, &s, 1); }); bool raw = K[k].raw; if (raw) { mc_outcome("-"); mc_window(0); return; }
  CHECK(mc_joinable_within(t, 30000), "the call did not return"); mc_window(0); mc_crashable(p.proc, 0); bool crashed = mc_crashed() > 0; Str h = fmt(" (base %d, %s %d gives %s, %s)", b, add ? "sub" : "unsub", k, en(e), crashed ? "crashed" : "alive"); CHECK(crashed || !e, "the call fails%s", h.c_str()); mc_settle(); if (crashed) CHECK(!mc_alive(p.proc), "?"); else mc_kill(p.proc); mc_settle(); if (add) on[k] = !e; else on[k] = false;
  for (int round = 0; round < 2; round++) { p = start12(0, 0, nullptr); auto r = probe12(p, {&c[0], &c[1]}); for (int q = 0; q < NK; q++) { Str w = on[q] ? K[q].iv ? Str("ticks") : want12(q) : Str(""); CHECK(r[q] == w, "after restart %d: subscription %d (%s) received [%s], expected [%s]%s", round, q, K[q].name, r[q].c_str(), w.c_str(), h.c_str()); } mc_kill(p.proc); mc_settle(); }
  p = start12(0, 0, nullptr); for (int q = 0; q < NK; q++) if (on[q]) { rbusError_t z = subk(c[K[q].who], q, false); CHECK(!z, "unsubscribing %d gives %s%s", q, en(z), h.c_str()); on[q] = false; } for (int q : {k, 0, 4}) { rbusError_t z = subk(c[K[q].who], q, true); CHECK(!z || q == k, "subscribing %d gives %s%s", q, en(z), h.c_str()); on[q] = true; } auto r = probe12(p, {&c[0], &c[1]}); for (int q = 0; q < NK; q++) { Str w = on[q] ? K[q].iv ? Str("ticks") : want12(q) : Str(""); CHECK(r[q] == w, "at the end: subscription %d (%s) received [%s], expected [%s]%s", q, K[q].name, r[q].c_str(), w.c_str(), h.c_str()); } mc_outcome("%d %d %s %d", b, x, en(e), crashed); }
/* every truncation and every damaged byte of a saved file */
SCN(p12_corrupt) { static const int BASE[][3] = {{0, 2, 3}, {10, 6, 5}, {4, 9, 1}}; int b = mc_choose(3, "base"), part = mc_choose((int)mc_param("parts", 32), "part"), parts = (int)mc_param("parts", 32), all = (int)mc_param("all", 0); scn_start_router(); PC c[3] = {pc_new("c1"), pc_new("c2"), pc_new("c3")}, p = start12(0, 0, nullptr); for (int k : BASE[b]) CHECK(!subk(c[K[k].who], k, true), "subscribe"); mc_kill(p.proc); mc_settle();
  Str path = Str(mc_scratch()) + "/tmp/rbus_subs_prov", orig; { FILE* f = fopen(path.c_str(), "rb"); CHECK(f, "no saved subscriptions in %s", path.c_str()); char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) orig.append(buf, n); fclose(f); } int n = (int)orig.size(), cas = 0;
  static const int BV[] = {0, 1, 2, 0x7f, 0x80, 0xff}; std::vector<Str> muts; for (int l = 0; l < n; l++) muts.push_back(orig.substr(0, (size_t)l)); for (int i = 0; i < n; i++) { std::set<int> vs; if (all) for (int v = 0; v < 256; v++) vs.insert(v); else { for (int v : BV) vs.insert(v); vs.insert((uint8_t)orig[(size_t)i] ^ 1); vs.insert(((uint8_t)orig[(size_t)i] + 1) & 255); } for (int v : vs) if (v != (uint8_t)orig[(size_t)i]) { Str m = orig; m[(size_t)i] = (char)v; muts.push_back(m); } } for (int w : {2, 4}) for (int i = 0; i + w <= n; i++) for (int f : {0xff, 0x00}) { Str m = orig; for (int j = 0; j < w; j++) m[(size_t)(i + j)] = (char)f; muts.push_back(m); } muts.push_back(orig + orig); muts.push_back(orig + Str(1, 0)); muts.push_back(Str(5000, (char)0)); muts.push_back(Str(5000, (char)1)); muts.push_back(Str(70000, (char)0xff));
  int per = ((int)muts.size() + parts - 1) / parts; bool sub3 = false; int lo = part * per, hi = std::min((int)muts.size(), lo + per); if (lo >= hi) { mc_outcome("-"); return; } int sel = lo + mc_choose(hi - lo, "case"); { const Str& m = muts[(size_t)sel]; FILE* f = fopen(path.c_str(), "wb"); CHECK(f, "open"); fwrite(m.data(), 1, m.size(), f); fclose(f); cas++;
    Str h = fmt(" (file %d, damage %d)", b, sel); p = start12(0, 0, nullptr); rbusError_t e = c_sub(c[2], "P.E!", 77); CHECK(!e, "subscribing gives %s%s", en(e), h.c_str()); e = c_sub(c[2], "P.A", 78); CHECK(!e, "subscribing gives %s%s", en(e), h.c_str()); e = c_sub(c[2], "P.T.*.F!", 79); CHECK(!e, "subscribing gives %s%s", en(e), h.c_str()); (void)sub3;
    for (auto& x : c) x.s->takeev(); c_pubi(p, "P.E!", 5); c_pubi(p, "P.T.1.F!", 6); put12(p, 7); mc_sleep_ms(2100); mc_settle(); int cnt[3] = {}; for (auto& s : c[2].s->takeev()) cnt[atoi(s.c_str()) - 77]++; CHECK(cnt[0] == 1 && cnt[1] == 1 && cnt[2] == 1, "new subscriptions received %d, %d, %d events%s", cnt[0], cnt[1], cnt[2], h.c_str()); std::map<int, int> old; for (int i = 0; i < 2; i++) for (auto& s : c[i].s->takeev()) old[atoi(s.c_str())]++; for (auto& o : old) { bool mine = false; for (int k : BASE[b]) mine |= k == o.first; CHECK(mine && (K[o.first].iv || o.second <= 1), "subscription %d received %d events%s", o.first, o.second, h.c_str()); }
    CHECK(!comp_close(p), "close%s", h.c_str()); p = start12(0, 0, nullptr); for (auto& x : c) x.s->takeev(); c_pubi(p, "P.E!", 8); mc_settle(); int z = (int)c[2].s->takeev().size(); CHECK(z == 1, "after another restart the new subscription received %d events%s", z, h.c_str()); } mc_count(0, 1); mc_outcome("%d", b); }
