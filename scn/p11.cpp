/* P11: interval subscriptions under virtual time */
#include "kit.h"
static const char* T11(int t) { return t == RBUS_EVENT_INTERVAL ? "tick" : t == RBUS_EVENT_DURATION_COMPLETE ? "end" : "other"; }
static void h11(rbusHandle_t, rbusEvent_t const* e, rbusEventSubscription_t* s) { ps->ev.push_back(fmt("%ld %lld %s %s %s", (long)(intptr_t)s->userData, (long long)mc_now_us(), T11((int)e->type), e->name, pstr(rbusObject_GetProperties(e->data)).c_str())); if (ps->onev) ps->onev(nullptr, e, s); }
struct S11 { const char* name; int who, interval, duration; int64_t t0 = 0; bool on = false; int64_t off = 0; };   /* off: when it ended (us) */
static rbusEventSubscription_t x11(const S11& s, long ud) { rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = s.name; x.interval = (uint32_t)s.interval; x.duration = (uint32_t)s.duration; x.handler = (void*)h11; x.userData = (void*)(intptr_t)ud; return x; }
static rbusError_t sub11(PC& c, const S11& s, long ud) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { rbusEventSubscription_t x = x11(s, ud); e = rbusEvent_SubscribeEx(h, &x, 1, -1); }); return e; }
static rbusError_t unsub11(PC& c, const S11& s) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { rbusEventSubscription_t x = x11(s, 0); e = rbusEvent_UnsubscribeEx(h, &x, 1); }); return e; }
static void put11(PC& p, const char* n, int i) { auto& x = p.s->v[n]; call(p.proc, [&] { if (x) rbusValue_Release(x); x = vint(i); }); }
struct Ev { long ud; int64_t t; Str type, rest; };
static std::vector<Ev> take11(PC& c) { std::vector<Ev> r; for (auto& s : c.s->takeev()) { Ev e; long long t; char ty[16]; int n = 0; sscanf(s.c_str(), "%ld %lld %15s %n", &e.ud, &t, ty, &n); e.t = t; e.type = ty; e.rest = s.substr(n); r.push_back(e); } return r; }
static const int64_t TOL = 60000;               /* 60 ms of virtual time */
/* one provider, two consumers: a first subscription, a second one started later, one action at a chosen time; then everything that arrived in 14 s */
SCN(p11_hist) {
  static const int IV[][2] = {{1, 0}, {1, 1}, {1, 3}, {2, 0}, {2, 1}, {2, 3}, {2, 4}, {3, 2}};
  int a = mc_choose(8, "first"), b = mc_choose(7, "second"), off = mc_choose(3, "offset") * 500, act = mc_choose(11, "action"), when = act ? 500 + 500 * mc_choose(9, "when") : 500; if (b == 0 && off) { mc_outcome("-"); return; }
  scn_start_router(); PC p = pc_new("prov"), c[2] = {pc_new("c1"), pc_new("c2")}; p.s->logget = p.s->logsub = 0; p.s->autopub = 1; rbusHandle_t hp = p.h;
  CHECK(!k_reg(p, {"P.A:pgse", "P.B:pgse", "P.T.{i}.:tar", "P.T.{i}.A:pgse"}), "register"); call(p.proc, [&] { if (act == 10) return; rbusTable_registerRow(hp, "P.T.", 1, nullptr); rbusTable_registerRow(hp, "P.T.", 2, nullptr); }); for (auto n : {"P.A", "P.B", "P.T.1.A", "P.T.2.A"}) put11(p, n, 1);
  std::vector<S11> s; const char* fn = act == 8 ? "P.T.1.A" : act >= 9 ? "P.T.*.A" : "P.A"; s.push_back({fn, 0, IV[a][0], IV[a][1]});
  switch (b) { case 1: s.push_back({fn, 0, 4, 0}); break; case 2: s.push_back({fn, 1, IV[a][0], IV[a][1]}); break; case 3: s.push_back({"P.B", 0, 1, 2}); break; case 4: s.push_back({"P.B", 1, 2, 0}); break; case 5: s.push_back({fn, 1, 0, 0}); break; case 6: s.push_back({"P.T.*.A", 1, 1, 2}); break; }
  int64_t begin = mc_now_us(); std::vector<std::pair<int64_t, int>> vals, tvals; vals.push_back({0, 1}); int64_t badfrom = -1, badto = -1; bool dead = false; Str h = fmt(" (first %d/%d, second %d after %d ms, action %d after %d ms)", IV[a][0], IV[a][1], b, off, act, when);
  auto wait = [&](int ms) { int64_t d = begin + ms * 1000LL - mc_now_us(); if (d > 0) mc_sleep_ms((d + 999) / 1000); };
  auto start = [&](size_t i) { rbusError_t e = sub11(c[s[i].who], s[i], (long)i); CHECK(!e, "subscribing gives %s%s", en(e), h.c_str()); s[i].t0 = mc_now_us(); s[i].on = true; };
  auto doact = [&] { int64_t now = mc_now_us(); auto stop = [&](int who) { for (auto& x : s) if ((who < 0 || x.who == who) && x.t0 && !x.off) x.off = now; };
    switch (act) { case 1: { bool over = s[0].duration && now > s[0].t0 + (s[0].duration / s[0].interval + 1) * s[0].interval * 1000000LL - TOL; rbusError_t e = unsub11(c[0], s[0]); CHECK(over || !e, "unsubscribing gives %s%s", en(e), h.c_str()); s[0].off = now; break; }
      case 2: stop(0); CHECK(!comp_close(c[0]), "close%s", h.c_str()); break; case 3: stop(0); mc_kill(c[0].proc); break; case 4: stop(-1); dead = true; CHECK(!comp_close(p), "close%s", h.c_str()); break; case 5: stop(-1); dead = true; mc_kill(p.proc); break;
      case 6: put11(p, "P.A", 2); put11(p, "P.B", 2); vals.push_back({now, 2}); break; case 7: for (auto n : {"P.A", "P.B"}) p.s->geterr[n] = RBUS_ERROR_BUS_ERROR; badfrom = now; break; case 8: { for (auto& x : s) if (!strcmp(x.name, "P.T.1.A")) if (x.t0) x.off = now; rbusError_t e = RBUS_ERROR_SUCCESS; call(p.proc, [&] { e = rbusTable_unregisterRow(hp, "P.T.1"); }); CHECK(!e, "unregisterRow gives %s%s", en(e), h.c_str()); tvals.push_back({now, 1}); break; } case 9: { rbusError_t e = RBUS_ERROR_SUCCESS; call(p.proc, [&] { e = rbusTable_registerRow(hp, "P.T.", 3, nullptr); }); put11(p, "P.T.3.A", 1); CHECK(!e, "registerRow gives %s%s", en(e), h.c_str()); tvals.push_back({now, 3}); break; } case 10: { rbusError_t e = RBUS_ERROR_SUCCESS; call(p.proc, [&] { e = rbusTable_registerRow(hp, "P.T.", 1, nullptr); }); CHECK(!e, "registerRow gives %s%s", en(e), h.c_str()); tvals.push_back({now, 4}); break; } } };
  auto gone = [&](int i) { return (act == 4 || act == 5) || ((act == 2 || act == 3) && s[i].who == 0) || (act == 8 && !strcmp(s[i].name, "P.T.1.A")); };
  start(0); bool acted = act == 0; if (s.size() > 1) { if (!acted && when < off) { wait(when); doact(); acted = true; } wait(off); if (!(acted && gone(1))) start(1); } if (!acted) { wait(when); doact(); }
  if (act == 7) { wait(when + 2500); p.s->geterr.clear(); badto = mc_now_us(); } wait(14000); mc_settle(); int64_t end = mc_now_us();
  /* what should have arrived */
  std::vector<Ev> got[2] = {take11(c[0]), take11(c[1])};
  for (size_t i = 0; i < s.size(); i++) { if (!s[i].t0) continue; auto& g = got[s[i].who]; std::vector<Ev> mine; for (auto& e : g) if (e.ud == (long)i) mine.push_back(e);
    if (!s[i].interval) { for (auto& e : mine) CHECK(e.type == "other", "a subscription without interval got a %s%s", e.type.c_str(), h.c_str()); continue; }
    std::vector<Ev> tk; for (auto& e : mine) if (e.type != "other") tk.push_back(e); size_t k = 0; int n = s[i].duration ? s[i].duration / s[i].interval : 1 << 20; Str all; for (auto& e : tk) all += fmt("%.2f %s; ", (double)(e.t - s[i].t0) / 1e6, e.type.c_str()); bool over = false;
    for (int q = 1; q <= n + 1; q++) { int64_t due = s[i].t0 + (int64_t)q * s[i].interval * 1000000; if (due > end + TOL) break; bool last = q == n + 1; const char* ty = last ? "end" : "tick"; bool fuzzy = (s[i].off && llabs(due - s[i].off) < TOL) || llabs(due - end) < TOL || (badfrom > 0 && !last && strncmp(s[i].name, "P.T", 3) && (llabs(due - badfrom) < TOL || llabs(due - badto) < TOL)); if (s[i].off && due > s[i].off + TOL) break; bool unread = badfrom > 0 && strncmp(s[i].name, "P.T", 3) && due > badfrom && due < badto; bool there = k < tk.size() && llabs(tk[k].t - due) < TOL; if (act == 10 && !strcmp(s[i].name, "P.T.*.A") && !last && due < tvals[0].first + TOL) { if (there) k++; continue; } /* no row yet */ if (unread && !fuzzy && !last) { CHECK(!there, "subscription %zu: a tick for an unreadable value; got %s%s", i, all.c_str(), h.c_str()); continue; } CHECK(there || fuzzy, "subscription %zu: no %s at %.1f s; got %s%s", i, ty, (double)q * s[i].interval, all.c_str(), h.c_str());
      if (there) { CHECK(tk[k].type == ty, "subscription %zu: at %.1f s a %s instead of a %s; got %s%s", i, (double)q * s[i].interval, tk[k].type.c_str(), ty, all.c_str(), h.c_str());
        int v = 1; bool amb = false; for (auto& x : vals) { if (llabs(due - x.first) < TOL) amb = true; if (due > x.first) v = x.second; } Str want; if (!strcmp(s[i].name, "P.T.*.A")) { int rows = 2; for (auto& x : tvals) { if (llabs(due - x.first) < TOL) amb = true; if (due > x.first) rows = x.second == 4 ? 4 : x.second == 1 ? 1 : 3; } if (act == 10) amb = amb || rows != 4; want = fmt("numberOfEntries=i32:%d", rows == 4 ? 1 : rows); if (rows == 4) want += ";P.T.1.A=i32:1"; else for (int z = rows == 1 ? 2 : 1; z <= (rows == 3 ? 3 : 2); z++) want += fmt(";P.T.%d.A=i32:1", z); } else want = fmt("%s=i32:%d", s[i].name, strncmp(s[i].name, "P.T", 3) ? v : 1);
        if (!amb && !(last && badfrom > 0 && due > badfrom - TOL && due < badto + TOL)) CHECK(tk[k].rest == Str(s[i].name) + " " + want, "subscription %zu: the event at %.1f s says [%s], expected [%s]%s", i, (double)q * s[i].interval, tk[k].rest.c_str(), want.c_str(), h.c_str()); k++; if (last) over = true; } }
    CHECK(k == tk.size(), "subscription %zu: %zu events, %zu expected; got %s%s", i, tk.size(), k, all.c_str(), h.c_str()); if (over && !s[i].off) s[i].off = tk.back().t; }
  /* afterwards: ended subscriptions can be made again, the others are still there; after unsubscribing everything is quiet */
  if (!dead) { if (act == 2) comp_open(c[0]); for (size_t i = 0; i < s.size(); i++) { if (!s[i].t0 || (act == 8 && !strcmp(s[i].name, "P.T.1.A")) || (act == 3 && s[i].who == 0)) continue; rbusError_t e = sub11(c[s[i].who], s[i], 50 + (long)i); CHECK(e == (s[i].off ? RBUS_ERROR_SUCCESS : RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST), "subscribing %zu again gives %s%s", i, en(e), h.c_str()); e = unsub11(c[s[i].who], s[i]); CHECK(!e, "unsubscribing %zu at the end gives %s%s", i, en(e), h.c_str()); }
    mc_settle(); take11(c[0]); take11(c[1]); mc_sleep_ms(4100); mc_settle(); for (auto& x : c) { auto g = take11(x); CHECK(g.empty(), "an event for nobody: %s%s", g.empty() ? "" : g[0].rest.c_str(), h.c_str()); } Str g = c_get(c[1], "P.A"); CHECK(g.compare(0, 3, "ok:") == 0, "afterwards a get gives %s%s", g.c_str(), h.c_str()); CHECK(!comp_close(p), "close%s", h.c_str()); mc_sleep_ms(4100); }
  mc_outcome("%d %d %d %zu %zu", a, b, act, got[0].size(), got[1].size()); }

/* the moment of a tick, or of the completion, against everything that can end a subscription: every schedule */
SCN(p11_conc) { int mode = mc_choose(10, "mode"), fin = mc_choose(2, "at completion"), hk = mc_choose(3, "handler"); scn_start_router(); PC p = pc_new("prov"), c = pc_new("c1"), d = pc_new("c2"); p.s->logget = p.s->logsub = 0; p.s->autopub = 1; rbusHandle_t hp = p.h, hc = c.h, hd = d.h; CHECK(!k_reg(p, {"P.A:pgse", "P.E!:e", "P.T.{i}.:tar", "P.T.{i}.A:pgse"}), "register"); call(p.proc, [&] { rbusTable_registerRow(hp, "P.T.", 1, nullptr); }); put11(p, "P.A", 1); put11(p, "P.T.1.A", 1);
  S11 s = {mode == 6 ? "P.T.1.A" : "P.A", 0, 1, fin ? 1 : 0}; CHECK(!c_sub(d, "P.E!", 9), "subscribe"); CHECK(!sub11(c, s, 1), "subscribe"); s.t0 = mc_now_us(); S11 s2 = {"P.A", 1, 2, 0}; rbusHandle_t* ph = new rbusHandle_t(hp); (void)ph; auto setslow = [&] { call(p.proc, [hp, hk] { static rbusHandle_t H; H = hp; if (hk == 1) ps->get = [](rbusHandle_t, const char* nm, rbusProperty_t pr, rbusGetHandlerOptions_t*) { mc_sleep_ms(4); rbusProperty_SetValue(pr, ps->v[nm]); return RBUS_ERROR_SUCCESS; }; if (hk == 2) ps->get = [](rbusHandle_t h, const char* nm, rbusProperty_t pr, rbusGetHandlerOptions_t*) { mc_sleep_ms(2); rbusObject_t o; rbusObject_Init(&o, nullptr); rbusEvent_t ev; memset(&ev, 0, sizeof ev); ev.name = "P.E!"; ev.type = RBUS_EVENT_GENERAL; ev.data = o; rbusEvent_Publish(h, &ev); rbusObject_Release(o); rbusProperty_SetValue(pr, ps->v[nm]); return RBUS_ERROR_SUCCESS; }; }); };
  setslow(); int64_t at = s.t0 + (fin ? 2 : 1) * 1000000LL; mc_sleep_ms((at - mc_now_us()) / 1000 - 20); mc_settle(); rbusError_t e = RBUS_ERROR_SUCCESS; int t = -1; c.s->ev.clear(); mc_window(1); if (mode == 8) mc_crashable(c.proc, 1);
  rbusEventSubscription_t x1 = x11(s, 1), x2 = x11(s2, 2); auto *p1 = &x1, *p2 = &x2; auto go = [&](int proc, auto g) { return async(proc, [g, &e, hk] { mc_sleep_ms(hk ? 21 : 20); e = g(); }); };
  switch (mode) { case 0: t = go(c.proc, [hc, p1] { return rbusEvent_UnsubscribeEx(hc, p1, 1); }); break; case 1: t = go(c.proc, [hc, p1] { p1->handler = (void*)h11; rbusError_t r = rbusEvent_UnsubscribeEx(hc, p1, 1); p1->userData = (void*)3; rbusError_t q = rbusEvent_SubscribeEx(hc, p1, 1, -1); return r ? r : q; }); break; case 2: t = go(c.proc, [hc] { return rbus_close(hc); }); break; case 3: t = go(p.proc, [hp] { return rbus_close(hp); }); break;
    case 4: t = go(d.proc, [hd, p2] { p2->handler = (void*)h11; return rbusEvent_SubscribeEx(hd, p2, 1, -1); }); break; case 5: t = go(d.proc, [hd] { rbusValue_t v9; rbusValue_Init(&v9); rbusValue_SetInt32(v9, 9); rbusError_t r = rbus_set(hd, "P.A", v9, nullptr); rbusValue_Release(v9); return r; }); break; case 6: t = go(p.proc, [hp] { return rbusTable_unregisterRow(hp, "P.T.1"); }); break; case 7: t = go(d.proc, [hd] { rbusValue_t v9 = nullptr; rbusError_t r = rbus_get(hd, "P.A", &v9); if (v9) rbusValue_Release(v9); return r; }); break; case 8: t = go(d.proc, [hd] { return rbusEvent_Unsubscribe(hd, "P.E!"); }); break;
    case 9: t = go(c.proc, [hc, p2] { p2->handler = (void*)h11; p2->userData = (void*)4; return rbusEvent_SubscribeEx(hc, p2, 1, -1); }); break; }
  CHECK(mc_joinable_within(t, 12000), "a call did not return (mode %d)", mode); mc_window(0); mc_crashable(c.proc, 0); bool crash = mc_crashed() > 0; CHECK(!e || ((mode == 0 || mode == 1) && fin), "the call gives %s (mode %d)", en(e), mode); int64_t t1 = mc_now_us(); mc_sleep_ms(3100); mc_settle();
  auto g = take11(c); size_t n1 = 0, n3 = 0, late = 0, n4 = 0, ends = 0; Str all; for (auto& v : g) { all += fmt("%ld %s %.3f; ", v.ud, v.type.c_str(), (double)(v.t - s.t0) / 1e6); if (v.ud == 1) { n1++; if (v.t > t1) late++; if (v.type == "end") ends++; } if (v.ud == 3) n3++; if (v.ud == 4) n4++; } auto info = fmt(" (mode %d, completion %d, handler %d: %s)", mode, fin, hk, all.c_str());
  /* after 3.1 s: a tick at 1, 2, 3, 4 s or just the completion at 2 s */
  if (mode == 0 || mode == 1) { CHECK(n1 <= 1 && late == 0, "events after unsubscribing%s", info.c_str()); if (mode == 1 && !e) { CHECK(n3 >= 2 && n3 <= 4, "events of the new subscription%s", info.c_str()); } } else if (mode == 2) CHECK(n1 <= 1, "events after closing%s", info.c_str()); else if (mode == 3) CHECK(n1 <= 1, "events after closing the provider%s", info.c_str()); else if (mode == 6) CHECK(n1 <= 1 || fin, "events after removing the row%s", info.c_str()); else if (!crash) { CHECK(fin ? n1 == 1 && ends == 1 : n1 >= 3 && n1 <= 4 && !ends, "events%s", info.c_str()); if (mode == 9) CHECK(n4 == 1, "events of the second subscription%s", info.c_str()); }
  if (mode == 4) { auto g2 = take11(d); size_t n = 0; for (auto& v : g2) if (v.ud == 2) n++; CHECK(n == 1, "%zu events of the second subscription%s", n, info.c_str()); }
  if (mode != 3) { Str q = c_get(d, "P.A"); CHECK(q.compare(0, 3, "ok:") == 0, "afterwards a get gives %s%s", q.c_str(), info.c_str()); if (!crash && mode != 2) { bool on = mode == 6 ? false : mode == 0 ? false : mode == 1 ? !fin && !e : !fin; if (mode != 6) { rbusError_t q2 = sub11(c, s, 6); if (mode != 1 || !fin) CHECK(q2 == (on ? RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST : RBUS_ERROR_SUCCESS), "subscribing again gives %s%s", en(q2), info.c_str()); q2 = unsub11(c, s); CHECK(!q2, "unsubscribing gives %s%s", en(q2), info.c_str()); } if (mode == 9) CHECK(!unsub11(c, s2), "unsubscribe%s", info.c_str()); mc_settle(); take11(c); mc_sleep_ms(2200); mc_settle(); auto z = take11(c); CHECK(z.empty(), "%zu events for nobody%s", z.size(), info.c_str()); } p.s->get = nullptr; CHECK(!comp_close(p), "close"); mc_sleep_ms(2100); }
  mc_outcome("%d %d %d %zu %zu", mode, fin, hk, n1, n3); }
/* intervals and durations at the edges of their range: the first ticks come no earlier than asked for */
SCN(p11_large) { static const uint32_t V[] = {1, 2, 3599, 4294, 4295, 2147483, 2147484, 4294967, 4294968, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu}; uint32_t iv = V[mc_choose(13, "interval")]; static const uint32_t D[] = {0, 1, 5, 0x7fffffffu}; uint32_t du = D[mc_choose(4, "duration")]; scn_start_router(); PC p = pc_new("prov"), c = pc_new("c1"); p.s->logget = p.s->logsub = 0; p.s->autopub = 1; CHECK(!k_reg(p, {"P.A:pgse"}), "register"); put11(p, "P.A", 1); S11 s = {"P.A", 0, (int)iv, (int)du}; rbusError_t e = sub11(c, s, 0); CHECK(!e, "subscribe gives %s (interval %u, duration %u)", en(e), iv, du); int64_t t0 = mc_now_us(); mc_sleep_ms(9500); mc_settle(); auto g = take11(c); size_t want = 0; if (iv <= 9) { size_t n = du ? du / iv : 1 << 20; for (size_t q = 1; q <= n + 1 && q * iv * 1000000 < 9400000; q++) want++; } CHECK(g.size() == want, "%zu events, %zu expected (interval %u, duration %u)", g.size(), want, iv, du); if (g.empty()) { e = unsub11(c, s); CHECK(!e, "unsubscribing gives %s", en(e)); } (void)t0; Str q = c_get(c, "P.A"); CHECK(q.compare(0, 3, "ok:") == 0, "afterwards a get gives %s", q.c_str()); mc_outcome("%zu", want); }
