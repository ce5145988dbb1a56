/* P13: asynchronous (and retried) subscriptions end in exactly one answer */
#include "kit.h"
struct A13 { int who; const char* name; int form; int timeout, filt, interval; long ud; };   /* form 0: async, 1: async through the one-event call, 2: blocking with retries */
static void ev13(rbusHandle_t, rbusEvent_t const* e, rbusEventSubscription_t* s) { ps->ev.push_back(fmt("%ld %lld %s", (long)(intptr_t)s->userData, (long long)mc_now_us(), e->name)); }
static void as13(rbusHandle_t h, rbusEventSubscription_t* s, rbusError_t e) { CHECK(h && s && s->eventName && s->handle == h, "the response handler is called without a subscription"); ps->as.push_back(fmt("%ld %lld %d %s", (long)(intptr_t)s->userData, (long long)mc_now_us(), (int)e, s->eventName)); }
static rbusFilter_t f13(int k) { if (!k) return nullptr; rbusValue_t v = vint(0); rbusFilter_t f = mkfilter(RBUS_FILTER_OPERATOR_GREATER_THAN, v); rbusValue_Release(v); return f; }
static rbusError_t start13(rbusHandle_t h, const A13& a) {
  if (a.form == 1) return rbusEvent_SubscribeAsync(h, a.name, ev13, as13, (void*)(intptr_t)a.ud, a.timeout);
  rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = a.name; x.handler = (void*)ev13; x.userData = (void*)(intptr_t)a.ud; x.filter = f13(a.filt); x.interval = (uint32_t)a.interval;
  rbusError_t e = a.form == 2 ? rbusEvent_SubscribeEx(h, &x, 1, a.timeout) : rbusEvent_SubscribeExAsync(h, &x, 1, as13, a.timeout); if (x.filter) rbusFilter_Release(x.filter); return e; }
static rbusError_t stop13(rbusHandle_t h, const A13& a, bool plain) {
  if (plain) return rbusEvent_Unsubscribe(h, a.name);
  rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = a.name; x.filter = f13(a.filt); x.interval = (uint32_t)a.interval; rbusError_t e = rbusEvent_UnsubscribeEx(h, &x, 1); if (x.filter) rbusFilter_Release(x.filter); return e; }
struct Ans { long ud; int64_t t; int err; };
static std::vector<Ans> answers(PC& c) { std::vector<Ans> r; for (auto& s : c.s->takeas()) { Ans a; long long t; sscanf(s.c_str(), "%ld %lld %d", &a.ud, &t, &a.err); a.t = t; r.push_back(a); } return r; }
static int nev(PC& c, long ud) { int n = 0; for (auto& s : c.s->ev) if (atol(s.c_str()) == ud) n++; return n; }
/* up to two pending subscriptions x when the provider appears x what it answers x what cancels the first one and when */
SCN(p13_hist) {
  static const int TO[] = {5, -1, 0, 20}, UP[] = {0, 400, 2000, 4600, 9000, -1}, CANCEL_AT[] = {0, 500, 2500, 6500};
  int form = mc_choose(3, "form"), to = TO[mc_choose(4, "timeout")], up = UP[mc_choose(6, "provider at")], verdict = mc_choose(4, "verdict"), second = mc_choose(7, "second"), cancel = mc_choose(6, "cancel"), when = cancel ? CANCEL_AT[mc_choose(4, "cancelled at")] : 0;
  if (form == 2 && (cancel || second)) { mc_outcome("-"); return; }
  if ((up < 0 && verdict) || (form == 2 && verdict == 3 && to < 0)) { mc_outcome("-"); return; }
  if ((second && verdict == 3) || (second == 6 && ((to == 0 && up) || (verdict == 1 && !up)))) { mc_outcome("-"); return; }
  scn_start_router(); PC c[2] = {pc_new("c1"), pc_new("c2")}, c1b, p; bool have1b = false; Str info = fmt(" (form %d, timeout %d, provider at %d, verdict %d, second %d, cancel %d at %d)", form, to, up, verdict, second, cancel, when); mc_note("%s", info.c_str());
  A13 a[2] = {{0, "P.A", form, to, 0, 0, 1}, {}}; int n = 1;
  switch (second) { case 1: a[1] = {0, "P.B", 0, to, 0, 0, 2}; n = 2; break; case 2: a[1] = {1, "P.A", 0, to, 0, 0, 2}; n = 2; break; case 3: a[1] = {0, "P.A", 0, to, 1, 0, 2}; n = 2; break; case 4: a[1] = {0, "P.A", 0, to, 0, 2, 2}; n = 2; break; case 5: a[1] = {2, "P.A", 0, to, 0, 0, 2}; n = 2; break; case 6: a[1] = a[0]; a[1].ud = 2; n = 2; break; }
  if (second == 5) { c1b = c[0]; c1b.name = "c1b"; c1b.h = nullptr; comp_open(c1b); have1b = true; }
  auto comp = [&](int who) -> PC& { return who == 2 ? c1b : c[who]; };
  auto startp = [&] { p = pc_new("prov"); p.s->autopub = 1; rbusHandle_t hp = p.h; (void)hp; int v = verdict; call(p.proc, [v] { ps->logsub = 0; if (v == 1) ps->suberr["P.A"] = RBUS_ERROR_ACCESS_NOT_ALLOWED; if (v == 2) ps->sub = [](rbusHandle_t, rbusEventSubAction_t act, const char*, rbusFilter_t, int32_t, bool*) { if (act == RBUS_EVENT_ACTION_SUBSCRIBE) mc_sleep_ms(300); return RBUS_ERROR_SUCCESS; }; if (v == 3) ps->sub = [](rbusHandle_t, rbusEventSubAction_t, const char*, rbusFilter_t, int32_t, bool*) { mc_sleep_ms(100000); return RBUS_ERROR_SUCCESS; }; }); p.s->v["P.A"] = vint(1); p.s->v["P.B"] = vint(1); CHECK(!k_reg(p, {"P.A:egs", "P.B:egs"}), "register"); };
  auto startp2 = [&] { p = pc_new("prov"); p.s->autopub = 1; int v = verdict; call(p.proc, [v] { ps->logsub = 0; if (v == 1) ps->suberr["P.A"] = RBUS_ERROR_ACCESS_NOT_ALLOWED; if (v == 2) ps->sub = [](rbusHandle_t, rbusEventSubAction_t act, const char*, rbusFilter_t, int32_t, bool* ap) { *ap = true; if (act == RBUS_EVENT_ACTION_SUBSCRIBE) mc_sleep_ms(300); return RBUS_ERROR_SUCCESS; }; if (v == 3) ps->sub = [](rbusHandle_t, rbusEventSubAction_t, const char*, rbusFilter_t, int32_t, bool*) { mc_sleep_ms(100000); return RBUS_ERROR_SUCCESS; }; ps->v["P.A"] = vint(1); ps->v["P.B"] = vint(1); }); CHECK(!k_reg(p, {"P.A:pgse", "P.B:pgse"}), "register"); }; (void)startp;
  if (up == 0) startp2();
  int64_t t0 = mc_now_us(); auto wait = [&](int ms) { int64_t d = t0 + ms * 1000LL - mc_now_us(); if (d > 0) mc_sleep_ms((d + 999) / 1000); };
  rbusError_t es[2] = {RBUS_ERROR_SUCCESS, RBUS_ERROR_SUCCESS}; int th = -1; int64_t done = 0;
  if (form == 2) { A13* pa = &a[0]; rbusHandle_t h = c[0].h; rbusError_t* pe = &es[0]; int64_t* pd = &done; th = async(c[0].proc, [h, pa, pe, pd] { *pe = start13(h, *pa); *pd = mc_now_us(); }); }
  else for (int i = 0; i < n; i++) { A13* pa = &a[i]; rbusHandle_t h = comp(a[i].who).h; rbusError_t* pe = &es[i]; int64_t b = mc_now_us(); call(comp(a[i].who).proc, [h, pa, pe] { *pe = start13(h, *pa); }); CHECK(mc_now_us() - b < 50000, "an asynchronous subscribe call blocks for %lld us%s", (long long)(mc_now_us() - b), info.c_str()); bool want = i == 0 || second != 6; CHECK(want ? !es[i] : es[i] == RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST, "asynchronous subscribe %d gives %s%s", i, en(es[i]), info.c_str()); }
  if (second == 6) n = 1;
  int64_t cancelled = -1; bool gone[2] = {}; int64_t tp = up == 0 ? 0 : -1;
  auto docancel = [&] { int64_t b = mc_now_us(); rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c[0].h; A13* pa = &a[0];
    switch (cancel) { case 1: call(c[0].proc, [&, h, pa] { e = stop13(h, *pa, false); }); break; case 2: call(c[0].proc, [&, h, pa] { e = stop13(h, *pa, true); }); break; case 3: CHECK(!comp_close(c[0]), "close%s", info.c_str()); break; case 4: mc_kill(c[0].proc); break;
      case 5: call(c[0].proc, [&, h, pa] { e = stop13(h, *pa, false); rbusError_t q; if (!e) { pa->ud = 3; q = start13(h, *pa); CHECK(!q, "subscribing again gives %s%s", en(q), info.c_str()); pa->ud = 1; } }); break; }
    cancelled = mc_now_us(); bool answered = false; for (auto& s : c[0].s->as) if (atol(s.c_str()) == 1 && strstr(s.c_str(), "")) { long u; long long t; int er; sscanf(s.c_str(), "%ld %lld %d", &u, &t, &er); if (u == 1 && t <= cancelled && er) answered = true; }
    CHECK(answered ? e == RBUS_ERROR_INVALID_OPERATION || cancel >= 3 : !e, "unsubscribing gives %s%s", en(e), info.c_str()); CHECK(cancelled - b < 21000000, "cancelling took %lld us%s", (long long)(cancelled - b), info.c_str()); };
  /* the timeline */
  std::vector<std::pair<int, int>> tl; if (up > 0) tl.push_back({up, 1}); if (cancel) tl.push_back({when, 2}); std::sort(tl.begin(), tl.end());
  for (auto& x : tl) { wait(x.first); if (x.second == 1) { startp2(); tp = mc_now_us(); } else docancel(); }
  int dl = to < 0 ? 600 : to; wait(up < 0 ? 640000 : 60000); if (up < 0 && dl <= 20) wait(60000); if (th >= 0) CHECK(mc_joinable_within(th, 700000), "the blocking subscribe does not return%s", info.c_str());
  mc_settle(); std::vector<Ans> r; for (int i = 0; i < 2; i++) if (!(i == 0 && cancel == 4)) for (auto& x : answers(c[i])) r.push_back(x); else { for (auto& x : answers(c[0])) if (x.t <= cancelled) r.push_back(x); }
  if (have1b && c1b.s != c[0].s) for (auto& x : answers(c1b)) r.push_back(x);
  if (form == 2) { r.clear(); r.push_back({1, done, (int)es[0]}); }
  bool killed = cancel == 4, on[4] = {}; Str out;
  for (int i = 0; i < n; i++) {
    std::vector<Ans> m; for (auto& x : r) if (x.ud == a[i].ud) m.push_back(x);
    bool mine = i == 0 && cancelled >= 0, dead = i == 0 ? cancelled >= 0 && cancel != 5 : (killed && a[i].who != 1) || (cancel == 3 && a[i].who == 0), any = mine || dead; int64_t lim = t0 + dl * 1000000LL;
    CHECK(m.size() <= 1, "%zu answers for subscription %d%s", m.size(), i, info.c_str()); if (!any) CHECK(m.size() == 1, "no answer for subscription %d%s", i, info.c_str());
    if (m.empty()) { out += "none "; CHECK(!any || !(up == 0 && verdict < 2 && when > 0) || killed, "no answer for subscription %d although the provider answers at once%s", i, info.c_str()); if (to == 0 && any && when > (verdict >= 2 ? 1200 : 100)) CHECK(false, "no answer for subscription %d although its time was over%s", i, info.c_str()); continue; }
    auto& x = m[0]; if (any) CHECK(x.t <= cancelled, "subscription %d answered %lld us after it was cancelled%s", i, (long long)(x.t - cancelled), info.c_str());
    bool refused = verdict == 1 && !strcmp(a[i].name, "P.A"); int64_t rt = verdict == 2 ? 700000 * n : verdict == 3 ? 70000000 : 100000;
    bool maybe = tp >= 0 && tp <= lim + 100000, sure = tp >= 0 && tp < lim - 100000; if (to == 0) { sure = up == 0; maybe = up == 0; }
    if (x.err == RBUS_ERROR_TIMEOUT && (verdict != 3 || !maybe)) { CHECK(!sure, "subscription %d times out although the provider is there%s", i, info.c_str()); CHECK(x.t >= lim - 1000 && x.t <= lim + 500000, "subscription %d times out after %.3f s%s", i, (double)(x.t - t0) / 1e6, info.c_str()); }
    else { CHECK(maybe, "subscription %d is answered %d without a provider%s", i, x.err, info.c_str()); int64_t late = std::max(2 * (tp - t0) + 1100000 + t0, t0); CHECK(x.t >= tp && x.t <= std::min(late, lim + 100000) + rt, "subscription %d answered only at %.3f s (provider there at %.3f s)%s", i, (double)(x.t - t0) / 1e6, (double)(tp - t0) / 1e6, info.c_str());
      if (verdict == 3) CHECK(x.err, "subscription %d succeeds without an answer%s", i, info.c_str()); else CHECK(x.err == (refused ? RBUS_ERROR_ACCESS_NOT_ALLOWED : RBUS_ERROR_SUCCESS), "subscription %d is answered %d%s", i, x.err, info.c_str()); }
    out += fmt("%d ", x.err); on[i] = !x.err && !any; if (x.err && verdict == 3) on[i] = false; }
  /* do events flow, exactly to those who were told so */
  if (up >= 0 && verdict != 3) { c[0].s->ev.clear(); c[1].s->ev.clear(); mc_sleep_ms(2500); bool again = cancel == 5 && form != 2; if (again) { int cnt = 0; bool ok3 = false; for (auto& x : r) if (x.ud == 3) { cnt++; ok3 = !x.err; } CHECK(cnt <= 1, "%d answers for the new subscription%s", cnt, info.c_str()); on[2] = ok3; }
    mc_settle(); c[0].s->ev.clear(); c[1].s->ev.clear(); if (have1b) c1b.s->ev.clear(); rbusError_t e1 = c_seti(c[1], "P.A", 7), e2 = c_seti(c[1], "P.B", 7); CHECK(!e1 && !e2, "set gives %s %s%s", en(e1), en(e2), info.c_str()); mc_sleep_ms(4100); mc_settle();
    for (int i = 0; i < n; i++) { PC& k = comp(a[i].who); if ((killed || cancel == 3) && a[i].who == 0) continue; if (killed && a[i].who == 2) continue; int g = nev(k, a[i].ud), want = on[i] ? 1 : 0; bool ok = g == want || (a[i].filt && g <= want) || (a[i].interval && on[i] && g >= 1 && g <= 3); CHECK(ok, "%d events for subscription %d, %d expected%s", g, i, want, info.c_str()); }
    if (again) { int g = nev(c[0], 3); CHECK(g == (on[2] ? 1 : 0), "%d events for the new subscription, %d expected%s", g, (int)on[2], info.c_str()); } }
  Str q = up >= 0 && verdict != 3 ? c_get(c[1], "P.B") : "ok:"; CHECK(q.compare(0, 3, "ok:") == 0, "afterwards a get gives %s%s", q.c_str(), info.c_str());
  if (have1b && !killed) CHECK(!comp_close(c1b), "close of the other component%s", info.c_str());
  if (!killed && cancel != 3 && form != 2) { CHECK(!comp_close(c[0]), "close%s", info.c_str()); mc_sleep_ms(1000); mc_settle(); CHECK(c[0].s->as.empty(), "an answer after closing%s", info.c_str()); }
  mc_outcome("%s", out.c_str()); }
/* the moment of the answer against an action of another thread, under all schedules */
static A13* g13; static int g13hk; static rbusHandle_t g13h;
static void as13c(rbusHandle_t h, rbusEventSubscription_t* s, rbusError_t e) {
  as13(h, s, e); if (e) return;
  if (g13hk == 1 && (long)(intptr_t)s->userData == 1) { rbusError_t q = rbusEvent_Unsubscribe(h, "P.E!"); ps->as.push_back(fmt("unsub %d", (int)q)); }
  if (g13hk == 2 && (long)(intptr_t)s->userData == 1) { rbusError_t q = rbusEvent_SubscribeAsync(h, "P.F!", ev13, as13, (void*)5, -1); ps->as.push_back(fmt("sub %d", (int)q)); }
  if (g13hk == 3 && (long)(intptr_t)s->userData == 1) { rbusValue_t v; rbusValue_Init(&v); rbusValue_SetInt32(v, 3); rbusError_t q = rbus_set(h, "P.W", v, nullptr); rbusValue_Release(v); ps->as.push_back(fmt("set %d", (int)q)); } }
SCN(p13_conc) {
  int mode = mc_choose(8, "mode"), hk = mc_choose(4, "handler"), late = mc_choose(2, "provider appears late"); scn_start_router(); PC p, c = pc_new("c1"), d = pc_new("c2"), b = c; b.name = "c1b"; b.h = nullptr; comp_open(b); Str info = fmt(" (mode %d, handler %d, late %d)", mode, hk, late);
  p = pc_new("prov"); p.s->logsub = 0; call(p.proc, [] { ps->set = [](rbusHandle_t h, const char*, rbusProperty_t, rbusSetHandlerOptions_t*) { rbusObject_t o; rbusObject_Init(&o, nullptr); rbusEvent_t ev; memset(&ev, 0, sizeof ev); ev.name = "P.E!"; ev.type = RBUS_EVENT_GENERAL; ev.data = o; rbusEvent_Publish(h, &ev); rbusObject_Release(o); return RBUS_ERROR_SUCCESS; }; }); if (!late) CHECK(!k_reg(p, {"P.E!:e", "P.F!:e", "P.W:ps"}), "register"); call(c.proc, [hk] { g13hk = hk; });
  rbusHandle_t hc = c.h, hb = b.h, hd = d.h, hp = p.h; rbusError_t e1 = RBUS_ERROR_SUCCESS, e2 = RBUS_ERROR_SUCCESS, e3 = RBUS_ERROR_SUCCESS; int64_t ended = -1; int t1 = -1, t2; auto sub = [hc] { return rbusEvent_SubscribeAsync(hc, "P.E!", ev13, as13c, (void*)1, -1); };
  if (late) { call(c.proc, [&, sub] { e1 = sub(); }); mc_sleep_ms(500); CHECK(!k_reg(p, {"P.E!:e", "P.F!:e", "P.W:ps"}), "register"); mc_sleep_ms(490); mc_settle(); }
  mc_window(1); if (mode == 5) mc_crashable(p.proc, 1);
  if (!late) t1 = async(c.proc, [&e1, sub] { e1 = sub(); });
  rbusError_t *pe = &e2, *pe3 = &e3; int64_t* pend = &ended; auto go = [&](int proc, auto g) { return async(proc, [g, pe, pend, late] { if (late) mc_sleep_ms(10); *pe = g(); *pend = mc_now_us(); }); };
  switch (mode) { case 0: t2 = go(c.proc, [hc] { rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = "P.E!"; return rbusEvent_UnsubscribeEx(hc, &x, 1); }); break; case 1: if (t1 >= 0) { CHECK(mc_joinable_within(t1, 1000), "the asynchronous subscribe blocks"); } t2 = go(c.proc, [hc] { return rbus_close(hc); }); break;
    case 2: t2 = go(c.proc, [hc, pe3] { rbusError_t r = rbusEvent_Unsubscribe(hc, "P.E!"); *pe3 = rbusEvent_SubscribeAsync(hc, "P.E!", ev13, as13c, (void*)2, -1); return r; }); break; case 3: t2 = go(c.proc, [hb] { rbusError_t r = rbusEvent_SubscribeAsync(hb, "P.F!", ev13, as13c, (void*)6, -1); rbusError_t q = rbus_close(hb); return r ? r : q; }); break;
    case 4: t2 = go(c.proc, [hc] { return rbusEvent_Subscribe(hc, "P.E!", ev13, (void*)7, 0); }); break; case 5: t2 = go(d.proc, [hd] { return rbusEvent_SubscribeAsync(hd, "P.E!", ev13, as13, (void*)8, -1); }); break; case 6: t2 = go(p.proc, [hp] { return rbus_close(hp); }); break; default: t2 = go(c.proc, [hb] { return rbusEvent_SubscribeAsync(hb, "P.F!", ev13, as13c, (void*)6, -1); }); }
  CHECK((t1 < 0 || mc_joinable_within(t1, 60000)) && mc_joinable_within(t2, 60000), "a call did not return%s", info.c_str()); mc_settle(); mc_window(0); mc_crashable(p.proc, 0); bool crash = mc_crashed() > 0; mc_sleep_ms(3000); mc_settle();
  CHECK(!e1 || ((mode == 4 || mode == 2) && e1 == RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST), "the asynchronous subscribe gives %s%s", en(e1), info.c_str());
  int n[10] = {}, ok[10] = {}, er1 = 0; int64_t at[10] = {}; StrV own; for (auto* k : {&c, &d}) for (auto& s : k->s->as) { long u; long long t; int er; if (sscanf(s.c_str(), "%ld %lld %d", &u, &t, &er) == 3) { n[u % 10]++; ok[u % 10] += !er; if (u == 1) er1 = er; at[u % 10] = t; } else own.push_back(s); }
  Str all; for (auto& s : c.s->as) all += s + "; "; info += fmt(" answers %s", all.c_str()); for (int i = 0; i < 10; i++) CHECK(n[i] <= 1, "%d answers for subscription %d%s", n[i], i, info.c_str());
  bool provgone = crash || mode == 6, sub1 = ok[1] && hk != 1;
  if (e1) { sub1 = false; } else if (mode == 0 || mode == 2) { CHECK(!e2 || e2 == RBUS_ERROR_INVALID_OPERATION, "unsubscribing gives %s%s", en(e2), info.c_str()); if (e2) CHECK(hk == 1 || !late, "unsubscribing gives %s%s", en(e2), info.c_str()); if (!e2) { CHECK(!n[1] || at[1] < ended + 200, "answered %lld us after unsubscribing%s", (long long)(at[1] - ended), info.c_str()); sub1 = false; } else CHECK(n[1] == 1, "no answer%s", info.c_str()); }
  else if (mode == 1) { CHECK(!e2, "close gives %s%s", en(e2), info.c_str()); CHECK(!n[1] || at[1] <= ended, "answered after closing%s", info.c_str()); sub1 = false; }
  else if (!provgone && !e1) CHECK(n[1] == 1 && (ok[1] == 1 || (mode == 4 && !e2 && er1 == RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST)), "no success%s", info.c_str());
  if (mode == 2 && !provgone) { if (e3) CHECK(e3 == RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST && e2, "subscribing again gives %s%s", en(e3), info.c_str()); else CHECK((n[2] == 1 && ok[2]) || (hk == 1 && ok[1]), "no success for the new subscription%s", info.c_str()); }
  if (mode == 3) { CHECK(!e2, "close gives %s%s", en(e2), info.c_str()); CHECK(!n[6] || at[6] <= ended, "answered after closing%s", info.c_str()); }
  if (mode == 4) { CHECK(!e2 || e2 == RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST, "the other subscribe gives %s%s", en(e2), info.c_str()); CHECK(!e1 || !e2, "both subscribes fail%s", info.c_str()); }
  if (mode == 7) CHECK(!e2 && n[6] == 1 && ok[6], "no success of the other subscription%s", info.c_str());
  if (mode == 5 && !crash) CHECK(!e2 && n[8] == 1 && ok[8], "no success of the other consumer's subscription%s", info.c_str());
  if (hk == 3 && mode != 0 && mode != 1 && mode != 2 && mode != 4 && !provgone) { int g = nev(c, 1); CHECK(g == 1, "%d events for the event published after the success was reported%s", g, info.c_str()); }
  if (!provgone) { c.s->ev.clear(); d.s->ev.clear(); c_pub(p, "P.E!", "x", nullptr); c_pub(p, "P.F!", "x", nullptr); mc_settle(); int w1 = sub1 ? 1 : 0; if (mode != 4) { int g = nev(c, 1); CHECK(g == w1, "%d events, %d expected%s", g, w1, info.c_str()); } if (mode == 4 && hk != 1) { int g = nev(c, 1) + nev(c, 7); CHECK(g == 1, "%d events in all%s", g, info.c_str()); }
    if (mode == 2 && !e3 && !e2 && n[2]) { int g = nev(c, 2); CHECK(g == 1, "%d events for the new subscription%s", g, info.c_str()); } if (mode == 7) CHECK(nev(c, 6) == 1, "events of the other subscription%s", info.c_str()); if (hk == 2 && ok[1] && mode != 1) CHECK(n[5] == 1 && ok[5] && nev(c, 5) == 1, "the subscription made in the handler%s", info.c_str()); if (mode == 5) CHECK(nev(d, 8) == 1, "events of the other consumer%s", info.c_str()); }
  if (mode != 1) CHECK(!comp_close(c), "close%s", info.c_str()); if (mode != 3) CHECK(!comp_close(b), "close%s", info.c_str());
  mc_outcome("%d %d %d %d%d%d %d", mode, hk, late, n[1], ok[1], n[2], (int)e2); }
