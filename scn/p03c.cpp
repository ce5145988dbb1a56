/* P03: components facing hostile payloads: every captured request, response and event of the bus protocol with every single-byte mutation, truncation, insertion and deletion */
#include "kit.h"
#include "wire.h"
static Str swapc(Str s, char from, char to) { if (from == 'H' && s == "ownH") return "prov"; for (size_t i = 0; i + 1 < s.size(); i++) if (s[i] == from && s[i + 1] == '.') s[i] = to; return s; }
struct MBench {
  PC prov, cons; Wire hw; uint32_t seq = 500; std::vector<std::pair<Str, Str>> req, rsp; Str pingreq, pingrsp; bool pumpgood = true;
  void up() { scn_start_router(); prov = pc_new("prov"); cons = pc_new("cons");
    { rbusValue_t v = vint(1234); prov.s->v["P.Prop"] = v; } { rbusValue_t v = vstrv("text"); prov.s->v["P.Name"] = v; }
    CHECK(!k_reg(prov, {"P.Prop:pgs", "P.Name:pgs", "P.M():mm", "P.E!:ee", "P.T.{i}.:tare", "P.T.{i}.P:pgs"}), "registration failed");
    CHECK(hw.open(), "connect"); mc_settle(); hw.subscribe("h.INBOX.9", 1); hw.subscribe("ownH", 2); hw.subscribe("hraw", 3); for (const char* a : {"H.Prop", "H.Name", "H.M()", "H.E!", "H.T.{i}.", "H.T.{i}.P"}) hw.subscribe(a, 2); mc_settle(); hw.take(); prov.s->logget = 0; }
  bool ask(const Str& topic, const Str& pay, Str& out) { uint32_t q = seq++; WMsg m; m.topic = topic; m.reply = "h.INBOX.9"; m.flags = WF_REQ | WF_RAW; m.seq = q; m.payload = pay; hw.send(m); mc_settle(); bool ok = false; for (auto& g : hw.take()) if (g.seq == q && (g.flags & WF_RSP)) { out = g.payload; ok = true; } return ok; }
  /* let consumer operation `t` proceed: its requests to H.* are answered by asking the provider for P.*; when `mut` is given the first one is answered with it instead */
  bool pump(int t, const Str* mut, std::pair<Str, Str>* cap, std::pair<Str, Str>* rcap, int64_t ms = 200000) { bool first = true;
    for (int k = 0; k < 12; k++) { mc_settle(); if (mc_joined(t)) { mc_join(t); return true; }
      auto v = hw.take(); for (auto& g : v) { if (!(g.flags & WF_REQ)) continue; Str r; WMsg a; a.topic = g.reply; a.reply = g.topic; a.flags = WF_RSP | WF_RAW; a.seq = g.seq;
          if (first && mut) a.payload = *mut; else { Str o; if (!ask(swapc(g.topic, 'H', 'P'), swapc(g.payload, 'H', 'P'), o)) mc_fail("the provider does not answer a valid request to %s", g.topic.c_str()); a.payload = swapc(o, 'P', 'H'); if (first && cap) *cap = {g.topic, g.payload}; if (first && rcap) *rcap = {g.topic, a.payload}; }
          first = false; hw.send(a); }
      if (v.empty()) break; }
    if (mc_joinable_within(t, ms)) { mc_join(t); return true; } return false; }
  int op(int k) { rbusHandle_t h = cons.h; PS* st = cons.s; (void)st;
    return async(cons.proc, [h, k] { rbusValue_t v = nullptr; rbusProperty_t pr = nullptr; int n = 0; uint32_t inst = 0;
      switch (k) {
        case 0: if (!rbus_get(h, "H.Prop", &v)) rbusValue_Release(v); break;
        case 1: { v = vint(77); rbus_set(h, "H.Prop", v, nullptr); rbusValue_Release(v); break; }
        case 2: { const char* p[] = {"H.Prop", "H.Name"}; if (!rbus_getExt(h, 2, p, &n, &pr) && pr) rbusProperty_Release(pr); break; }
        case 3: { rbusObject_t o = mkobj("", {{"a", "b"}}), out = nullptr; rbusMethod_Invoke(h, "H.M()", o, &out); rbusObject_Release(o); if (out) rbusObject_Release(out); break; }
        case 4: rbusTable_addRow(h, "H.T.", nullptr, &inst); break;
        case 5: rbusTable_removeRow(h, "H.T.1"); break;
        case 6: { rbusRowName_t* r = nullptr; if (!rbusTable_getRowNames(h, "H.T.", &r)) rbusTable_freeRowNames(h, r); break; }
        case 7: { rbusElementInfo_t* r = nullptr; if (!rbusElementInfo_get(h, "H.", -1, &r)) rbusElementInfo_free(h, r); break; }
        case 8: { v = vstrv("zz"); rbusFilter_t f = mkfilter(RBUS_FILTER_OPERATOR_EQUAL, v); rbusEventSubscription_t s; memset(&s, 0, sizeof s); s.eventName = "H.Name"; s.filter = f; s.handler = (void*)k_evh; rbusEvent_SubscribeEx(h, &s, 1, 0); rbusFilter_Release(f); rbusValue_Release(v); break; }
        case 9: { rbusEventSubscription_t s; memset(&s, 0, sizeof s); s.eventName = "H.Name"; v = vstrv("zz"); s.filter = mkfilter(RBUS_FILTER_OPERATOR_EQUAL, v); rbusEvent_UnsubscribeEx(h, &s, 1); rbusFilter_Release(s.filter); rbusValue_Release(v); break; }
        case 10: { rbusEvent_Subscribe(h, "H.E!", k_evh, nullptr, 0); break; }
        case 11: { rbusEvent_Unsubscribe(h, "H.E!"); break; }
        case 12: { rbusValue_t a = vint(1), b = vstrv("x"); rbusProperty_t p1, p2; rbusProperty_Init(&p1, "H.Prop", a); rbusProperty_Init(&p2, "H.Name", b); rbusProperty_SetNext(p1, p2); rbus_setMulti(h, 2, p1, nullptr); rbusValue_Release(a); rbusValue_Release(b); rbusProperty_Release(p1); rbusProperty_Release(p2); break; }
        case 13: { rbusEventSubscription_t s; memset(&s, 0, sizeof s); s.eventName = "H.Prop"; s.publishOnSubscribe = true; s.handler = (void*)k_evh; rbusEvent_SubscribeEx(h, &s, 1, 0); break; }
        case 14: { rbusEvent_Unsubscribe(h, "H.Prop"); break; }
        case 15: { const char* p[] = {"H.T."}; if (!rbus_getExt(h, 1, p, &n, &pr) && pr) rbusProperty_Release(pr); break; }
      } }); }
  enum { NOPS = 16 };
  void capture() { req.resize(NOPS); rsp.resize(NOPS); for (int k = 0; k < NOPS; k++) { int t = op(k); CHECK(pump(t, nullptr, &req[(size_t)k], &rsp[(size_t)k]), "operation %d did not return", k); CHECK(!rsp[(size_t)k].second.empty(), "operation %d sent nothing", k); }
    pingreq = swapc(req[0].second, 'H', 'P'); CHECK(ask("P.Prop", pingreq, pingrsp), "ping"); }
};
static const unsigned char MB[] = {0x00, 0x01, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc4, 0xc6, 0xc7, 0xca, 0xcb, 0xcf, 0xd3, 0xd9, 0xdb, 0xdd, 0xdf, 0xe0, 0xff};
static int nmut(size_t n) { return (int)(n * (sizeof MB + 2 + 3) + 3); }
static Str mutate(const Str& s, int m, Str* how) { size_t per = sizeof MB + 2 + 3; size_t i = (size_t)m / per; int k = (int)((size_t)m % per); Str r = s;
  if (i >= s.size()) { k = m - (int)(s.size() * per); if (k == 0) { *how = "unchanged"; return s; } if (k == 1) { *how = "garbage appended"; return s + Str("\xff\x00\xdb\x7f\xff\xff\xff\x00", 8); } *how = "sent twice in one"; return s + s; }
  if (k < (int)sizeof MB) { r[i] = (char)MB[k]; *how = fmt("byte %zu of %zu set to 0x%02x", i, s.size(), MB[k]); } else if (k == (int)sizeof MB) { r[i] = (char)(r[i] + 1); *how = fmt("byte %zu incremented", i); } else if (k == (int)sizeof MB + 1) { r[i] = (char)(r[i] - 1); *how = fmt("byte %zu decremented", i); }
  else if (k == (int)sizeof MB + 2) { r = s.substr(0, i); *how = fmt("cut to %zu of %zu bytes", i, s.size()); } else if (k == (int)sizeof MB + 3) { r.erase(i, 1); *how = fmt("byte %zu removed", i); } else { r.insert(i, 1, (char)0x81); *how = fmt("0x81 inserted at %zu", i); }
  return r; }
SCN(p03_provider) { int part = mc_choose(16, "part"), stride = (int)mc_param("stride", 1); MBench b; b.up(); b.capture();
  uint64_t n = 0; int only = (int)mc_param("op", -1);
  for (int k = 0; k < MBench::NOPS; k++) { if (only >= 0 && k != only) continue; Str base = swapc(b.req[(size_t)k].second, 'H', 'P'), topic = swapc(b.req[(size_t)k].first, 'H', 'P'); for (int m = 0; m < nmut(base.size()); m++) { if ((int)(n++ % 16) != part || (n / 16) % (uint64_t)stride) continue;
      Str how, pay = mutate(base, m, &how); how = fmt("request %d to %s: %s", k, topic.c_str(), how.c_str()); mc_note("%s", how.c_str()); Str o; b.ask(topic, pay, o);
      if (b.prov.s->v["P.Prop"] == nullptr) mc_fail("lost value"); Str r; if (!b.ask("P.Prop", b.pingreq, r)) { /* it may be busy until a timeout of its own */ mc_sleep_ms(60000); if (!b.ask("P.Prop", b.pingreq, r)) mc_fail("the provider no longer answers after hostile %s", how.c_str()); }
      mc_count(0, 1); if (n % 4096 < 16) { int t = b.op(0); CHECK(b.pump(t, nullptr, nullptr, nullptr), "a good get no longer returns after hostile %s", how.c_str()); } } }
  mc_outcome("part %d", part); }
SCN(p03_consumer) { int part = mc_choose(16, "part"), stride = (int)mc_param("stride", 1); MBench b; b.up(); b.capture();
  uint64_t n = 0; int only = (int)mc_param("op", -1);
  for (int k = 0; k < MBench::NOPS; k++) { if (only >= 0 && k != only) continue; Str base = b.rsp[(size_t)k].second; if (k == 9 || k == 11 || k == 14) continue; for (int m = 0; m < nmut(base.size()); m++) { if ((int)(n++ % 16) != part || (n / 16) % (uint64_t)stride) continue;
      Str how, pay = mutate(base, m, &how); how = fmt("response to operation %d: %s", k, how.c_str()); mc_note("%s", how.c_str());
      int t = b.op(k); CHECK(b.pump(t, &pay, nullptr, nullptr), "the caller does not return after hostile %s", how.c_str());
      if (k == 8 || k == 10 || k == 13) { int u = b.op(k + 1); CHECK(b.pump(u, nullptr, nullptr, nullptr), "unsubscribing does not return after hostile %s", how.c_str()); }
      int g = b.op(0); CHECK(b.pump(g, nullptr, nullptr, nullptr), "a good get no longer returns after hostile %s", how.c_str()); mc_count(0, 1); } }
  mc_outcome("part %d", part); }
SCN(p03_events) { int part = mc_choose(16, "part"), stride = (int)mc_param("stride", 1); MBench b; b.up(); b.capture();
  /* the consumer subscribes to the provider's event for real; the hostile peer obtains an event as "hraw" and replays it, mutated, to the consumer */
  CHECK(!c_sub(b.cons, "P.E!", 5), "subscribe"); Str sub = swapc(b.req[10].second, 'H', 'P'); for (size_t i = 0; i + 4 <= sub.size(); i++) if (sub.substr(i, 4) == "cons") sub.replace(i, 4, "hraw"); Str o; CHECK(b.ask("P.E!", sub, o), "subscribe as hraw");
  int t = async(b.prov.proc, [&] { rbusObject_t ob = mkobj("", {{"k", "v"}}); rbusEvent_t ev; memset(&ev, 0, sizeof ev); ev.name = "P.E!"; ev.type = RBUS_EVENT_GENERAL; ev.data = ob; rbusEvent_Publish(b.prov.h, &ev); rbusObject_Release(ob); }); mc_settle(); CHECK(mc_joined(t), "publish"); mc_join(t);
  Str ev; uint32_t fl = 0; for (auto& g : b.hw.take()) if (g.topic.find("hraw") == 0 || g.payload.find("P.E!") != Str::npos) { ev = g.payload; fl = g.flags; } CHECK(!ev.empty(), "no event captured"); CHECK(b.cons.s->takeev().size() == 1, "the consumer did not get the event");
  uint64_t n = 0; for (int m = 0; m < nmut(ev.size()); m++) for (int ctl = 0; ctl < 4; ctl++) { if ((int)(n++ % 16) != part || (n / 16) % (uint64_t)stride) continue; Str how, pay = mutate(ev, m, &how); how = fmt("event: %s", how.c_str()); mc_note("%s", how.c_str());
    WMsg e; e.topic = "cons"; e.flags = fl; e.seq = b.seq++; e.ctl = (uint32_t)ctl; e.payload = pay; b.hw.send(e); mc_settle(); b.cons.s->takeev();
    if (n % 64 < 16) { CHECK(!c_pubi(b.prov, "P.E!", (int)n), "publish fails after hostile %s", how.c_str()); mc_settle(); b.hw.take(); auto got = b.cons.s->takeev(); CHECK(got.size() == 1, "%zu good events arrive instead of one after hostile %s", got.size(), how.c_str()); }
    mc_count(0, 1); }
  mc_outcome("part %d", part); }
