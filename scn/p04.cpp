/* P04: data arrives exactly as it was sent.  Every boundary value over every path; every object tree up to a bound. */
#include "common.h"
struct W { Comp p, c; int cur, cur2; StrV got; StrV gotAsync; rbusObject_t out; Str evName; int evType; int base; };
#define WP ((W*)mc_shared)

static rbusError_t getA(rbusHandle_t, rbusProperty_t p, rbusGetHandlerOptions_t*) { const char* n = rbusProperty_GetName(p); int i = strstr(n, "B") ? WP->cur2 : WP->cur; rbusValue_t v = mkval(i); rbusProperty_SetValue(p, v); rbusValue_Release(v); return RBUS_ERROR_SUCCESS; }
static rbusError_t setA(rbusHandle_t, rbusProperty_t p, rbusSetHandlerOptions_t*) { WP->got.push_back(Str(rbusProperty_GetName(p)) + "=" + vstr(rbusProperty_GetValue(p))); return RBUS_ERROR_SUCCESS; }
static rbusError_t meth(rbusHandle_t, char const* m, rbusObject_t in, rbusObject_t out, rbusMethodAsyncHandle_t) {
  WP->got.push_back(Str(m) + ":" + ostr(in));
  if (WP->out) { rbusObject_SetName(out, rbusObject_GetName(WP->out)); rbusObject_SetProperties(out, rbusObject_GetProperties(WP->out)); rbusObject_SetChildren(out, rbusObject_GetChildren(WP->out)); }
  return RBUS_ERROR_SUCCESS; }
static void evH(rbusHandle_t, rbusEvent_t const* e, rbusEventSubscription_t*) { WP->got.push_back(Str(e->name) + ":" + fmt("%d:", (int)e->type) + ostr(e->data)); }
static void asyncH(rbusHandle_t, char const* m, rbusError_t e, rbusObject_t o) { WP->gotAsync.push_back(Str(m) + ":" + en(e) + ":" + ostr(o)); }

static void setup(W& w) {
  mc_shared = &w; w.out = nullptr; w.cur = w.cur2 = 0;
  scn_start_router(); w.p = comp_new("prov"); w.c = comp_new("cons");
  call(w.p.proc, [&] { rbusDataElement_t de[] = {
      {(char*)"Device.A", RBUS_ELEMENT_TYPE_PROPERTY, {getA, setA, 0, 0, 0, 0}}, {(char*)"Device.B", RBUS_ELEMENT_TYPE_PROPERTY, {getA, setA, 0, 0, 0, 0}},
      {(char*)"Device.M()", RBUS_ELEMENT_TYPE_METHOD, {0, 0, 0, 0, 0, (void*)meth}}, {(char*)"Device.E!", RBUS_ELEMENT_TYPE_EVENT, {0, 0, 0, 0, 0, 0}} };
    rbusError_t e = rbus_regDataElements(w.p.h, 4, de); CHECK(e == 0, "regDataElements %s", en(e)); }); }
static void expect(const Str& path, const Str& want, const StrV& got) {
  if (got.size() != 1) mc_fail("%s: %zu deliveries instead of one (want %s; first %s)", path.c_str(), got.size(), want.c_str(), got.empty() ? "" : got[0].c_str());
  if (got[0] != want) mc_fail("%s: sent %s but received %s", path.c_str(), want.c_str(), got[0].c_str()); }

SCN(p04_values) {
  W w; setup(w); int path = mc_choose(10, "path"); int n = nvals();
  static const char* pn[] = {"get","multi-get","set","multi-set","method-in","method-out","method-async","event","initial-value","published-value"};
  if (path == 7 || path == 9) call(w.c.proc, [&] { rbusError_t e = rbusEvent_Subscribe(w.c.h, path == 7 ? "Device.E!" : "Device.A", evH, nullptr, 0); CHECK(e == 0, "subscribe %s", en(e)); });
  for (int i = 0; i < n; i++) {
    int j = (i * 7 + 3) % n; w.cur = i; w.cur2 = j; w.got.clear(); w.gotAsync.clear(); Str wi = valname(i), wj = valname(j); mc_count(0, 1);
    Str label = Str(pn[path]) + " of " + wi;
    switch (path) {
    case 0: call(w.c.proc, [&] { rbusValue_t v = nullptr; rbusError_t e = rbus_get(w.c.h, "Device.A", &v); CHECK(e == 0, "%s: %s", label.c_str(), en(e)); w.got.push_back(vstr(v)); rbusValue_Release(v); }); expect(label, wi, w.got); break;
    case 1: call(w.c.proc, [&] { const char* names[] = {"Device.A", "Device.B"}; int num = 0; rbusProperty_t ps = nullptr; rbusError_t e = rbus_getExt(w.c.h, 2, names, &num, &ps); CHECK(e == 0 && num == 2, "%s: %s num %d", label.c_str(), en(e), num); w.got.push_back(pstr(ps)); rbusProperty_Release(ps); }); expect(label, "Device.A=" + wi + ";Device.B=" + wj, w.got); break;
    case 2: call(w.c.proc, [&] { rbusValue_t v = mkval(i); rbusError_t e = rbus_set(w.c.h, "Device.A", v, nullptr); CHECK(e == 0, "%s: %s", label.c_str(), en(e)); Str after = vstr(v); CHECK(after == wi, "set changed the caller's value"); rbusValue_Release(v); }); expect(label, "Device.A=" + wi, w.got); break;
    case 3: call(w.c.proc, [&] { rbusValue_t v = mkval(i), u = mkval(j); rbusProperty_t a, b; rbusProperty_Init(&a, "Device.A", v); rbusProperty_Init(&b, "Device.B", u); rbusProperty_SetNext(a, b); rbusError_t e = rbus_setMulti(w.c.h, 2, a, nullptr); CHECK(e == 0, "%s: %s", label.c_str(), en(e)); rbusProperty_Release(a); rbusProperty_Release(b); rbusValue_Release(v); rbusValue_Release(u); }); w.got = {join(w.got, ";")}; expect(label, "Device.A=" + wi + ";Device.B=" + wj, w.got); break;
    case 4: case 5: case 6: {
      rbusObject_t o; Str os; call(w.c.proc, [&] { rbusObject_Init(&o, "obj"); rbusValue_t v = mkval(i), u = mkval(j); rbusObject_SetValue(o, "p1", v); rbusObject_SetValue(o, "p2", u); rbusValue_Release(v); rbusValue_Release(u); }); os = ostr(o);
      if (path != 4) w.out = o;
      if (path == 6) { call(w.c.proc, [&] { rbusError_t e = rbusMethod_InvokeAsync(w.c.h, "Device.M()", o, asyncH, 0); CHECK(e == 0, "%s: %s", label.c_str(), en(e)); }); mc_settle(); mc_sleep_ms(100); mc_settle(); expect(label + " (in)", "Device.M():" + os, w.got); expect(label + " (out)", "Device.M():SUCCESS:" + os, w.gotAsync); }
      else { call(w.c.proc, [&] { rbusObject_t out = nullptr; rbusError_t e = rbusMethod_Invoke(w.c.h, "Device.M()", o, &out); CHECK(e == 0, "%s: %s", label.c_str(), en(e)); w.gotAsync.push_back(ostr(out)); if (out) rbusObject_Release(out); }); expect(label + " (in)", "Device.M():" + os, w.got); if (path == 5) expect(label + " (out)", os, w.gotAsync); }
      w.out = nullptr; call(w.c.proc, [&] { rbusObject_Release(o); }); break; }
    case 7: case 9: {
      Str os; call(w.p.proc, [&] { rbusObject_t o; rbusObject_Init(&o, nullptr); rbusValue_t v = mkval(i), u = mkval(j); rbusObject_SetValue(o, "value", v); rbusObject_SetValue(o, "oldValue", u); os = ostr(o); rbusEvent_t ev = {path == 7 ? "Device.E!" : "Device.A", path == 7 ? RBUS_EVENT_GENERAL : RBUS_EVENT_VALUE_CHANGED, o}; rbusError_t e = rbusEvent_Publish(w.p.h, &ev); CHECK(e == 0, "%s: %s", label.c_str(), en(e)); rbusObject_Release(o); rbusValue_Release(v); rbusValue_Release(u); });
      mc_settle(); 
      Str nm = path == 7 ? "Device.E!:3:" : "Device.A:2:"; Str want = nm + os;
      size_t p0 = want.find("(null)("); if (w.got.size() == 1) { size_t q = w.got[0].find("[") ; (void)q; }
      /* the object's own name is not part of the payload contract: compare from the property list on */
      auto tail = [](const Str& s) { size_t k = s.find('['); return k == Str::npos ? s : s.substr(0, s.find(':', s.find(':') + 1) + 1) + s.substr(k); }; (void)p0;
      for (auto& g : w.got) g = tail(g);
      expect(label, tail(want), w.got); break; }
    case 8: {
      call(w.c.proc, [&] { rbusEventSubscription_t s; memset(&s, 0, sizeof s); s.eventName = "Device.A"; s.handler = (void*)evH; s.publishOnSubscribe = true; rbusError_t e = rbusEvent_SubscribeEx(w.c.h, &s, 1, 0); CHECK(e == 0, "%s: subscribe %s", label.c_str(), en(e)); });
      mc_settle(); CHECK(w.got.size() == 1, "%s: %zu initial value events", label.c_str(), w.got.size());
      Str g = w.got[0]; CHECK(g.find("Device.A:4:") == 0, "%s: unexpected event %s", label.c_str(), g.substr(0, 60).c_str());
      CHECK(g.find("initialValue=" + wi) != Str::npos || g.find("=" + wi + ";") != Str::npos || g.find("=" + wi + "]") != Str::npos, "%s: initial value event carries %s", label.c_str(), g.c_str());
      call(w.c.proc, [&] { rbusEventSubscription_t s; memset(&s, 0, sizeof s); s.eventName = "Device.A"; s.handler = (void*)evH; rbusError_t e = rbusEvent_UnsubscribeEx(w.c.h, &s, 1); CHECK(e == 0, "%s: unsubscribe %s", label.c_str(), en(e)); });
      break; }
    } }
  mc_outcome("%s ok", pn[path]); }

/* object trees */
static rbusObject_t mktree(Odo& od, int depth, int& budget, const char* nm, Str& sig, bool root = false) {
  /* the out object a handler receives is a single-instance one, so the root is single */
  rbusObject_t o; int multi = root ? 0 : od.choose(2); if (multi) rbusObject_InitMultiInstance(&o, nm); else rbusObject_Init(&o, nm);
  int np = od.choose(3); sig += fmt("%s%d", multi ? "M" : "S", np);
  for (int i = 0; i < np; i++) { Str pn = fmt("%s.p%d", nm, i); rbusValue_t v;
    int k = od.choose(4);
    if (k == 0) v = vint(7 + i); else if (k == 1) v = vstrv(i ? "" : "s");
    else if (k == 2) { rbusProperty_t q; rbusValue_t x = vint(99); rbusProperty_Init(&q, "inner", x); rbusValue_Release(x); rbusValue_Init(&v); rbusValue_SetProperty(v, q); rbusProperty_Release(q); }
    else { rbusObject_t q; rbusObject_Init(&q, "io"); rbusValue_t x = vstrv("deep"); rbusObject_SetValue(q, "d", x); rbusValue_Release(x); rbusValue_Init(&v); rbusValue_SetObject(v, q); rbusObject_Release(q); }
    rbusObject_SetValue(o, pn.c_str(), v); rbusValue_Release(v); sig += fmt("t%d", k); }
  if (depth > 0) { int nc = od.choose(3); rbusObject_t first = nullptr, last = nullptr;
    for (int i = 0; i < nc && budget > 0; i++) { budget--; Str cn = fmt("%s.c%d", nm, i); rbusObject_t ch = mktree(od, depth - 1, budget, cn.c_str(), sig); rbusObject_SetParent(ch, o); if (!first) first = ch; else { rbusObject_SetNext(last, ch); rbusObject_Release(ch); } last = ch; }
    if (first) { rbusObject_SetChildren(o, first); rbusObject_Release(first); } sig += fmt("c%d", nc); }
  return o; }
SCN(p04_trees) {
  W w; setup(w); int part = mc_choose(16, "part"); uint64_t k = 0;
  call(w.c.proc, [&] { rbusError_t e = rbusEvent_Subscribe(w.c.h, "Device.E!", evH, nullptr, 0); CHECK(e == 0, "subscribe %s", en(e)); });
  for (Odo od; od.more(); k++) {
    int budget = (int)mc_param("nodes", 1); Str sig; rbusObject_t o = mktree(od, (int)mc_param("depth", 1), budget, "root", sig, true);
    if ((int)(k % 16) != part) { rbusObject_Release(o); continue; }
    mc_count(0, 1); Str os = ostr(o); w.out = o; w.got.clear(); w.gotAsync.clear();
    call(w.c.proc, [&] { rbusObject_t out = nullptr; rbusError_t e = rbusMethod_Invoke(w.c.h, "Device.M()", o, &out); CHECK(e == 0, "method with %s: %s", os.c_str(), en(e)); CHECK(out, "no output object"); w.gotAsync.push_back(ostr(out)); rbusObject_Release(out); });
    expect("method-in tree", "Device.M():" + os, w.got); expect("method-out tree", os, w.gotAsync); w.got.clear();
    call(w.p.proc, [&] { rbusEvent_t ev = {"Device.E!", RBUS_EVENT_GENERAL, o}; rbusError_t e = rbusEvent_Publish(w.p.h, &ev); CHECK(e == 0, "publish %s", en(e)); });
    mc_settle(); expect("event tree", "Device.E!:3:" + os, w.got);
    w.out = nullptr; rbusObject_Release(o); }
  mc_outcome("part %d of %llu trees", part, (unsigned long long)k); }
