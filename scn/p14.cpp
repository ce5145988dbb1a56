/* P14: method calls */
#include "kit.h"
enum { NOBJ = 6 };
/* an object without a name arrives with an empty name */
static Str os14(rbusObject_t o) { Str s = ostr(o), r; for (size_t i = 0; i < s.size(); ) { if (!s.compare(i, 7, "(null)(")) { r += "("; i += 7; } else r += s[i++]; } return r; }
/* the argument and result objects used */
static rbusObject_t obj14(int k, int salt) {
  if (k == 0) return nullptr;
  rbusObject_t o; rbusObject_Init(&o, k == 5 ? "named" : nullptr); auto set = [&](const char* n, rbusValue_t v) { rbusObject_SetValue(o, n, v); rbusValue_Release(v); };
  if (k == 2) { set("p", vint(salt)); set("q", vstrv("two words")); }
  if (k == 3) for (int i = 0; i < nvals(); i++) set(fmt("v%d", i).c_str(), mkval(i));
  if (k == 4) { rbusObject_t ch; rbusObject_Init(&ch, "inner"); rbusValue_t v = vint(salt); rbusObject_SetValue(ch, "x", v); rbusValue_Release(v); rbusValue_Init(&v); rbusValue_SetObject(v, ch); rbusObject_SetValue(o, "obj", v); rbusValue_Release(v); rbusObject_Release(ch); rbusProperty_t p; v = vint(5); rbusProperty_Init(&p, "prop", v); rbusValue_Release(v); rbusValue_Init(&v); rbusValue_SetProperty(v, p); rbusObject_SetValue(o, "pr", v); rbusValue_Release(v); rbusProperty_Release(p); }
  if (k == 5) { set("error_code", vint(77)); set("error_string", vstrv("my own")); set("p", vint(salt)); }
  return o; }
static Str want_out(int k, int salt, int err, bool deferred) {
  rbusObject_t o = obj14(k, salt); if (!o) rbusObject_Init(&o, nullptr);
  if (err && k != 5 && (!deferred || k == 0)) { rbusValue_t v = vint(err); rbusObject_SetValue(o, "error_code", v); rbusValue_Release(v); v = vstrv(rbusError_ToString((rbusError_t)err)); rbusObject_SetValue(o, "error_string", v); rbusValue_Release(v); }
  Str s = os14(o); rbusObject_Release(o); return s; }
static void copy_to(rbusObject_t dst, rbusObject_t src) { if (!src) return; for (rbusProperty_t p = rbusObject_GetProperties(src); p; p = rbusProperty_GetNext(p)) rbusObject_SetValue(dst, rbusProperty_GetName(p), rbusProperty_GetValue(p)); if (rbusObject_GetName(src)) rbusObject_SetName(dst, rbusObject_GetName(src)); }
static void cb14(rbusHandle_t h, char const* n, rbusError_t e, rbusObject_t out) { ps->as.push_back(fmt("%lld|%s|%d|", (long long)mc_now_us(), n ? n : "(null)", (int)e) + os14(out)); if (ps->onmet) ps->onmet(h, n, e, out); }
struct Call { rbusHandle_t h; const char* name; int form, to; int in, salt; rbusError_t e = RBUS_ERROR_SUCCESS; Str out; int64_t began = 0, ended = -1; rbusObject_t ino = nullptr; };
static void run14(Call* c) { c->began = mc_now_us(); rbusObject_t in = obj14(c->in, c->salt); if (c->form == 0) { rbusObject_t out = nullptr; c->e = rbusMethod_Invoke(c->h, c->name, in, &out); c->out = out ? os14(out) : "-"; if (out) rbusObject_Release(out); } else c->e = rbusMethod_InvokeAsync(c->h, c->name, in, cb14, c->to); if (in) rbusObject_Release(in); c->ended = mc_now_us(); }
static rbusMethodAsyncHandle_t g14[16]; static int n14; static int beh14; static int e14, o14, s14;
/* the provider's behaviours: 0 answers at once, 1 defers, 2 blocks, 3 never answers */
static rbusError_t met14(rbusHandle_t, const char*, rbusObject_t, rbusObject_t out, rbusMethodAsyncHandle_t ah) { ps->log.back() += fmt(" @%lld", (long long)mc_now_us()); if (beh14 == 1) { g14[n14++] = ah; return RBUS_ERROR_ASYNC_RESPONSE; } if (beh14 == 2) mc_sleep_ms(20000); if (beh14 == 3) mc_sleep_ms(100000); rbusObject_t o = obj14(o14, s14); copy_to(out, o); if (o) rbusObject_Release(o); return (rbusError_t)e14; }
static Str nin(int k, int salt) { rbusObject_t o = obj14(k, salt); if (!o) rbusObject_Init(&o, nullptr); Str s = os14(o); rbusObject_Release(o); return s; }
struct W14 { PC p, c; W14() { scn_start_router(); p = pc_new("prov"); c = pc_new("cons"); call(p.proc, [] { ps->met = met14; }); CHECK(!k_reg(p, {"P.M():mm", "P.T.{i}.:tar", "P.T.{i}.M():mm", "P.A:pgs", "P.E!:e", "P.N():m"}), "register"); uint32_t i; CHECK(!c_add(p, "P.T.", nullptr, &i), "row"); p.s->take(); }
  void beh(int b, int e, int o, int s) { call(p.proc, [=] { beh14 = b; e14 = e; o14 = o; s14 = s; n14 = 0; }); } };
/* call form x arguments x results x result codes, answered at once or later */
SCN(p14_calls) {
  int form = mc_choose(3, "form"), how = mc_choose(3, "answer"), nm = mc_choose(2, "method"); W14 w; int salt = 0; const char* N = nm ? "P.T.1.M()" : "P.M()"; PS* cs = w.c.s;
  for (int err = 0; err <= 33; err++) for (int o = 0; o < NOBJ; o++) for (int in = 0; in < NOBJ; in++) { if (err == RBUS_ERROR_ASYNC_RESPONSE) continue; if (err && in != 2 && in) continue; if (how == 2 && (err > 1 || (in != 2 && in) || (form != 2 && (o > 3 || o == 1)))) continue; salt++; bool def = how > 0; w.beh(def, err, o, salt);
      Call k; k.h = w.c.h; k.name = N; k.form = form; k.to = form == 2 ? 3 : 0; k.in = in; k.salt = salt; Call* pk = &k; Str info = fmt(" (form %d, answered %s, code %d, result %d, arguments %d)", form, how == 0 ? "at once" : how == 1 ? "later" : "after the timeout", err, o, in);
      int64_t b = mc_now_us(); int t = async(w.c.proc, [pk] { run14(pk); }); mc_settle(); int tmo = form == 2 ? 3000 : 15000; int64_t ans = 0;
      if (def) { mc_sleep_ms(how == 1 ? 700 : tmo + 1000); ans = mc_now_us(); int err2 = err, o2 = o, s2 = salt; rbusError_t se = RBUS_ERROR_SUCCESS; call(w.p.proc, [&] { CHECK(n14 == 1, "the handler ran %d times%s", n14, info.c_str()); rbusObject_t out = obj14(o2, s2); se = rbusMethod_SendAsyncResponse(g14[0], (rbusError_t)err2, out); if (out) rbusObject_Release(out); }); CHECK(!se, "sending the answer gives %s%s", en(se), info.c_str()); mc_settle(); }
      CHECK(mc_joinable_within(t, 1), "the call did not return%s", info.c_str()); int64_t took = k.ended - b; StrV l = w.p.s->take(), as = cs->takeas();
      CHECK(l.size() == 1, "the handler ran %zu times%s", l.size(), info.c_str()); { Str x = l[0].substr(0, l[0].rfind(" @")); size_t z = x.find("(null)("); if (z != Str::npos) x.erase(z, 6); CHECK(x == Str("met ") + N + " " + nin(in, salt), "the handler got %s, not %s%s", x.c_str(), nin(in, salt).c_str(), info.c_str()); }
      Str wo = want_out(o, salt, err, def); int we = err; if (how == 2) { we = RBUS_ERROR_TIMEOUT; wo = want_out(0, 0, RBUS_ERROR_TIMEOUT, false); }
      if (form == 0) { CHECK(as.empty(), "a callback from a synchronous call%s", info.c_str()); CHECK((int)k.e == we, "the caller sees %s%s", en(k.e), info.c_str()); CHECK(k.out == wo, "the caller gets %s instead of %s%s", k.out.c_str(), wo.c_str(), info.c_str()); if (how == 2) CHECK(took >= tmo * 1000LL - 1000 && took < tmo * 1000LL + 500000, "the call took %lld us%s", (long long)took, info.c_str()); else CHECK(took < 800000, "the call took %lld us%s", (long long)took, info.c_str()); }
      else { CHECK(!k.e && took < 50000, "the asynchronous call gives %s after %lld us%s", en(k.e), (long long)took, info.c_str()); CHECK(as.size() == 1, "%zu callbacks%s", as.size(), info.c_str()); long long at = atoll(as[0].c_str()); Str r = as[0].substr(as[0].find('|') + 1); CHECK(r == fmt("%s|%d|", N, we) + wo, "the callback got %s instead of %s|%d|%s%s", r.c_str(), N, we, wo.c_str(), info.c_str());
        if (how == 2) CHECK(at - b >= tmo * 1000LL - 1000 && at - b < tmo * 1000LL + 500000, "the callback came after %lld us%s", at - b, info.c_str()); }
      mc_count(0, 1); }
  mc_outcome("%d %d %d", form, how, nm); }
/* what there is no answer from */
SCN(p14_missing) {
  int form = mc_choose(3, "form"); W14 w; rbusHandle_t h = w.c.h; PS* cs = w.c.s; static const char* BAD[] = {"P.A", "P.E!", "P.T.", "P.T.1.", "P.N()", "P.X()", "P.M", "P.T.2.M()", "P.T.M()", "P.", "P", "Nope.M()", "prov", "cons", "", "P.M().X", "P.T.1.M"};
  for (auto n : BAD) for (int in = 0; in < 3; in += 2) { Call k; k.h = h; k.name = n; k.form = form; k.to = form == 2 ? 3 : 0; k.in = in; k.salt = 1; Call* pk = &k; int t = async(w.c.proc, [pk] { run14(pk); }); CHECK(mc_joinable_within(t, 16000), "the call of %s did not return", n); mc_settle(); if (form) mc_sleep_ms(16000); StrV l = w.p.s->take(), as = cs->takeas(); CHECK(l.empty(), "calling %s ran %s", n, join(l).c_str());
    Str o = k.out; int e = k.e; if (form && !e) { CHECK(as.size() == 1, "%zu callbacks after calling %s", as.size(), n); const char* s = strchr(as[0].c_str(), '|') + 1; size_t ln = strlen(n); CHECK(!strncmp(s, n, ln) && s[ln] == '|', "the callback is about %s", s); e = atoi(s + ln + 1); o = strchr(s + ln + 1, '|') + 1; } else if (form) CHECK(as.empty(), "a callback although the call was refused");
    CHECK(e, "calling %s succeeds", n); CHECK(e > 0 && e <= RBUS_ERROR_INVALID_PARAMETER_VALUE, "calling %s gives %d", n, e); if (o != "-" && !(form && k.e)) CHECK(o.find("error_code=i32:") != Str::npos && o.find("error_string=str:") != Str::npos, "calling %s gives %s, %s", n, ename(e), o.c_str()); mc_count(0, 1); }
  call(w.c.proc, [&] { rbusObject_t o = nullptr; CHECK(rbusMethod_Invoke(nullptr, "P.M()", nullptr, &o), "a null handle"); CHECK(rbusMethod_Invoke(h, nullptr, nullptr, &o), "a null name"); CHECK(rbusMethod_Invoke(h, "P.M()", nullptr, nullptr), "no place for the outputs"); CHECK(rbusMethod_InvokeAsync(nullptr, "P.M()", nullptr, cb14, 1), "a null handle"); CHECK(rbusMethod_InvokeAsync(h, nullptr, nullptr, cb14, 1), "a null name"); CHECK(rbusMethod_InvokeAsync(h, "P.M()", nullptr, nullptr, 1), "a null callback"); CHECK(rbusMethod_SendAsyncResponse(nullptr, RBUS_ERROR_SUCCESS, nullptr), "a null async handle"); });
  CHECK(w.p.s->take().empty() && cs->takeas().empty(), "invalid calls had an effect");
  /* a provider that blocks, never answers, or dies */
  for (int b = 2; b < 6; b++) { if (b >= 4) { if (!mc_alive(w.p.proc)) { w.p = pc_new("prov"); call(w.p.proc, [] { ps->met = met14; }); CHECK(!k_reg(w.p, {"P.M():mm"}), "register"); } } w.beh(b == 4 ? 3 : b == 5 ? 1 : b, 0, 2, 5); Call k; k.h = h; k.name = "P.M()"; k.form = form; k.to = form == 2 ? 3 : 0; k.in = 2; k.salt = 9; Call* pk = &k; int64_t t0 = mc_now_us(); int tmo = form == 2 ? 3000 : 15000; int t = async(w.c.proc, [pk] { run14(pk); }); mc_settle(); if (b >= 4) { mc_sleep_ms(200); mc_kill(w.p.proc); }
    CHECK(mc_joinable_within(t, tmo + 300), "the call did not return (behaviour %d)", b); mc_sleep_ms(tmo + 300); int e = k.e; int64_t at = k.ended; StrV as = cs->takeas(); if (form) { CHECK(!k.e && as.size() == 1, "%s, %zu callbacks (behaviour %d)", en(k.e), as.size(), b); at = atoll(as[0].c_str()); e = atoi(strstr(as[0].c_str(), "P.M()|") + 6); } else CHECK(as.empty(), "a callback"); CHECK(e, "a call succeeds without an answer (behaviour %d)", b); if (b < 4) CHECK(e == RBUS_ERROR_TIMEOUT, "a call without an answer gives %s", ename(e)); CHECK(at - t0 < tmo * 1000LL + 300000, "the error came after %lld us", (long long)(at - t0)); if (b < 4) CHECK(at - t0 > tmo * 1000LL - 1000, "the error came after %lld us", (long long)(at - t0));
    if (b < 4) CHECK(w.p.s->take().size() == 1, "the handler did not run once"); mc_sleep_ms(110000); CHECK(cs->takeas().empty(), "a late answer was reported (behaviour %d)", b); mc_count(0, 1); }
  w.p = pc_new("prov"); call(w.p.proc, [] { ps->met = met14; }); CHECK(!k_reg(w.p, {"P.M():mm"}), "register"); w.beh(0, 0, 2, 3); Str r = c_inv(w.c, "P.M()", nullptr); CHECK(r == "SUCCESS|" + want_out(2, 3, 0, false), "afterwards a call gives %s", r.c_str()); mc_outcome("%d", form); }
/* several calls at the same time, under all schedules */
static int gs14[16], close14, chain14, nest14; static rbusHandle_t gh14; static int mode14;
static int salt_of(rbusObject_t in) { rbusValue_t v = in ? rbusObject_GetValue(in, "p") : nullptr; return v && rbusValue_GetType(v) == RBUS_INT32 ? rbusValue_GetInt32(v) : -1; }
static void echo(rbusObject_t out, int s) { rbusValue_t v = vint(s * 10); rbusObject_SetValue(out, "echo", v); rbusValue_Release(v); }
static rbusError_t metc(rbusHandle_t h, const char* n, rbusObject_t in, rbusObject_t out, rbusMethodAsyncHandle_t ah) {
  int s = salt_of(in); if (!strcmp(n, "P.D()")) { gs14[n14] = s; g14[n14++] = ah; return RBUS_ERROR_ASYNC_RESPONSE; }
  if (nest14 && !strcmp(n, "P.M()")) { rbusObject_t o = nullptr, i2 = obj14(2, s + 1); rbusError_t e = rbusMethod_Invoke(h, "C.M()", i2, &o); rbusObject_Release(i2); ps->log.push_back(fmt("nested %d ", (int)e) + os14(o)); if (o) rbusObject_Release(o); }
  echo(out, s); return RBUS_ERROR_SUCCESS; }
static void send14(int i) { rbusObject_t o; rbusObject_Init(&o, nullptr); echo(o, gs14[i]); rbusMethod_SendAsyncResponse(g14[i], RBUS_ERROR_SUCCESS, o); rbusObject_Release(o); }
static Str echoed(int s) { rbusObject_t o; rbusObject_Init(&o, nullptr); echo(o, s); Str r = os14(o); rbusObject_Release(o); return r; }
SCN(p14_conc) {
  int mode = mc_choose(10, "mode"); scn_start_router(); PC p = pc_new("prov"), c = pc_new("cons"), d = pc_new("cons2"); Str info = fmt(" (mode %d)", mode); call(p.proc, [mode] { ps->met = metc; nest14 = mode == 6; }); call(c.proc, [] { ps->met = metc; }); CHECK(!k_reg(p, {"P.M():mm", "P.D():mm", "P.N():mm"}) && !k_reg(c, {"C.M():mm"}), "register");
  auto mk = [&](PC& x, const char* n, int form, int to, int salt) { Call* k = new Call; k->h = x.h; k->name = n; k->form = form; k->to = to; k->in = 2; k->salt = salt; return k; }; auto go = [&](PC& x, Call* k) { return async(x.proc, [k] { run14(k); }); };
  std::vector<std::pair<PC*, Call*>> cs; std::vector<int> th; auto add = [&](PC& x, const char* n, int form, int to, int salt, bool start) { Call* k = mk(x, n, form, to, salt); cs.push_back({&x, k}); if (start) th.push_back(go(x, k)); return k; }; auto join = [&] { for (int t : th) CHECK(mc_joinable_within(t, 40000), "a call did not return%s", info.c_str()); th.clear(); };
  rbusError_t ce = RBUS_ERROR_SUCCESS, *pce = &ce; int64_t closed = -1, *pcl = &closed; rbusHandle_t hp = p.h, hc = c.h; PC b = c; bool late = false, closedC = false, closedP = false;
  switch (mode) {
    case 0: add(c, "P.D()", 0, 0, 1, true); add(c, "P.D()", 0, 0, 2, true); mc_settle(); mc_window(1); th.push_back(async(p.proc, [] { send14(1); })); th.push_back(async(p.proc, [] { send14(0); })); break;
    case 1: mc_window(1); add(c, "P.M()", 0, 0, 1, true); add(c, "P.M()", 1, 0, 2, true); break;
    case 2: mc_window(1); mc_crashable(p.proc, 1); add(c, "P.M()", 0, 0, 1, true); add(d, "P.M()", 1, 2, 2, true); break;
    case 3: add(c, "P.D()", 1, 1, 1, true); mc_settle(); mc_sleep_ms(998); mc_settle(); mc_window(1); th.push_back(async(p.proc, [] { mc_sleep_ms(2); send14(0); })); th.push_back(async(c.proc, [=] { mc_sleep_ms(2); })); add(c, "P.M()", 0, 0, 2, true); late = true; break;
    case 4: add(c, "P.D()", 1, 2, 1, true); mc_settle(); mc_window(1); closedP = true; { int first = mc_choose(2, "answer before closing"); th.push_back(async(p.proc, [=] { if (first) send14(0); *pce = rbus_close(hp); *pcl = mc_now_us(); if (!first) send14(0); })); } break;
    case 5: add(c, "P.D()", 1, 2, 1, true); mc_settle(); mc_window(1); closedC = true; th.push_back(async(p.proc, [] { send14(0); })); th.push_back(async(c.proc, [=] { *pce = rbus_close(hc); *pcl = mc_now_us(); })); break;
    case 6: mc_window(1); add(c, "P.M()", 1, 0, 1, true); add(d, "P.M()", 0, 0, 2, true); break;
    case 7: call(c.proc, [=] { ps->onmet = [=](rbusHandle_t h, const char*, rbusError_t, rbusObject_t o) { (void)o; if (chain14++) return; rbusObject_t i2 = obj14(2, 7), ou = nullptr; rbusError_t e = rbusMethod_Invoke(h, "P.M()", i2, &ou); ps->log.push_back(fmt("chained %d ", (int)e) + os14(ou)); if (ou) rbusObject_Release(ou); e = rbusMethod_InvokeAsync(h, "P.M()", i2, cb14, 0); ps->log.push_back(fmt("chained async %d", (int)e)); rbusObject_Release(i2); }; }); mc_window(1); add(c, "P.M()", 1, 0, 1, true); add(c, "P.M()", 0, 0, 2, true); break;
    case 8: mc_window(1); add(c, "P.N()", 0, 0, 1, true); add(d, "P.M()", 1, 0, 2, true); th.push_back(async(p.proc, [=] { Elems x({"P.N():mm"}); *pce = rbus_unregDataElements(hp, 1, x.e.data()); })); break;
    case 9: b.name = "consb"; b.h = nullptr; comp_open(b); call(c.proc, [=] { ps->onmet = [](rbusHandle_t h, const char*, rbusError_t, rbusObject_t) { rbusError_t e = rbus_close(h); ps->log.push_back(fmt("close %d", (int)e)); }; }); mc_window(1); closedC = true; add(c, "P.M()", 1, 0, 1, true); th.push_back(go(b, mk(b, "P.M()", 0, 0, 3))); break; }
  join(); mc_settle(); mc_window(0); mc_crashable(p.proc, 0); bool crash = mc_crashed() > 0; mc_sleep_ms(mode == 1 || mode == 6 || mode == 7 || mode == 8 || mode == 9 ? 16000 : 3000); mc_settle();
  StrV pl, cl = c.s->take(); if (!crash) pl = p.s->take(); CHECK(!ce, "%s gives %s%s", mode == 8 ? "unregistering" : "closing", en(ce), info.c_str()); Str out;
  StrV asc = c.s->takeas(), asd = d.s->takeas(); for (auto* a : {&asc, &asd}) for (auto& s : *a) info += " callback " + s;
  for (auto& x : cs) { Call* k = x.second; int e = k->e; Str o = k->out; int n = 0; for (auto& s : pl) if (s.find(fmt("p=i32:%d;", k->salt)) != Str::npos && s.find(k->name) != Str::npos) n++; if (k->form) { CHECK(!k->e, "the asynchronous call gives %s%s", en(k->e), info.c_str()); StrV& a = x.first == &c ? asc : asd; StrV m; for (auto& s : a) { if (s.find(k->name) != Str::npos && (s.find(echoed(k->salt)) != Str::npos || s.find("|0|") == Str::npos)) m.push_back(s); } if (!(closedC && mode == 5)) CHECK(m.size() == 1, "%zu callbacks for call %d%s", m.size(), k->salt, info.c_str()); CHECK(m.size() <= 1, "%zu callbacks%s", m.size(), info.c_str()); if (m.empty()) { out += "- "; continue; } long long at = atoll(m[0].c_str()); if (mode == 5) CHECK(at <= closed, "a callback %lld us after closing%s", at - (long long)closed, info.c_str()); const char* q = strchr(strchr(m[0].c_str(), '|') + 1, '|') + 1; e = atoi(q); o = strchr(q, '|') + 1; }
    bool mayfail = crash || (late && k->salt == 1) || (closedP && k->salt == 1) || (mode == 8 && k->salt == 1) || mode == 5; if (e) { CHECK(mayfail, "call %d gives %s%s", k->salt, ename(e), info.c_str()); if (late) CHECK(e == RBUS_ERROR_TIMEOUT, "call %d gives %s%s", k->salt, ename(e), info.c_str()); if (mode == 8) CHECK(e == RBUS_ERROR_DESTINATION_NOT_FOUND || e == RBUS_ERROR_ELEMENT_DOES_NOT_EXIST, "call %d gives %s%s", k->salt, ename(e), info.c_str()); } else CHECK(o == echoed(k->salt), "call %d gets %s%s", k->salt, o.c_str(), info.c_str()); if (!crash && (!e || mode == 3)) CHECK(n == 1, "call %d ran the handler %d times%s", k->salt, n, info.c_str()); CHECK(n <= 1, "call %d ran the handler %d times%s", k->salt, n, info.c_str()); out += fmt("%d ", e); }
  if (mode == 6) { int m = 0; for (auto& s : pl) if (s.find("nested ") == 0) { CHECK(s == "nested 0 " + echoed(2) || s == "nested 0 " + echoed(3), "%s%s", s.c_str(), info.c_str()); m++; } CHECK(m == 2, "%d nested calls%s", m, info.c_str()); }
  if (mode == 7) { CHECK(cl == StrV({"chained 0 " + echoed(7), "chained async 0"}), "the call made in the callback: %s%s", ::join(cl).c_str(), info.c_str()); int m = 0; for (auto& s : asc) if (s.find(echoed(7)) != Str::npos) m++; CHECK(m == 1 && asc.size() == 2, "%zu callbacks%s", asc.size(), info.c_str()); }
  if (mode == 9) CHECK(cl == StrV({"close 0"}), "closing in the callback: %s%s", ::join(cl).c_str(), info.c_str());
  if (mode != 9 && !(mode == 5)) { if (crash || closedP) { p = pc_new("prov"); call(p.proc, [] { ps->met = metc; }); CHECK(!k_reg(p, {"P.M():mm"}), "register"); } Str r = c_inv(c, "P.M()", nullptr); CHECK(r.find("SUCCESS|") == 0, "afterwards a call gives %s%s", r.c_str(), info.c_str()); }
  if (mode != 9 && !closedC) CHECK(!comp_close(c), "close%s", info.c_str()); if (mode == 9) CHECK(!comp_close(b), "close%s", info.c_str()); CHECK(!comp_close(d), "close%s", info.c_str()); CHECK(!mc_misuse(), "%s%s", mc_misuse_text(), info.c_str()); mc_outcome("%d %s", mode, out.c_str()); }
