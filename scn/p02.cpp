/* P02: matching of responses to requests */
#include "kit.h"
#include "wire.h"
#include <rtConnection.h>
#include <rtMessageHeader.h>
#include <rtError.h>
struct Req { Str pay; uint32_t tmo; rtError err = 9999; Str got; int64_t t0 = 0, t1 = 0; int th = -1; bool done = false; };
static Req* mkreq(const char* p, uint32_t t) { Req* r = new Req; r->pay = p; r->tmo = t; return r; }
static void doreq(rtConnection con, Req* r, const char* to) { uint8_t* p = nullptr; uint32_t n = 0; r->t0 = mc_now_us(); r->err = rtConnection_SendBinaryRequest(con, (const uint8_t*)r->pay.data(), (uint32_t)r->pay.size(), to, &p, &n, r->tmo); r->t1 = mc_now_us(); if (r->err == RT_OK) { r->got = Str((char*)p, n); rtMessage_FreeByteArray(p); } r->done = true; }
static WMsg rsp(const WMsg& q, const Str& pay, uint32_t fl = WF_RSP | WF_RAW) { WMsg m; m.topic = q.reply; m.reply = q.topic; m.seq = q.seq; m.flags = fl; m.payload = pay; return m; }
static void expect_answer(Req* r, const char* what) { CHECK(r->done, "%s did not complete", what); CHECK(r->err == RT_OK, "%s failed with error %d although it was answered", what, (int)r->err); CHECK(r->got == "re:" + r->pay, "%s got the reply '%s'", what, r->got.c_str()); }
struct Net { int cl; rtConnection con = nullptr; Wire s; int router;
  void up() { router = scn_start_router(); cl = mc_proc_new("client"); call(cl, [&] { rtConnection_Create(&con, "cl", "unix:///tmp/rtrouted"); }); CHECK(s.open(), "connect"); mc_settle(); s.subscribe("s.INBOX.1", 1); s.subscribe("S", 2); mc_settle(); s.take();
    Req* r = mkreq("warmup", 1000); start(r); mc_settle(); auto v = s.take(); CHECK(v.size() == 1, "warmup"); s.send(rsp(v[0], "re:warmup")); fin(r); expect_answer(r, "the first request"); }
  void start(Req* r, const char* to = "S") { rtConnection c = con; Str* t = new Str(to); r->th = async(cl, [=] { doreq(c, r, t->c_str()); }); }
  void fin(Req* r) { mc_join(r->th); } };
/* concurrent callers, every interleaving up to the bound, every order of answers */
SCN(p02_conc) { int nreq = (int)mc_param("req", 2), order = mc_choose(nreq == 2 ? 2 : 6, "order of answers"), one = mc_choose(2, "answers sent together"); mc_opt(MC_OPT_MUTEXPTS, 1); Net n; n.up(); std::vector<Req*> rs; for (int i = 0; i < nreq; i++) rs.push_back(mkreq(fmt("q%d", i).c_str(), 5000));
  mc_window(1); for (auto r : rs) n.start(r);
  std::vector<WMsg> in; for (int k = 0; k < 8 && (int)in.size() < nreq; k++) { mc_settle(); for (auto& m : n.s.take()) in.push_back(m); } CHECK((int)in.size() == nreq, "%zu of %d requests arrived", in.size(), nreq);
  std::vector<int> ix; for (int i = 0; i < nreq; i++) ix.push_back(i); for (int i = 0; i < order; i++) std::next_permutation(ix.begin(), ix.end());
  Str all; for (int i : ix) { Str e = wire_encode(rsp(in[(size_t)i], "re:" + in[(size_t)i].payload)); if (one) all += e; else { n.s.raw(e); } } if (one) n.s.raw(all);
  for (auto r : rs) CHECK(mc_joinable_within(r->th, 6000), "a request did not return within its timeout"); mc_window(0); for (auto r : rs) { n.fin(r); expect_answer(r, "a request"); }
  CHECK(!mc_misuse(), "%s", mc_misuse_text()); Req* z = mkreq("last", 1000); n.start(z); mc_settle(); auto v = n.s.take(); CHECK(v.size() == 1, "later request lost"); n.s.send(rsp(v[0], "re:last")); n.fin(z); expect_answer(z, "a later request"); mc_outcome("order %d", order); }
/* the answer races with the timeout, which may fire at any point; another request runs at the same time and one follows */
SCN(p02_race) { int answer = mc_choose(3, "answer"); mc_opt(MC_OPT_TIMEOUTS, 1); Net n; n.up(); Req *a = mkreq("qa", 500), *b = mkreq("qb", 100000);
  mc_window(1); n.start(a); n.start(b); std::vector<WMsg> in; for (int k = 0; k < 8 && in.size() < 2; k++) { mc_settle(); for (auto& m : n.s.take()) in.push_back(m); } CHECK(in.size() == 2, "%zu of 2 requests arrived", in.size());
  if (answer == 2) std::swap(in[0], in[1]); for (auto& m : in) { if (answer == 0 && m.payload == "qa") mc_sleep_ms(700); n.s.send(rsp(m, "re:" + m.payload)); } mc_settle(); CHECK(mc_joinable_within(a->th, 1000), "a request did not return within its timeout"); CHECK(mc_joinable_within(b->th, 1000), "an answered request did not return"); mc_window(0); n.fin(a); n.fin(b);
  CHECK((a->err == RT_OK && a->got == "re:qa") || (a->err == RT_ERROR_TIMEOUT), "the request that raced with its timeout ended with error %d and reply '%s'", (int)a->err, a->got.c_str());
  CHECK((b->err == RT_OK && b->got == "re:qb") || b->err == RT_ERROR_TIMEOUT, "the other request ended with error %d and reply '%s'", (int)b->err, b->got.c_str());
  CHECK(!mc_misuse(), "%s", mc_misuse_text()); mc_settle(); n.s.take(); Req* z = mkreq("last", 1000); n.start(z); mc_settle(); auto v = n.s.take(); CHECK(v.size() == 1, "later request lost"); n.s.send(rsp(v[0], "re:last")); n.fin(z); expect_answer(z, "a later request"); mc_outcome("%d %d %d", answer, (int)a->err, (int)b->err); }
/* every script of answers, wrong answers, undeliverable notices and pauses against two overlapping requests with different timeouts */
SCN(p02_script) { int depth = (int)mc_param("depth", 4), parts = (int)mc_param("parts", 16), part = mc_choose(parts, "part"); Net n; n.up(); uint64_t k = 0; enum { NA = 9 }; static const char* AN[] = {"answer A", "answer B", "answer A again", "answer to nobody", "A undeliverable", "wait 600 ms", "start C", "answer C", "empty answer to B"};
  for (Odo o; o.more();) { std::vector<int> sc; for (int i = 0; i < depth; i++) sc.push_back(o.choose(NA)); if ((int)(k++ % (uint64_t)parts) != part) continue; Str h; for (int x : sc) h += Str(h.empty() ? "" : "; ") + AN[x];
    Req *q[3] = {mkreq("qA", 1000), mkreq("qB", 2000), nullptr}; WMsg w[3]; bool have[3] = {0, 0, 0}; struct Ex { int st = 0; Str rep; int64_t dl = 0; } ex[3]; /* st: 0 open, 1 reply, 2 undeliverable, 3 timed out */
    auto pull = [&] { mc_settle(); for (auto& m : n.s.take()) { if (m.topic != "S") continue; int i = m.payload == "qA" ? 0 : m.payload == "qB" ? 1 : m.payload == "qC" ? 2 : -1; CHECK(i >= 0, "foreign request"); CHECK(!have[i], "a request arrived twice: %s", h.c_str()); w[i] = m; have[i] = true; } };
    int64_t base = mc_now_us(); for (int i = 0; i < 2; i++) { n.start(q[i]); pull(); CHECK(have[i], "request lost: %s", h.c_str()); ex[i].dl = base + q[i]->tmo * 1000LL; }
    auto tick = [&] { int64_t now = mc_now_us(); for (auto& e : ex) if (!e.st && e.dl && now >= e.dl) e.st = 3; };
    auto reply = [&](int i, const Str& p, uint32_t fl) { if (!have[i]) return; n.s.send(rsp(w[i], p, fl)); tick(); if (!ex[i].st) { ex[i].st = fl & WF_UNDELIVERABLE ? 2 : 1; ex[i].rep = p; } pull(); };
    for (int x : sc) { if (x == 0) reply(0, "re:qA", WF_RSP | WF_RAW); if (x == 1) reply(1, "re:qB", WF_RSP | WF_RAW); if (x == 2) reply(0, "re:qA second", WF_RSP | WF_RAW); if (x == 3) { WMsg m = w[0]; m.seq += 1000000; n.s.send(rsp(m, "stray")); pull(); } if (x == 4) reply(0, "", WF_RSP | WF_UNDELIVERABLE);
      if (x == 5) { mc_sleep_ms(600); tick(); pull(); } if (x == 6 && !q[2]) { q[2] = mkreq("qC", 800); n.start(q[2]); pull(); CHECK(have[2], "request lost: %s", h.c_str()); ex[2].dl = mc_now_us() + 800000; } if (x == 7) reply(2, "re:qC", WF_RSP | WF_RAW); if (x == 8) reply(1, "", WF_RSP | WF_RAW); }
    for (int i = 0; i < 3; i++) if (q[i]) { if (!ex[i].st) ex[i].st = 3; CHECK(mc_joinable_within(q[i]->th, 5000), "request %c does not return: %s", 'A' + i, h.c_str()); n.fin(q[i]); Req* r = q[i]; rtError want = ex[i].st == 1 ? RT_OK : ex[i].st == 2 ? RT_OBJECT_NO_LONGER_AVAILABLE : RT_ERROR_TIMEOUT;
        CHECK(r->err == want && (want != RT_OK || r->got == ex[i].rep), "request %c ended with error %d and reply '%s', expected error %d and reply '%s': %s", 'A' + i, (int)r->err, r->got.c_str(), (int)want, ex[i].rep.c_str(), h.c_str());
        CHECK(r->t1 - r->t0 <= (int64_t)r->tmo * 1000 + 50000, "request %c returned after %lld us, timeout %u ms: %s", 'A' + i, (long long)(r->t1 - r->t0), r->tmo, h.c_str()); delete r; }
    Req* z = mkreq("last", 1000); n.start(z); mc_settle(); auto v = n.s.take(); WMsg* lw = nullptr; for (auto& m : v) if (m.payload == "last") lw = &m; CHECK(lw, "later request lost: %s", h.c_str()); n.s.send(rsp(*lw, "re:last")); n.fin(z); expect_answer(z, "a later request"); delete z; mc_count(0, 1); }
  CHECK(!mc_misuse(), "%s", mc_misuse_text()); mc_outcome("part %d", part); }
/* the connection is lost while requests are outstanding: the broker dies, the responder dies, or the connection is cut, at any point */
SCN(p02_loss) { int what = mc_choose(3, "who dies"); Net n; n.up(); Req *a = mkreq("qa", 3000), *b = mkreq("qb", 4000); int srv = mc_proc_new("server"); rtConnection sc = nullptr;
  call(srv, [&] { rtConnection_Create(&sc, "srv", "unix:///tmp/rtrouted"); static rtConnection me; me = sc; rtConnection_AddListener(sc, "R", [](rtMessageHeader const* h, uint8_t const* p, uint32_t len, void*) { Str s = "re:" + Str((const char*)p, len); rtConnection_SendBinaryResponse(me, h, (const uint8_t*)s.data(), (uint32_t)s.size(), 1000); }, nullptr); }); mc_settle();
  mc_crashable(what == 0 ? n.router : srv, what < 2); if (what == 2) mc_cuttable(n.cl, 1); mc_window(1); n.start(a, "R"); n.start(b, "R"); bool ra = mc_joinable_within(a->th, 20000), rb = mc_joinable_within(b->th, 20000); mc_window(0); mc_crashable(what == 0 ? n.router : srv, 0); if (what == 2) mc_cuttable(n.cl, 0);
  int cr = mc_crashed(); CHECK(ra && rb, "a request has not returned 20 s after the %s", what == 0 ? "broker died" : what == 1 ? "responder died" : "connection was cut"); n.fin(a); n.fin(b);
  for (Req* r : {a, b}) { CHECK(r->err != RT_OK || r->got == "re:" + r->pay, "request %s got the reply '%s'", r->pay.c_str(), r->got.c_str()); if (!cr) CHECK(r->err == RT_OK, "request %s failed with %d although nothing happened", r->pay.c_str(), (int)r->err); CHECK(r->t1 - r->t0 <= (int64_t)r->tmo * 1000 + (cr && what != 1 ? 3000000 : 0) + 50000, "request %s returned after %lld us", r->pay.c_str(), (long long)(r->t1 - r->t0)); }
  mc_outcome("%d %d %d %d", what, cr, (int)a->err, (int)b->err); if (mc_alive(n.cl)) mc_kill(n.cl); }
/* the API: slow handlers, per-call timeouts, callers in two components; nobody gets somebody else's late answer */
SCN(p02_api) { int d1 = mc_choose(3, "delay 1"), d2 = mc_choose(3, "delay 2"), d3 = mc_choose(2, "delay 3"); scn_start_router(); PC p = pc_new("prov"), q = pc_new("prov2"), c = pc_new("cons"); CHECK(!k_reg(p, {"P.A:pgs", "P.B:pgs"}) && !k_reg(q, {"Q.A:pgs"}), "register");
  static int DL[] = {0, 1500, 4000}; int da = DL[d1], db = DL[d2], dq = d3 ? 1500 : 0; std::map<Str, int>* dl = new std::map<Str, int>{{"P.A", da}, {"P.B", db}, {"Q.A", dq}};
  for (PC* x : {&p, &q}) call(x->proc, [&] { ps->get = [dl](rbusHandle_t, const char* n, rbusProperty_t pr, rbusGetHandlerOptions_t*) { int d = (*dl)[n]; if (d) mc_sleep_ms(d); rbusValue_t v = vstrv((Str("value of ") + n).c_str()); rbusProperty_SetValue(pr, v); rbusValue_Release(v); return RBUS_ERROR_SUCCESS; }; });
  rbusHandle_t h = c.h; call(c.proc, [&] { rbusHandle_ConfigGetTimeout(h, 1000); }); static const char* N[] = {"P.A", "P.B", "Q.A"}; struct G { Str r; int64_t t; int th; }; G* g = new G[6];
  auto go = [&](int slot, int i) { G* x = g + slot; x->th = async(c.proc, [=] { int64_t t0 = mc_now_us(); rbusValue_t v = nullptr; rbusError_t e = rbus_get(h, N[i], &v); x->t = mc_now_us() - t0; x->r = e ? en(e) : "ok:" + vstr(v); if (v) rbusValue_Release(v); }); };
  mc_window(1); for (int i = 0; i < 3; i++) go(i, i); for (int i = 0; i < 3; i++) { CHECK(mc_joinable_within(g[i].th, 20000), "get %s did not return", N[i]); mc_join(g[i].th); } mc_window(0);
  for (int i = 0; i < 3; i++) { CHECK(g[i].r.find("ok:") != 0 || g[i].r.find(fmt("value of %s", N[i])) != Str::npos, "get %s returned %s", N[i], g[i].r.c_str()); CHECK(g[i].t <= 1050000, "get %s took %lld us with a timeout of 1000 ms", N[i], (long long)g[i].t); }
  if (!da && !db) for (int i = 0; i < 2; i++) CHECK(g[i].r.find("ok:") == 0, "get %s failed: %s", N[i], g[i].r.c_str()); CHECK((dq == 0) == (g[2].r.find("ok:") == 0), "get Q.A with a handler delay of %d ms: %s", dq, g[2].r.c_str());
  (*dl)["P.A"] = (*dl)["P.B"] = (*dl)["Q.A"] = 0; mc_sleep_ms(9000); for (int i = 0; i < 3; i++) { Str r = c_get(c, N[i]); CHECK(r.find("ok:") == 0 && r.find(fmt("value of %s", N[i])) != Str::npos, "after the late answers get %s returned %s", N[i], r.c_str()); } mc_outcome("%s %s %s", g[0].r.c_str(), g[1].r.c_str(), g[2].r.c_str()); }
