/* P16: one session at a time, the same for everybody, and it goes with the sets */
#include "kit.h"
static const char* SIG = "currentSessionIDSignal";
static Str c_create(Comp& c, uint32_t* id) { rbusError_t e = RBUS_ERROR_SUCCESS; uint32_t s = 77; rbusHandle_t h = c.h; call(c.proc, [&] { e = rbus_createSession(h, &s); }); *id = s; return en(e); }
static Str c_cur(Comp& c, uint32_t* id) { rbusError_t e = RBUS_ERROR_SUCCESS; uint32_t s = 77; rbusHandle_t h = c.h; call(c.proc, [&] { e = rbus_getCurrentSession(h, &s); }); *id = s; return en(e); }
static Str c_end(Comp& c, uint32_t id) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { e = rbus_closeSession(h, id); }); return en(e); }
/* session number of an announcement "1:ud|name|type|content"; -1 if it has none */
static int evid(const Str& e) { size_t k = e.find("sessionid=i32:"); return k == Str::npos ? -1 : atoi(e.c_str() + k + 14); }
static rbusError_t set16(PC& c, int form, const StrV& names, rbusSetOptions_t* o) {
  rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { rbusProperty_t head = nullptr, last = nullptr; int i = 10; for (auto& n : names) { rbusValue_t v = vint(i++); rbusProperty_t p; rbusProperty_Init(&p, n.c_str(), v); rbusValue_Release(v); if (last) { rbusProperty_SetNext(last, p); rbusProperty_Release(p); } else head = p; last = p; }
    char* fail = nullptr; if (form == 0) e = rbus_set(h, names[0].c_str(), rbusProperty_GetValue(head), o); else if (form == 1) e = rbus_setMulti(h, (int)names.size(), head, o); else e = rbus_setMultiExt(h, (uint32_t)names.size(), head, o, 0, &fail); free(fail); rbusProperty_Release(head); }); return e; }
enum { O_CRE, O_END, O_ENDX, O_END0, O_ENDM, O_GET, O_OPS };
struct W16 { PC a, b, w, p, q; bool full = false; };
static W16 world16(bool prov) { W16 x; scn_start_router(); x.full = prov; x.a = pc_new("A"); x.b = pc_new("B"); x.w = pc_new("W"); if (prov) { x.p = pc_new("P"); x.q = pc_new("Q"); CHECK(!k_reg(x.p, {"P.A:pgs", "P.B:pgs"}) && !k_reg(x.q, {"Q.A:pgs"}), "register"); } return x; }
SCN(p16_hist) {
  int depth = (int)mc_param("depth", 4); W16 x = world16(true); int sm = scn_start_session_manager(); CHECK(!c_sub(x.w, SIG, 1) && !c_sub(x.a, SIG, 2), "subscribe to the announcements"); mc_settle();
  uint32_t cur = 0; std::set<uint32_t> used; Str h; bool up = true; uint32_t last = 0;
  for (int i = 0; i < depth; i++) {
    int k = mc_choose(2 * O_OPS + 3, "operation"); PC& c = k % 2 ? x.b : x.a; int op = k / 2; uint32_t id = 0, was = cur; Str r; x.w.s->takeev(); x.a.s->takeev();
    if (op < O_OPS && k < 2 * O_OPS) { h += fmt(" %s:%s", c.name.c_str(), op == O_CRE ? "create" : op == O_END ? "end" : op == O_ENDX ? "end another" : op == O_END0 ? "end 0" : op == O_ENDM ? "end -1" : "ask");
      switch (op) {
        case O_CRE: r = c_create(c, &id); if (!up) CHECK(r != "SUCCESS" && !id, "created a session without a session manager:%s", h.c_str()); else if (cur) CHECK(r == "SESSION_ALREADY_EXIST" && !id, "creating a second session gives %s, %u:%s", r.c_str(), id, h.c_str()); else { CHECK(r == "SUCCESS" && id, "creating a session gives %s, %u:%s", r.c_str(), id, h.c_str()); cur = last = id; } break;
        case O_END: { uint32_t s = cur ? cur : last ? last : 1; r = c_end(c, s); if (cur) { CHECK(r == "SUCCESS", "ending session %u gives %s:%s", s, r.c_str(), h.c_str()); cur = 0; } else CHECK(r != "SUCCESS", "ending session %u, which is not active, succeeds:%s", s, h.c_str()); break; }
        case O_ENDX: r = c_end(c, cur + 1); CHECK(r != "SUCCESS", "ending session %u, which is not active, succeeds:%s", cur + 1, h.c_str()); break;
        case O_END0: r = c_end(c, 0); break; /* documented default session: nothing to end */
        case O_ENDM: r = c_end(c, 0xffffffffu); CHECK(r != "SUCCESS", "ending session -1 succeeds:%s", h.c_str()); break;
        case O_GET: break; } }
    else if (k == 2 * O_OPS) { h += " B dies"; if (!mc_alive(x.b.proc)) break; mc_kill(x.b.proc); x.b = pc_new("B"); }
    else if (k == 2 * O_OPS + 1) { h += " A reopens"; CHECK(!comp_close(x.a), "close"); comp_open(x.a); CHECK(!c_sub(x.a, SIG, 2), "subscribe again%s", h.c_str()); }
    else { h += " manager restarts"; mc_kill(sm); mc_settle(); CHECK(c_cur(x.a, &id) != "SUCCESS" && !id, "a session without a session manager:%s", h.c_str()); sm = scn_start_session_manager(); cur = 0; mc_settle(); }
    mc_settle();
    for (PC* y : {&x.a, &x.b, &x.w}) { r = c_cur(*y, &id); CHECK(r == "SUCCESS" && id == cur, "%s is told %s, session %u instead of %u:%s", y->name.c_str(), r.c_str(), id, cur, h.c_str()); }
    for (PC* y : {&x.w, &x.a}) { StrV ev = y->s->takeev(); if (cur != was && k < 2 * O_OPS) CHECK(!ev.empty(), "the change was not announced to %s:%s", y->name.c_str(), h.c_str()); for (auto& e : ev) CHECK(evid(e) == (int)cur && e.find(SIG) != Str::npos, "announcement %s instead of session %u:%s", e.c_str(), cur, h.c_str()); if (k >= 2 * O_OPS) continue; }
    /* the sets of this session */
    if (cur) { rbusSetOptions_t o; memset(&o, 0, sizeof o); o.commit = i % 2; o.sessionId = cur; x.p.s->take(); CHECK(!set16(x.b, i % 3, {"P.A"}, &o), "set:%s", h.c_str()); StrV l = x.p.s->take(); int n = 0; for (auto& s : l) if (s.find("set ") == 0) { n++; CHECK(s.find(fmt(" s%u ", cur)) != Str::npos, "the handler saw %s in session %u", s.c_str(), cur); } CHECK(n == 1, "%d sets", n); }
    mc_count(0, 1); }
  CHECK(!mc_misuse(), "%s", mc_misuse_text()); mc_outcome("%u%s", cur, h.substr(0, 30).c_str()); }
/* the session and commit options reach the handlers in every form of set */
SCN(p16_sets) {
  W16 x = world16(true); int form = mc_choose(3, "form"), fail = mc_choose(4, "failing"), which = mc_choose(6, "names");
  static const StrV NM[] = {{"P.A"}, {"P.A", "P.B"}, {"P.A", "Q.A"}, {"P.A", "P.B", "Q.A"}, {"Q.A", "P.A", "P.B"}, {"P.B", "Q.A", "P.A"}}; StrV names = form ? NM[which] : StrV({NM[which][0]}); if (!form && which > 0 && which < 4) { mc_outcome("-"); return; }
  const char* FN[] = {nullptr, "P.A", "P.B", "Q.A"}; if (fail && std::find(names.begin(), names.end(), FN[fail]) == names.end()) { mc_outcome("-"); return; }
  if (fail) { PC& f = FN[fail][0] == 'P' ? x.p : x.q; Str n = FN[fail]; call(f.proc, [=] { ps->seterr[n] = RBUS_ERROR_INVALID_INPUT; }); }
  call(x.p.proc, [] { ps->v["P.A"] = vint(1); ps->v["P.B"] = vint(2); }); call(x.q.proc, [] { ps->v["Q.A"] = vint(3); });
  for (uint32_t sid : {0u, 1u, 2u, 7u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) for (int commit = 0; commit < 3; commit++) {
    rbusSetOptions_t o; memset(&o, 0, sizeof o); o.commit = commit == 1; o.sessionId = sid; x.p.s->take(); x.q.s->take(); rbusError_t e = set16(x.a, form, names, commit == 2 ? nullptr : &o); Str info = fmt(" (form %d, session %u, commit %d, failing %s)", form, sid, commit, fail ? FN[fail] : "none"); uint32_t want = commit == 2 ? 0 : sid;
    CHECK(fail ? e != RBUS_ERROR_SUCCESS : !e, "set gives %s%s", en(e), info.c_str());
    for (PC* y : {&x.p, &x.q}) { StrV l = y->s->take(), mine, sets; for (auto& n : names) if (n[0] == y->name[0]) mine.push_back(n); for (auto& s : l) if (s.find("set ") == 0) { sets.push_back(s); CHECK(s.find(fmt(" s%u A", want)) != Str::npos, "the handler saw \"%s\" instead of session %u of A%s", s.c_str(), want, info.c_str()); }
      if (!fail) { CHECK(sets.size() == mine.size(), "%zu sets instead of %zu at %s%s", sets.size(), mine.size(), y->name.c_str(), info.c_str()); bool cm = commit == 2 || o.commit; for (size_t i = 0; i < sets.size(); i++) { bool lastone = i + 1 == sets.size(); CHECK((sets[i].find(" c1 ") != Str::npos) == (cm && lastone), "\"%s\": the commit mark belongs to the last set of a committing request only%s", sets[i].c_str(), info.c_str()); } } }
    mc_count(0, 1); }
  CHECK(!mc_misuse(), "%s", mc_misuse_text()); mc_outcome("%d %d %d", form, fail, which); }
/* two or three requests at the same time */
struct Q16 { rbusHandle_t h; int op; uint32_t id = 0; rbusError_t e = RBUS_ERROR_SUCCESS; bool done = false; };
static void run16(Q16* q) { q->e = q->op == 0 ? rbus_createSession(q->h, &q->id) : q->op == 1 ? rbus_closeSession(q->h, 1) : rbus_getCurrentSession(q->h, &q->id); q->done = true; }
SCN(p16_conc) {
  int mode = mc_choose(10, "mode"), pre = mc_choose(2, "a session is open"), nest = mc_choose(2, "asked again in the announcement"); static const int OP[10][3] = {{0, 0, -1}, {0, 1, -1}, {1, 1, -1}, {0, 2, -1}, {1, 2, -1}, {0, 0, 0}, {0, 1, 0}, {1, 0, 1}, {0, 0, 1}, {0, 1, 2}}; int crash = nest ? 0 : mc_choose(2, "manager may die"), same = crash ? 0 : mc_choose(2, "same component");
  W16 x = world16(false); int sm = scn_start_session_manager(); CHECK(!c_sub(x.w, SIG, 1), "subscribe"); mc_settle(); uint32_t id = 0; if (pre) CHECK(c_create(x.a, &id) == "SUCCESS" && id == 1, "create"); mc_settle(); x.w.s->takeev();
  if (nest) call(x.w.proc, [] { ps->onev = [](rbusHandle_t h, const rbusEvent_t* e, rbusEventSubscription_t*) { uint32_t s = 99; rbusError_t r = rbus_getCurrentSession(h, &s); (void)e; ps->log.push_back(fmt("%d %u", (int)r, s)); }; });
  Q16 q[3]; std::vector<int> th; Str info = fmt(" (mode %d, open %d, same component %d)", mode, pre, same); mc_window(1); if (crash) mc_crashable(sm, 1);
  for (int i = 0; i < 3 && OP[mode][i] >= 0; i++) { PC& c = same || i % 2 == 0 ? x.a : x.b; q[i].h = c.h; q[i].op = OP[mode][i]; Q16* r = &q[i]; th.push_back(async(c.proc, [r] { run16(r); })); }
  for (int t : th) CHECK(mc_joinable_within(t, 40000), "a call did not return%s", info.c_str()); mc_settle(); mc_window(0); mc_crashable(sm, 0); bool dead = mc_crashed() > 0;
  if (dead) { for (size_t i = 0; i < th.size(); i++) if (q[i].e) CHECK(!q[i].id, "a session number from a failed call%s", info.c_str()); sm = scn_start_session_manager(); CHECK(c_cur(x.b, &id) == "SUCCESS" && !id, "the restarted manager has session %u%s", id, info.c_str()); CHECK(c_create(x.b, &id) == "SUCCESS" && id, "create after the restart%s", info.c_str()); mc_outcome("dead"); return; }
  /* some order of the calls explains all results, the final state */
  StrV got; for (size_t i = 0; i < th.size(); i++) got.push_back(fmt("%d:%u", (int)q[i].e, q[i].id)); CHECK(c_cur(x.b, &id) == "SUCCESS", "ask%s", info.c_str()); int perm[3] = {0, 1, 2}; bool okk = false;
  do { uint32_t cur = pre; StrV w(th.size()); for (size_t i = 0; i < th.size(); i++) { int j = perm[i]; switch (q[j].op) { case 0: if (cur) w[j] = fmt("%d:0", (int)RBUS_ERROR_SESSION_ALREADY_EXIST); else { cur = 1; w[j] = "0:1"; } break; case 1: if (cur) { cur = 0; w[j] = "0:0"; } else w[j] = fmt("%d:0", (int)RBUS_ERROR_SESSION_ALREADY_EXIST); break; default: w[j] = fmt("0:%u", cur); } } if (w == got && cur == id) okk = true; } while (std::next_permutation(perm, perm + th.size()));
  CHECK(okk, "no order of the calls explains %s, session %u%s", join(got).c_str(), id, info.c_str());
  StrV ev = x.w.s->takeev(); if ((uint32_t)pre != id || (th.size() > 1 && q[0].op < 2 && !q[0].e)) CHECK(!ev.empty(), "no announcement%s", info.c_str()); if (!ev.empty()) CHECK(evid(ev.back()) == (int)id, "the last announcement is %s instead of %u%s", ev.back().c_str(), id, info.c_str());
  if (nest) { StrV l = x.w.s->take(); int n = 0; for (auto& s : l) { n++; CHECK(s[0] == '0', "asking from within the announcement: %s%s", s.c_str(), info.c_str()); } CHECK(n == (int)ev.size(), "%d calls within %zu announcements%s", n, ev.size(), info.c_str()); if (n) CHECK(l.back() == fmt("0 %u", id), "after the last announcement, the session is %s instead of %u%s", l.back().c_str(), id, info.c_str()); }
  CHECK(!mc_misuse(), "%s%s", mc_misuse_text(), info.c_str()); mc_outcome("%d %s", mode, join(got).c_str()); }
