/* P05: single, multiple and wildcard gets and single sets */
#include "kit.h"
static const StrV PE = {"P.A:pgs", "P.RO:pg", "P.WO:ps", "P.E:ee", "P.M:mm", "P.T.{i}.:tar", "P.T.{i}.N:pgs", "P.S.B:pgs", "P.S.C:pg", "W.A:pgs", "W.X:ps"}, QE = {"Q.A:pgs", "Q.RO:pg", "W.B:pgs", "W.C:pg", "V.A:pg"};
struct El { const char* n; int own; bool g, s; };
static const El EL[] = {{"P.A", 0, 1, 1}, {"P.RO", 0, 1, 0}, {"P.WO", 0, 0, 1}, {"P.S.B", 0, 1, 1}, {"P.S.C", 0, 1, 0}, {"P.T.1.N", 0, 1, 1}, {"P.T.2.N", 0, 1, 1}, {"W.A", 0, 1, 1}, {"W.X", 0, 0, 1}, {"Q.A", 1, 1, 1}, {"Q.RO", 1, 1, 0}, {"W.B", 1, 1, 1}, {"W.C", 1, 1, 0}, {"V.A", 1, 1, 0}};
static const El* el(const Str& n) { for (auto& e : EL) if (n == e.n) return &e; return nullptr; }
static bool wild(const Str& n) { return !n.empty() && (n.back() == '.' || n.find('*') != Str::npos); }
static bool match(Str pat, const Str& n) { if (pat.size() > 1 && pat.substr(pat.size() - 2) == ".*") pat.pop_back(); size_t i = 0, j = 0; while (i < pat.size()) { if (pat[i] == '*') { i++; while (j < n.size() && n[j] != '.') j++; } else { if (j >= n.size() || pat[i] != n[j]) return false; i++; j++; } } return pat.back() == '.' || j == n.size(); }
struct World { PC pr[2], c; void up() { scn_start_router(); pr[0] = pc_new("prov"); pr[1] = pc_new("prov2"); c = pc_new("cons"); CHECK(!k_reg(pr[0], PE) && !k_reg(pr[1], QE), "register"); uint32_t i; CHECK(!c_add(pr[0], "P.T.", nullptr, &i) && i == 1 && !c_add(pr[0], "P.T.", "al", &i) && i == 2, "add rows"); take(); }
  StrV take() { StrV r; for (auto& p : pr) for (auto& s : p.s->take()) r.push_back(s); return r; } };
static Str val(const Str& n) { rbusValue_t v = vstrv(("?" + n).c_str()); Str r = vstr(v); rbusValue_Release(v); return r; }
static const char* BADN[] = {"P.WO", "P.E", "P.M", "P.T.1", "P.T.9.N", "P.X", "P", "Nope.A", "P.A.X", "P.S", "P.T", "P.T.1.", "P.T.*.N", "P.", "W.", "P.T.", "Z", "P.T.1.X", "P.AA", "P.R"};
/* one name, every handler outcome */
SCN(p05_get) { World w; w.up(); Str got; for (auto& e : EL) for (int err = 0; err <= 33; err++) { if (err && !e.g) continue; auto& m = w.pr[e.own].s->geterr; if (err) m[e.n] = err; Str r = c_get(w.c, e.n), rx = c_getx(w.c, {e.n}); m.clear(); StrV l = w.take();
      if (!e.g) { CHECK(r.find("ok") != 0 && rx.find("ok") != 0, "get of the write-only %s gave %s / %s", e.n, r.c_str(), rx.c_str()); CHECK(l.empty(), "get of the write-only %s ran %s", e.n, join(l).c_str()); continue; }
      CHECK(l == StrV({Str("get ") + e.n, Str("get ") + e.n}), "two gets of %s ran: %s", e.n, join(l).c_str()); if (err) CHECK(r == en((rbusError_t)err) && rx == r, "the handler of %s answers %s, the caller sees %s / %s", e.n, en((rbusError_t)err), r.c_str(), rx.c_str());
      else CHECK(r == "ok:" + val(e.n) && rx == "ok:" + Str(e.n) + "=" + val(e.n), "get %s gave %s / %s", e.n, r.c_str(), rx.c_str()); mc_count(0, 1); }
  for (auto n : BADN) { Str r = c_get(w.c, n); StrV l = w.take(); CHECK(r.find("ok") != 0, "get of %s gave %s", n, r.c_str()); CHECK(l.empty(), "get of %s ran %s", n, join(l).c_str()); if (!wild(n)) { r = c_getx(w.c, {n}); l = w.take(); CHECK(r.find("ok") != 0 && l.empty(), "getExt of %s gave %s and ran %s", n, r.c_str(), join(l).c_str()); } }
  /* typed getters */
  rbusHandle_t h = w.c.h; int NV = nvals(); for (int k = 0; k < NV; k++) { rbusValue_t v = mkval(k); rbusValueType_t t = rbusValue_GetType(v); PS* s = w.pr[0].s; call(w.pr[0].proc, [&] { s->v["P.A"] = v; }); 
    call(w.c.proc, [&] { bool b = false; int i = 0; unsigned u = 0; char* st = nullptr; rbusError_t e = rbus_getBoolean(h, "P.A", &b); CHECK((e == 0) == (t == RBUS_BOOLEAN), "getBoolean of %s: %s", vstr(v).c_str(), en(e)); if (!e) CHECK(b == rbusValue_GetBoolean(v), "getBoolean of %s", vstr(v).c_str());
      e = rbus_getInt(h, "P.A", &i); CHECK((e == 0) == (t == RBUS_INT32), "getInt of %s: %s", vstr(v).c_str(), en(e)); if (!e) CHECK(i == rbusValue_GetInt32(v), "getInt of %s gave %d", vstr(v).c_str(), i);
      e = rbus_getUint(h, "P.A", &u); CHECK((e == 0) == (t == RBUS_UINT32), "getUint of %s: %s", vstr(v).c_str(), en(e)); if (!e) CHECK(u == rbusValue_GetUInt32(v), "getUint of %s gave %u", vstr(v).c_str(), u);
      e = rbus_getStr(h, "P.A", &st); CHECK((e == 0) == (t == RBUS_STRING), "getStr of %s: %s", vstr(v).c_str(), en(e)); if (!e) { CHECK(!strcmp(st, rbusValue_GetString(v, nullptr)), "getStr of %s gave %s", vstr(v).c_str(), st); free(st); } });
    s->v.clear(); rbusValue_Release(v); mc_count(0, 1); } w.take();
  call(w.c.proc, [&] { rbusValue_t v = nullptr; rbusProperty_t p = nullptr; int n = 0; const char* a = "P.A"; CHECK(rbus_get(nullptr, "P.A", &v), "get on a null handle"); CHECK(rbus_getExt(nullptr, 1, &a, &n, &p), "getExt on a null handle"); CHECK(rbus_getExt(h, 0, &a, &n, &p), "getExt of nothing"); CHECK(rbus_getExt(h, 1, nullptr, &n, &p), "getExt of null"); CHECK(rbus_get(h, nullptr, &v), "get of null"); CHECK(rbus_get(h, "", &v), "get of the empty name"); });
  CHECK(w.take().empty(), "invalid calls ran handlers"); rbusHandle_t old = w.c.h; comp_close(w.c); call(w.c.proc, [&] { rbusValue_t v = nullptr; rbusProperty_t p = nullptr; int n = 0; const char* a = "P.A"; CHECK(rbus_get(old, "P.A", &v) == RBUS_ERROR_INVALID_HANDLE, "get on a closed handle"); (void)p; (void)n; (void)a; v = vint(1); CHECK(rbus_set(old, "P.A", v, nullptr) == RBUS_ERROR_INVALID_HANDLE, "set on a closed handle"); rbusValue_Release(v); }); CHECK(w.take().empty(), "a closed handle ran handlers"); mc_outcome("done"); }
/* one name, every value and handler outcome */
SCN(p05_set) { World w; w.up(); rbusHandle_t h = w.c.h; int NV = nvals(); for (auto& e : EL) for (int k = 0; k < NV; k++) { rbusValue_t v = mkval(k); rbusError_t r = c_set(w.c, e.n, v); StrV l = w.take(); Str g; if (e.s && e.g) { g = c_get(w.c, e.n); w.take(); }
      if (rbusValue_GetType(v) == RBUS_NONE) { rbusValue_Release(v); continue; } if (!e.s) CHECK(r && l.empty(), "set of the read-only %s gave %s and ran %s", e.n, en(r), join(l).c_str()); else { CHECK(!r, "set %s=%s gave %s", e.n, vstr(v).c_str(), en(r)); CHECK(l == StrV({Str("set ") + e.n + "=" + vstr(v) + " c1 s0 cons"}), "set %s=%s ran %s", e.n, vstr(v).c_str(), join(l).c_str()); if (e.g) CHECK(g == "ok:" + vstr(v), "after set %s=%s get gives %s", e.n, vstr(v).c_str(), g.c_str()); } mc_count(0, 1); rbusValue_Release(v); }
  for (auto& e : EL) if (e.s) for (int err = 1; err <= 33; err++) { auto& m = w.pr[e.own].s->seterr; m[e.n] = err; rbusError_t r = c_seti(w.c, e.n, err); m.clear(); StrV l = w.take(); CHECK(l.size() == 1, "a rejected set ran %s", join(l).c_str()); CHECK(r == (rbusError_t)err, "the handler of %s answers %s, the caller sees %s", e.n, en((rbusError_t)err), en(r)); mc_count(0, 1); }
  for (auto n : BADN) if (strcmp(n, "P.WO")) { rbusError_t r = c_seti(w.c, n, 1); StrV l = w.take(); CHECK(r && l.empty(), "set of %s gave %s and ran %s", n, en(r), join(l).c_str()); }
  /* options: commit 0/1 x session */
  for (int cm = 0; cm < 2; cm++) for (unsigned ss : {0u, 7u}) { rbusSetOptions_t o; memset(&o, 0, sizeof o); o.commit = cm; o.sessionId = ss; rbusValue_t v = vint(5); rbusError_t r = c_set(w.c, "P.A", v, &o); rbusValue_Release(v); StrV l = w.take(); CHECK(!r && l.size() == 1 && l[0].find(fmt(" c%d s%u ", cm, ss)) != Str::npos, "set with commit %d session %u: %s, %s", cm, ss, en(r), join(l).c_str()); }
  call(w.c.proc, [&] { for (int i : {0, 1, -1, INT_MAX, INT_MIN}) CHECK(!rbus_setInt(h, "P.A", i), "setInt"); for (unsigned i : {0u, UINT_MAX}) CHECK(!rbus_setUInt(h, "P.A", i), "setUInt"); CHECK(!rbus_setBoolean(h, "P.A", true) && !rbus_setBoolean(h, "P.A", false) && !rbus_setStr(h, "P.A", "") && !rbus_setStr(h, "P.A", "xyz"), "typed set"); });
  StrV l = w.take(), x; auto add = [&](rbusValue_t v) { x.push_back("set P.A=" + vstr(v) + " c1 s0 cons"); rbusValue_Release(v); }; for (int i : {0, 1, -1, INT_MAX, INT_MIN}) { rbusValue_t v = vint(i); add(v); } for (unsigned i : {0u, UINT_MAX}) { rbusValue_t v; rbusValue_Init(&v); rbusValue_SetUInt32(v, i); add(v); } for (int b : {1, 0}) { rbusValue_t v; rbusValue_Init(&v); rbusValue_SetBoolean(v, b); add(v); } add(vstrv("")); add(vstrv("xyz")); CHECK(l == x, "typed sets ran %s", join(l).c_str());
  call(w.c.proc, [&] { rbusValue_t v = vint(1); CHECK(rbus_set(nullptr, "P.A", v, nullptr), "set on a null handle"); CHECK(rbus_set(h, nullptr, v, nullptr), "set of null"); CHECK(rbus_set(h, "P.A", nullptr, nullptr), "set to null"); rbusValue_Release(v); }); CHECK(w.take().empty(), "invalid calls ran handlers"); mc_outcome("done"); }
/* every list of names up to the length, with every single handler failing or none */
static const char* MN[] = {"P.A", "P.RO", "Q.A", "W.A", "W.B", "P.T.1.N", "P.WO", "Nope.A", "P.X", "P.", "W.", "P.T.*.N", "P.S.*", "W.*", "P.T.", "P.T.2.", "V."};
SCN(p05_multi) { int len = (int)mc_param("len", 2), NM = sizeof MN / sizeof *MN, f = mc_choose(NM, "first"); World w; w.up(); static const char* FAIL[] = {nullptr, "P.A", "Q.A", "W.A", "W.B", "P.T.1.N", "P.S.C"};
  for (auto fl : FAIL) for (Odo o; o.more();) { StrV names; names.push_back(MN[f]); for (int i = 1; i < len; i++) { int k = o.choose(NM + 1); if (k == NM) break; names.push_back(MN[k]); } if (fl) w.pr[el(fl)->own].s->geterr[fl] = RBUS_ERROR_OUT_OF_RESOURCES; Str r = c_getx(w.c, names); for (auto& p : w.pr) p.s->geterr.clear(); StrV l = w.take(); Str q = join(names) + (fl ? Str(" with ") + fl + " failing" : Str()); mc_count(0, 1);
      std::map<Str, int> want, opt; bool err = false, one = names.size() == 1; for (auto& n : names) if (wild(n)) { for (auto& e : EL) if (e.g && match(n, e.n)) { if (fl && !strcmp(fl, e.n)) { opt[e.n] = 1; continue; } want[e.n]++; } } else { const El* e = el(n); if (!e || !e->g || (fl && n == fl)) err = true; else want[n]++; }
      if (r.find("ok:") != 0) { bool mayfail = err || !one || !opt.empty() || names[0].substr(names[0].size() - 2) == ".*"; if (!err && !one && opt.empty()) { bool anyw = false; for (auto& n : names) if (wild(n)) anyw = true; mayfail = anyw; } CHECK(mayfail, "get of %s failed: %s", q.c_str(), r.c_str()); if (one && err && fl && names[0] == fl) CHECK(r == "OUT_OF_RESOURCES", "get of %s gave %s", q.c_str(), r.c_str()); continue; }
      CHECK(!err, "get of %s succeeded: %s", q.c_str(), r.c_str()); std::map<Str, int> got; size_t p = 3; while (p < r.size()) { size_t z = std::min(r.find(',', p), r.size()); Str it = r.substr(p, z - p); size_t eq = it.find('='); Str n = it.substr(0, eq); CHECK(it.substr(eq + 1) == val(n), "get of %s returned %s", q.c_str(), it.c_str()); got[n]++; p = z + 1; }
      for (auto& g : got) { CHECK(want.count(g.first), "get of %s returned %s, which was not asked for or not readable", q.c_str(), g.first.c_str()); CHECK(g.second <= want[g.first], "get of %s returned %s %d times", q.c_str(), g.first.c_str(), g.second); } for (auto& x : want) CHECK(got.count(x.first), "get of %s does not return %s: %s", q.c_str(), x.first.c_str(), r.c_str());
      bool anyw = false; for (auto& n : names) if (wild(n)) anyw = true; if (!anyw) CHECK(got == want, "get of %s returned %s", q.c_str(), r.c_str()); }
  mc_outcome("%s", MN[f]); }
/* histories of sets, gets, registration changes and provider deaths */
SCN(p05_hist) { int depth = (int)mc_param("depth", 4); scn_start_router(); PC c[2] = {pc_new("c1"), pc_new("c2")}, p; bool alive = false, reg = false; Str cur; int uniq = 0;
  static const char* ON[] = {"c1 sets", "c2 sets", "unregister", "register", "provider dies", "provider starts", "c1 reopens", "rejected set"}; enum { NO = 8 };
  auto start = [&] { p = pc_new("prov"); alive = true; reg = false; }; auto check = [&](const char* h) { for (auto& x : c) { Str r = c_get(x, "H.A"), m = c_getx(x, {"H.A", "H.A"}); if (alive && reg) { Str w = cur.empty() ? val("H.A") : cur; CHECK(r == "ok:" + w, "get gives %s, the owner has %s: %s", r.c_str(), w.c_str(), h); CHECK(m == "ok:H.A=" + w + ",H.A=" + w, "getExt gives %s, the owner has %s: %s", m.c_str(), w.c_str(), h); } else CHECK(r.find("ok") != 0 && m.find("ok") != 0, "get of an element nobody owns gives %s / %s: %s", r.c_str(), m.c_str(), h); } if (alive) p.s->take(); };
  { std::vector<int> sc; for (int i = 0; i < depth; i++) sc.push_back(mc_choose(NO, "operation")); start(); CHECK(!k_reg(p, {"H.A:pgs"}), "register"); reg = true; Str h;
    for (int x : sc) { h += Str(h.empty() ? "" : "; ") + ON[x]; switch (x) {
      case 0: case 1: case 7: { int v = ++uniq; if (x == 7 && alive) p.s->seterr["H.A"] = RBUS_ERROR_INVALID_INPUT; rbusError_t e = c_seti(c[x == 1], "H.A", v); if (alive) p.s->seterr.clear(); bool ok = alive && reg && x != 7; StrV l; if (alive) l = p.s->take(); CHECK((e == 0) == ok, "set gives %s: %s", en(e), h.c_str()); CHECK(l.size() == (alive && reg ? 1u : 0u), "the set ran %s: %s", join(l).c_str(), h.c_str()); if (ok) { rbusValue_t w = vint(v); cur = vstr(w); CHECK(l[0] == "set H.A=" + cur + " c1 s0 " + c[x == 1].name, "the set ran %s: %s", join(l).c_str(), h.c_str()); rbusValue_Release(w); } break; }
      case 2: if (alive) { rbusError_t e = k_unreg(p, {"H.A:pgs"}); if (reg) CHECK(!e, "unregister gives %s: %s", en(e), h.c_str()); reg = false; } break; case 3: if (alive && !reg) { CHECK(!k_reg(p, {"H.A:pgs"}), "register fails: %s", h.c_str()); reg = true; } break;
      case 4: if (alive) { mc_kill(p.proc); mc_settle(); alive = false; cur.clear(); } break; case 5: if (!alive) start(); break; case 6: comp_close(c[0]); comp_open(c[0]); break; }
      check(h.c_str()); } mc_count(0, 1); mc_outcome("%s", cur.c_str()); } }
/* concurrent gets, sets and registration changes under every schedule up to the bound */
SCN(p05_conc) { int mode = mc_choose(3, "mode"); scn_start_router(); PC p = pc_new("prov"), c1 = pc_new("c1"), c2 = pc_new("c2"); CHECK(!k_reg(p, {"K.A:pgs", "K.B:pgs"}), "register"); struct Op { Str r; int th; }; std::vector<Op*> ops; auto go = [&](PC& c, auto f) { Op* o = new Op; PC* cc = new PC(c); o->th = async(c.proc, [=] { o->r = f(*cc); }); ops.push_back(o); };
  auto set = [](int i) { return [i](PC& c) -> Str { rbusValue_t v = vint(i); rbusError_t e = rbus_set(c.h, "K.A", v, nullptr); rbusValue_Release(v); return en(e); }; }; auto get = [](const char* n) { return [n](PC& c) -> Str { rbusValue_t v = nullptr; rbusError_t e = rbus_get(c.h, n, &v); if (e) return en(e); Str r = "ok:" + vstr(v); rbusValue_Release(v); return r; }; };
  auto unreg = [](PC& c) -> Str { Elems x({"K.B:pgs"}); return en(rbus_unregDataElements(c.h, 1, x.e.data())); };
  mc_window(1); go(c1, set(1)); if (mode == 0) { go(c2, set(2)); go(c1, get("K.A")); } else if (mode == 1) { go(c1, set(2)); go(c2, get("K.A")); } else { go(p, unreg); go(c2, get("K.B")); go(c1, get("K.A")); }
  for (auto o : ops) CHECK(mc_joinable_within(o->th, 20000), "a call did not return"); mc_window(0); rbusValue_t a = vint(1), b = vint(2); Str va = vstr(a), vb = vstr(b); rbusValue_Release(a); rbusValue_Release(b); StrV l = p.s->take(), sets; for (auto& s : l) if (s.find("set") == 0) sets.push_back(s); CHECK(ops[0]->r == "SUCCESS", "set gives %s", ops[0]->r.c_str()); CHECK(sets.size() == (mode == 2 ? 1u : 2u), "the sets ran %s", join(l).c_str());
  CHECK(ops[0]->r == "SUCCESS", "set gives %s", ops[0]->r.c_str()); if (mode < 2) { CHECK(ops[1]->r == "SUCCESS", "set gives %s", ops[1]->r.c_str()); const Str& g = ops[2]->r; CHECK(g == "ok:" + val("K.A") || g == "ok:" + va || g == "ok:" + vb, "get gives %s", g.c_str()); } else { const Str &g = ops[2]->r, &ga = ops[3]->r; CHECK(ops[1]->r == "SUCCESS", "unregister gives %s", ops[1]->r.c_str()); CHECK(g == "ok:" + val("K.B") || g.find("ok") != 0, "get gives %s", g.c_str()); CHECK(ga == "ok:" + val("K.A") || ga == "ok:" + va, "get gives %s", ga.c_str()); CHECK(c_get(c1, "K.B").find("ok") != 0, "K.B is still readable"); }
  Str f = c_get(c1, "K.A"), last = sets.back().find(va) != Str::npos ? va : vb; CHECK(f == "ok:" + last, "the last set stored %s, get gives %s", last.c_str(), f.c_str()); CHECK(!mc_misuse(), "%s", mc_misuse_text()); mc_outcome("%d %s %s", mode, ops[2]->r.c_str(), last.c_str()); }
