/* P06: multi-parameter sets */
#include "kit.h"
struct Par { const char* n; int own; int kind; }; /* kind: 0 fine, 1 handler rejects, 2 read-only, 3 unknown to the bus, 4 write-only, 5 a row that does not exist, 6 event */
static const Par PA[] = {{"P.A", 0, 0}, {"P.B", 0, 0}, {"Q.A", 1, 0}, {"R.A", 2, 0}, {"P.J", 0, 1}, {"Q.J", 1, 1}, {"P.RO", 0, 2}, {"Q.RO", 1, 2}, {"Nope.X", -1, 3}, {"P.WO", 0, 4}, {"R.T.9.N", 2, 5}, {"P.E!", 0, 6}, {"R.J", 2, 1}, {"Q.B", 1, 0}};
enum { NPA = sizeof PA / sizeof *PA };
struct W6 { PC pr[3], c; void up() { scn_start_router(); pr[0] = pc_new("prov"); pr[1] = pc_new("prov2"); pr[2] = pc_new("prov3"); c = pc_new("cons"); CHECK(!k_reg(pr[0], {"P.A:pgs", "P.B:pgs", "P.J:pgs", "P.RO:pg", "P.WO:ps", "P.E!:ee"}) && !k_reg(pr[1], {"Q.A:pgs", "Q.B:pgs", "Q.J:pgs", "Q.RO:pg"}) && !k_reg(pr[2], {"R.A:pgs", "R.J:pgs", "R.T.{i}.:tar", "R.T.{i}.N:pgs"}), "register"); for (auto& p : pr) p.s->logget = 0; }
  void reset() { for (auto& p : pr) { PS* s = p.s; call(p.proc, [&] { for (auto& x : s->v) rbusValue_Release(x.second); s->v.clear(); for (auto& a : PA) { rbusValue_t v = vstrv((Str("old ") + a.n).c_str()); s->v[a.n] = v; } }); s->seterr.clear(); for (auto& a : PA) if (a.kind == 1) s->seterr[a.n] = RBUS_ERROR_INVALID_PARAMETER_VALUE; s->take(); } } };
static Str vs(const Str& x) { rbusValue_t v = vstrv(x.c_str()); Str r = vstr(v); rbusValue_Release(v); return r; }
struct Res { rbusError_t e; Str failed; };
static Res setmulti(W6& w, const StrV& names, const StrV& vals, int ext, rbusSetOptions_t* o, uint32_t tmo = 0) { Res r; r.failed = "(none)"; rbusHandle_t h = w.c.h; call(w.c.proc, [&] { rbusProperty_t f = nullptr, l = nullptr; for (size_t i = 0; i < names.size(); i++) { rbusValue_t v = vstrv(vals[i].c_str()); rbusProperty_t p; rbusProperty_Init(&p, names[i].c_str(), v); rbusValue_Release(v); if (!f) f = p; else { rbusProperty_SetNext(l, p); rbusProperty_Release(p); } l = p; }
    if (ext) { char* fe = nullptr; r.e = rbus_setMultiExt(h, (uint32_t)names.size(), f, o, tmo, &fe); if (fe) { r.failed = fe; free(fe); } } else r.e = rbus_setMulti(h, (int)names.size(), f, o); rbusProperty_Release(f); }); return r; }
/* every list up to the length x options */
SCN(p06_lists) { int len = (int)mc_param("len", 3), ext = mc_choose(2, "ext"), f = mc_choose(NPA, "first"), oi = mc_choose(4, "options"); W6 w; w.up(); rbusSetOptions_t o; memset(&o, 0, sizeof o); o.commit = oi == 2 || oi == 3; o.sessionId = oi == 3 ? 9 : 0; rbusSetOptions_t* op = oi ? &o : nullptr; bool commit = !op || o.commit;
  for (Odo od; od.more();) { std::vector<int> ix{f}; for (int i = 1; i < len; i++) { int k = od.choose(NPA + 1); if (k == NPA) break; ix.push_back(k); } StrV names, vals; for (size_t i = 0; i < ix.size(); i++) { names.push_back(PA[ix[i]].n); vals.push_back(fmt("new%zu", i)); } w.reset(); Res r = setmulti(w, names, vals, ext, op); Str q = join(names) + fmt(" options %d ext %d", oi, ext); mc_count(0, 1);
    bool good = true; for (int k : ix) if (PA[k].kind && PA[k].kind != 4) good = false; CHECK((r.e == 0) == good, "set of %s gives %s", q.c_str(), en(r.e)); StrV log[3]; for (int i = 0; i < 3; i++) log[i] = w.pr[i].s->take();
    if (good) { if (ext) CHECK(r.failed == "(none)", "a successful set of %s names %s", q.c_str(), r.failed.c_str()); for (int p = 0; p < 3; p++) { StrV x; int last = -1; for (size_t i = 0; i < ix.size(); i++) if (PA[ix[i]].own == p) last = (int)i; for (size_t i = 0; i < ix.size(); i++) if (PA[ix[i]].own == p) x.push_back("set " + names[i] + "=" + vs(vals[i]) + fmt(" c%d s%u cons", commit && (int)i == last, o.sessionId)); CHECK(log[p] == x, "set of %s: owner %d saw [%s], expected [%s]", q.c_str(), p, join(log[p]).c_str(), join(x).c_str()); } }
    else { if (ext) { bool ok = false; for (int k : ix) if (PA[k].kind && PA[k].kind != 4 && r.failed == PA[k].n) ok = true; CHECK(ok, "set of %s fails with %s and names %s", q.c_str(), en(r.e), r.failed.c_str()); if (PA[f].kind == 1 && ix.size() == 1) CHECK(r.e == RBUS_ERROR_INVALID_PARAMETER_VALUE, "set of %s gives %s", q.c_str(), en(r.e)); }
      for (auto& a : PA) if (a.own >= 0 && a.kind < 2) { PS* s = w.pr[a.own].s; Str v = vstr(s->v[a.n]); CHECK(v == vs(Str("old ") + a.n), "set of %s fails with %s, but %s is left at %s", q.c_str(), en(r.e), a.n, v.c_str()); } } }
  mc_outcome("%d %d %d", ext, f, oi); }
/* an owner dies, at any point of the set: the others are restored */
SCN(p06_death) { int who = mc_choose(3, "who"); W6 w; w.up(); w.reset(); mc_window(1); mc_crashable(w.pr[who].proc, 1); Res r; StrV n = {"P.A", "Q.A", "P.B", "R.A", "Q.B"}, v = {"n0", "n1", "n2", "n3", "n4"}; r = setmulti(w, n, v, 1, nullptr, 1000); mc_window(0); mc_crashable(w.pr[who].proc, 0); int cr = mc_crashed(); mc_settle(); if (!cr) CHECK(!r.e, "set gives %s", en(r.e));
  for (int p = 0; p < 3; p++) if (mc_alive(w.pr[p].proc)) for (size_t i = 0; i < n.size(); i++) { const Par* a = nullptr; for (auto& x : PA) if (n[i] == x.n) a = &x; if (a->own != p) continue; Str x = vstr(w.pr[p].s->v[n[i]]), want = r.e ? vs("old " + n[i]) : vs(v[i]); CHECK(x == want, "owner %d died, the set gives %s, %s is %s", who, en(r.e), n[i].c_str(), x.c_str()); }
  mc_outcome("%d %d %s", who, cr, en(r.e)); }
/* two consumers set overlapping lists at the same time, every schedule */
SCN(p06_conc) { int mode = mc_choose(3, "mode"); W6 w; w.up(); w.reset(); PC d = pc_new("cons2"); W6 w2 = w; w2.c = d; Res a, b; StrV na = {"P.A", "Q.A", "P.B"}, va = {"a0", "a1", "a2"}, nb = mode == 1 ? StrV{"P.B", "Q.J"} : StrV{"Q.A", "P.A"}, vb = {"b0", "b1"}; rbusHandle_t ha = w.c.h, hb = d.h; (void)ha; (void)hb;
  auto mk = [](const StrV& n, const StrV& v) { rbusProperty_t f = nullptr, l = nullptr; for (size_t i = 0; i < n.size(); i++) { rbusValue_t x = vstrv(v[i].c_str()); rbusProperty_t p; rbusProperty_Init(&p, n[i].c_str(), x); rbusValue_Release(x); if (!f) f = p; else { rbusProperty_SetNext(l, p); rbusProperty_Release(p); } l = p; } return f; };
  mc_window(1); int ta = async(w.c.proc, [&, mk] { rbusProperty_t f = mk(na, va); a.e = rbus_setMulti(ha, 3, f, nullptr); rbusProperty_Release(f); }); int tb = mode == 2 ? async(d.proc, [&] { rbusValue_t v = nullptr; b.e = rbus_get(hb, "P.B", &v); if (!b.e) { b.failed = vstr(v); rbusValue_Release(v); } }) : async(d.proc, [&, mk] { rbusProperty_t f = mk(nb, vb); char* fe = nullptr; b.e = rbus_setMultiExt(hb, 2, f, nullptr, 0, &fe); if (fe) { b.failed = fe; free(fe); } rbusProperty_Release(f); });
  CHECK(mc_joinable_within(ta, 20000) && mc_joinable_within(tb, 20000), "a call did not return"); mc_window(0); CHECK(!a.e, "set gives %s", en(a.e)); Str pa = vstr(w.pr[0].s->v["P.A"]), pb = vstr(w.pr[0].s->v["P.B"]), qa = vstr(w.pr[1].s->v["Q.A"]); StrV l = w.pr[0].s->take(), m = w.pr[1].s->take();
  for (auto* x : {&l, &m}) for (int who = 0; who < 2; who++) { StrV mine; for (auto& s : *x) if (s.size() > 6 && s.substr(s.rfind(' ') + 1) == (who ? "cons2" : "cons")) mine.push_back(s); for (size_t i = 0; i + 1 < mine.size(); i++) if (!(mode == 1 && who)) CHECK(mine[i].find(" c0 ") != Str::npos, "commit before the last parameter: %s", join(mine).c_str()); if (mine.size()) CHECK(mode == 1 && who ? true : mine.back().find(" c1 ") != Str::npos, "no commit on the last parameter: %s", join(mine).c_str()); }
  if (mode == 0) { CHECK(!b.e, "set gives %s", en(b.e)); CHECK(l.size() == 3 && m.size() == 2, "handlers saw %s / %s", join(l).c_str(), join(m).c_str()); CHECK(pa == vs("a0") || pa == vs("b1"), "P.A is %s", pa.c_str()); CHECK(qa == vs("a1") || qa == vs("b0"), "Q.A is %s", qa.c_str()); } if (mode == 1) { CHECK(b.e == RBUS_ERROR_INVALID_PARAMETER_VALUE && b.failed == "Q.J", "set gives %s naming %s", en(b.e), b.failed.c_str()); CHECK(pa == vs("a0") && qa == vs("a1"), "P.A is %s, Q.A is %s", pa.c_str(), qa.c_str()); CHECK(pb == vs("a2") || pb == vs("old P.B"), "P.B is %s", pb.c_str()); }
  if (mode == 2) CHECK(b.failed == vs("a2") || b.failed == vs("old P.B"), "get gives %s %s", en(b.e), b.failed.c_str()); CHECK(!mc_misuse(), "%s", mc_misuse_text()); mc_outcome("%d %s %s %s", mode, pa.c_str(), pb.c_str(), qa.c_str()); }
