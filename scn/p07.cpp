/* P07: element registration */
#include "kit.h"
static const char* SP[] = {"X.A:pgs", "X.B:pgs", "X.A.C:pgs", "X.T.{i}.:tar", "X.T.{i}.N:pgs", "X.E!:ee", "X.M():mm", "Y.A:pgs"}; enum { NSP = 8 };
static Str nm(int i) { Str s = SP[i]; return s.substr(0, s.rfind(':')); }
struct W7 { PC c[2], q; bool open[2]; int own[NSP]; Str h;
  void up() { scn_start_router(); for (int i = 0; i < 2; i++) { c[i] = pc_new(i ? "c2" : "c1"); open[i] = true; } q = pc_new("probe"); for (int& x : own) x = -1; }
  void reg(int i, const std::vector<int>& l) { StrV sp; Str ns; bool dup = false, self = false; for (int k : l) { sp.push_back(SP[k]); ns += Str(ns.empty() ? "" : ",") + nm(k); if (own[k] == 1 - i) dup = true; if (own[k] == i) self = true; } for (size_t a = 0; a < l.size(); a++) for (size_t b = 0; b < a; b++) if (l[a] == l[b]) self = true; h += fmt("; %s registers %s", c[i].name.c_str(), ns.c_str()); rbusError_t e = k_reg(c[i], sp);
    if (dup) CHECK(e == RBUS_ERROR_ELEMENT_NAME_DUPLICATE, "registering a name held by the other component gives %s%s", en(e), h.c_str()); else if (!self) CHECK(!e, "registering free names gives %s%s", en(e), h.c_str()); if (!e) for (int k : l) own[k] = i; }
  void unreg(int i, const std::vector<int>& l) { StrV sp; Str ns; bool all = true; for (int k : l) { sp.push_back(SP[k]); ns += Str(ns.empty() ? "" : ",") + nm(k); if (own[k] != i) all = false; } h += fmt("; %s unregisters %s", c[i].name.c_str(), ns.c_str()); rbusError_t e = k_unreg(c[i], sp); if (all) CHECK(!e, "unregistering gives %s%s", en(e), h.c_str()); for (int k : l) if (own[k] == i) own[k] = -1; }
  void drop(int i) { for (int& x : own) if (x == i) x = -1; }
  void close(int i) { h += fmt("; %s closes and opens", c[i].name.c_str()); comp_close(c[i]); drop(i); comp_open(c[i]); }
  void kill(int i) { h += fmt("; %s dies and restarts", c[i].name.c_str()); mc_kill(c[i].proc); mc_settle(); drop(i); c[i] = pc_new(c[i].name.c_str()); }
  StrV seen(int i) { return c[i].s->take(); }
  void expect(int k, const char* what, bool ok, const Str& r) { StrV l[2] = {seen(0), seen(1)}; if (own[k] < 0) { CHECK(!ok, "%s of %s, which nobody owns, succeeds (%s)%s", what, nm(k).c_str(), r.c_str(), h.c_str()); CHECK(l[0].empty() && l[1].empty(), "%s of %s, which nobody owns, ran %s/%s%s", what, nm(k).c_str(), join(l[0]).c_str(), join(l[1]).c_str(), h.c_str()); } else { CHECK(ok, "%s of %s gives %s%s", what, nm(k).c_str(), r.c_str(), h.c_str()); CHECK(l[own[k]].size() == 1 && l[1 - own[k]].empty(), "%s of %s ran [%s] at c1, [%s] at c2%s", what, nm(k).c_str(), join(l[0]).c_str(), join(l[1]).c_str(), h.c_str()); } }
  void probe() { mc_settle(); seen(0); seen(1); for (int k : {0, 1, 2, 7}) { Str r = c_get(q, nm(k)); expect(k, "get", r.find("ok") == 0, r); rbusError_t e = c_seti(q, nm(k), 1); expect(k, "set", !e, en(e)); } { Str r = c_inv(q, "X.M()", nullptr); expect(6, "invoke", r.find("SUCCESS") == 0, r); }
    { rbusError_t e = c_sub(q, "X.E!", 1, -1); expect(5, "subscribe", !e, en(e)); if (!e) { CHECK(!c_unsub(q, "X.E!"), "unsubscribe%s", h.c_str()); seen(0); seen(1); } }
    uint32_t inst = 0; rbusError_t e = c_add(q, "X.T.", nullptr, &inst); if (own[3] < 0) expect(3, "adding a row", !e, en(e)); else { expect(3, "adding a row", !e, en(e)); Str row = fmt("X.T.%u", inst), cell = row + ".N"; if (own[4] == own[3] || own[4] < 0) { Str r = c_get(q, cell); bool ok = r.find("ok") == 0; StrV l[2] = {seen(0), seen(1)}; CHECK(ok == (own[4] >= 0), "get of %s gives %s%s", cell.c_str(), r.c_str(), h.c_str()); } CHECK(!(e = c_rem(q, row)), "removing row %s gives %s%s", row.c_str(), en(e), h.c_str()); seen(0); seen(1); } }
};
static const std::vector<std::vector<int>> RG = {{0}, {1}, {0, 1}, {1, 2}, {2}, {3, 4}, {3}, {5, 6}, {7, 0}, {1, 1}}, UG = {{0}, {0, 1}, {2}, {3, 4}, {5, 6}, {1, 7}};
SCN(p07_hist) { int depth = (int)mc_param("depth", 3), every = (int)mc_param("every", 1); W7 w; w.up(); int nop = (int)RG.size() + (int)UG.size() + 2; for (int i = 0; i < depth; i++) { int k = mc_choose(nop * 2, "operation"), cc = k & 1; k >>= 1; if (i == 0 && cc) return; if (k < (int)RG.size()) w.reg(cc, RG[(size_t)k]); else if ((k -= (int)RG.size()) < (int)UG.size()) w.unreg(cc, UG[(size_t)k]); else if (k - (int)UG.size() == 0) w.close(cc); else w.kill(cc); if (every || i == depth - 1) w.probe(); }
  mc_count(0, 1); Str o; for (int x : w.own) o += fmt("%d,", x); mc_outcome("%s", o.c_str()); }
/* two components register overlapping lists (and one unregisters, closes or dies) under every schedule */
SCN(p07_conc) { int mode = mc_choose(4, "mode"); W7 w; w.up(); if (mode == 1 || mode == 2) w.reg(0, {0, 1}); if (mode == 3) w.reg(0, {0, 1}); rbusHandle_t ha = w.c[0].h, hb = w.c[1].h; rbusError_t ea = RBUS_ERROR_SUCCESS, eb = ea;
  if (mode == 3) mc_crashable(w.c[0].proc, 1); mc_window(1); int ta = async(w.c[0].proc, [&] { if (mode == 0) { Elems x({SP[0], SP[1]}); ea = rbus_regDataElements(ha, 2, x.e.data()); } else if (mode == 1) { Elems x({SP[0], SP[1]}); ea = rbus_unregDataElements(ha, 2, x.e.data()); } else if (mode == 2) ea = rbus_close(ha); else { Elems x({SP[5]}); ea = rbus_regDataElements(ha, 1, x.e.data()); } });
  int tb = async(w.c[1].proc, [&] { Elems x({SP[1], SP[0]}); eb = rbus_regDataElements(hb, 2, x.e.data()); }); bool ja = mc_joinable_within(ta, 30000), jb = mc_joinable_within(tb, 30000); mc_window(0); if (mode == 3) { mc_crashable(w.c[0].proc, 0); } int cr = mc_crashed(); CHECK((ja || cr) && jb, "a call did not return"); w.h = fmt(" (mode %d: %s, %s, crash %d)", mode, en(ea), en(eb), cr);
  CHECK(!eb || eb == RBUS_ERROR_ELEMENT_NAME_DUPLICATE, "registering gives %s%s", en(eb), w.h.c_str()); if (mode == 0) { CHECK(!ea || ea == RBUS_ERROR_ELEMENT_NAME_DUPLICATE, "registering gives %s%s", en(ea), w.h.c_str()); CHECK(ea || eb, "both own the names%s", w.h.c_str()); w.own[0] = w.own[1] = !ea ? 0 : !eb ? 1 : -1; } else if (mode < 3) { CHECK(!ea, "gives %s%s", en(ea), w.h.c_str()); w.own[0] = w.own[1] = eb ? -1 : 1; } else { if (cr) { w.own[0] = w.own[1] = eb ? -1 : 1; } else { CHECK(eb, "a held name was registered%s", w.h.c_str()); CHECK(!ea, "gives %s%s", en(ea), w.h.c_str()); w.own[5] = 0; } }
  if (mode == 2) comp_open(w.c[0]); if (mode == 3 && cr) w.c[0] = pc_new("c1"); w.probe(); mc_outcome("%d %s %s %d", mode, en(ea), en(eb), cr); }
/* an unregistered element is not listed any more by queries over a path that has other elements */
SCN(p07_listed) { int k = mc_choose(3, "which"); W7 w; w.up(); w.reg(0, {0, 1, 3, 4}); uint32_t inst = 0; CHECK(!c_add(w.q, "X.T.", nullptr, &inst) && inst == 1, "add"); w.unreg(0, k == 0 ? std::vector<int>{1} : k == 1 ? std::vector<int>{4} : std::vector<int>{3, 4}); w.seen(0); Str r = c_getx(w.q, {"X."}), gone = k == 0 ? "X.B=" : "X.T.1.N="; CHECK(r.find("X.A=") != Str::npos, "get of X. gives %s%s", r.c_str(), w.h.c_str()); mc_outcome("%d", k); CHECK(r.find(gone) == Str::npos, "an unregistered element is still listed: get of X. gives %s%s", r.c_str(), w.h.c_str()); }
