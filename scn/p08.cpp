/* P08: table rows.  T: rows made by consumers (nested U), R: rows made by the owner, L: a property registered late */
#include "kit.h"
static const StrV EL = {"S.T.{i}.:tar", "S.T.{i}.N:pgs", "S.T.{i}.U.{i}.:tar", "S.T.{i}.U.{i}.V:pgs", "S.R.{i}.:te", "S.R.{i}.P:pg", "S.X:pgs"};
struct Row { Str alias; std::map<uint32_t, Str> u; };
struct W8 { PC p, c, o; std::map<uint32_t, Row> t; std::map<uint32_t, Str> r; bool late = false; Str h; StrV evs; bool reg = false;
  void up() { scn_start_router(); p = pc_new("owner"); c = pc_new("cons"); o = pc_new("other"); CHECK(!k_reg(o, {"O.T.{i}.:tar", "O.T.{i}.N:pgs"}), "register"); }
  void begin() { if (reg) { comp_close(p); comp_open(p); } t.clear(); r.clear(); late = false; h = ""; evs.clear(); p.s->adderr.clear(); p.s->remerr.clear(); CHECK(!k_reg(p, EL), "register"); reg = true; subs(); c.s->ev.clear(); p.s->log.clear(); }
  void subs() { CHECK(!c_sub(c, "S.T.", 1, -1) && !c_sub(c, "S.R.", 2, -1), "subscribe"); }
  void done() { c_unsub(c, "S.T."); c_unsub(c, "S.R."); }
  uint32_t find(const Str& k) { if (k[0] == '[') { Str a = k.substr(1, k.size() - 2); for (auto& x : t) if (x.second.alias == a) return x.first; return 0; } uint32_t n = (uint32_t)atoi(k.c_str()); return t.count(n) ? n : 0; }
  template<class M> static uint32_t freenum(M& m) { uint32_t n = 1; while (m.count(n)) n++; return n; }
  void evt(long ud, const char* tn, uint32_t n, const Str& alias, bool add) { Str row = fmt("S.%s.%u", tn, n); evs.push_back(fmt("%ld|S.%s.|%d|", ud, tn, (int)(add ? RBUS_EVENT_OBJECT_CREATED : RBUS_EVENT_OBJECT_DELETED)) + row + (add ? fmt("|%u|", n) + alias : "")); }
  void add(const Str& table, const char* alias, bool refuse) { h += "; add " + table + (alias ? Str(" ") + alias : Str()) + (refuse ? " refused" : ""); PS* s = p.s; uint32_t n = 0; Row* top = nullptr; bool isT = table == "S.T.", exists = isT; if (!isT) { Str k = table.substr(4); k = k.substr(0, k.find('.')); uint32_t x = find(k); if (x) { top = &t[x]; exists = true; } }
    n = isT ? freenum(t) : top ? freenum(top->u) : 1; s->forced = n; s->log.clear(); if (refuse) s->adderr[table] = RBUS_ERROR_OUT_OF_RESOURCES; uint32_t got = 0; rbusError_t e = c_add(c, table, alias, &got); s->adderr.clear(); StrV l = s->take();
    if (!exists) { CHECK(e && l.empty(), "adding to a missing table gives %s, owner saw [%s]%s", en(e), join(l).c_str(), h.c_str()); return; }
    CHECK(l.size() == 1 && l[0] == "add " + table + " " + (alias ? alias : "(null)"), "owner saw [%s]%s", join(l).c_str(), h.c_str());
    if (refuse) { CHECK(e == RBUS_ERROR_OUT_OF_RESOURCES, "refused add gives %s%s", en(e), h.c_str()); return; }
    CHECK(!e && got == n, "add gives %s number %u (owner chose %u)%s", en(e), got, n, h.c_str()); if (isT) { t[n].alias = alias ? alias : ""; evt(1, "T", n, alias ? alias : "", true); } else top->u[n] = alias ? alias : ""; }
  void rem(const Str& row, bool refuse) { h += "; remove " + row + (refuse ? " refused" : ""); PS* s = p.s; Str k = row.substr(4), sub; size_t d = k.find(".U."); if (d != Str::npos) { sub = k.substr(d + 3); k = k.substr(0, d); } uint32_t x = find(k); bool exists = x && (sub.empty() || t[x].u.count((uint32_t)atoi(sub.c_str()))); s->log.clear(); if (refuse) s->remerr[row] = RBUS_ERROR_ACCESS_NOT_ALLOWED; rbusError_t e = c_rem(c, row); s->remerr.clear(); StrV l = s->take();
    if (!exists) { CHECK(e && l.empty(), "removing a missing row gives %s, owner saw [%s]%s", en(e), join(l).c_str(), h.c_str()); return; } CHECK(l.size() == 1 && l[0] == "rem " + row, "owner saw [%s]%s", join(l).c_str(), h.c_str()); if (refuse) { CHECK(e == RBUS_ERROR_ACCESS_NOT_ALLOWED, "refused removal gives %s%s", en(e), h.c_str()); return; }
    CHECK(!e, "removal gives %s%s", en(e), h.c_str()); if (sub.empty()) { t.erase(x); evt(1, "T", x, "", false); } else t[x].u.erase((uint32_t)atoi(sub.c_str())); }
  void oreg(const char* tn, uint32_t n, const char* alias) { h += fmt("; owner registers %s%u %s", tn, n, alias ? alias : ""); rbusHandle_t hh = p.h; rbusError_t e = RBUS_ERROR_SUCCESS; call(p.proc, [&] { e = rbusTable_registerRow(hh, tn, n, alias); }); bool isT = tn[2] == 'T', dup = isT ? t.count(n) : r.count(n); CHECK(!!e == dup, "registering the row gives %s%s", en(e), h.c_str()); if (dup) return; if (isT) { t[n].alias = alias ? alias : ""; evt(1, "T", n, alias ? alias : "", true); } else { r[n] = alias ? alias : ""; evt(2, "R", n, alias ? alias : "", true); } }
  void ounreg(const Str& row) { h += "; owner unregisters " + row; rbusHandle_t hh = p.h; rbusError_t e = RBUS_ERROR_SUCCESS; call(p.proc, [&] { e = rbusTable_unregisterRow(hh, row.c_str()); }); uint32_t n = (uint32_t)atoi(row.substr(4).c_str()); bool isT = row[2] == 'T', ex = isT ? t.count(n) : r.count(n); CHECK(!e == ex, "unregistering the row gives %s%s", en(e), h.c_str()); if (!ex) return; if (isT) { t.erase(n); evt(1, "T", n, "", false); } else { r.erase(n); evt(2, "R", n, "", false); } }
  void lateop() { h += "; owner registers S.T.{i}.L"; rbusError_t e = k_reg(p, {"S.T.{i}.L:pg"}); CHECK(!e, "gives %s%s", en(e), h.c_str()); late = true; }
  static Str sorted(const Str& s, char sep) { StrV v; size_t i = s.find(':') + 1, j; Str head = s.substr(0, i); if (s.find("ok:") != 0) return s; for (; (j = s.find(sep, i)) != Str::npos; i = j + 1) v.push_back(s.substr(i, j - i)); if (i < s.size()) v.push_back(s.substr(i)); std::sort(v.begin(), v.end()); return "ok:" + join(v); }
  static Str sj(StrV v) { std::sort(v.begin(), v.end()); return "ok:" + join(v); }
  static Str q(const Str& n) { rbusValue_t v = vstrv(("?" + n).c_str()); Str r = n + "=" + vstr(v); rbusValue_Release(v); return r; }
  void check() { mc_count(0, 1);
    { StrV x; for (auto& a : t) x.push_back(fmt("S.T.%u.(%u,%s)", a.first, a.first, a.second.alias.empty() ? "-" : a.second.alias.c_str())); Str g = sorted(c_rows(c, "S.T."), ';'); CHECK(g == sj(x), "rows of S.T.: %s, expected %s%s", g.c_str(), sj(x).c_str(), h.c_str()); }
    { StrV x; for (auto& a : r) x.push_back(fmt("S.R.%u.(%u,%s)", a.first, a.first, a.second.empty() ? "-" : a.second.c_str())); Str g = sorted(c_rows(c, "S.R."), ';'); CHECK(g == sj(x), "rows of S.R.: %s, expected %s%s", g.c_str(), sj(x).c_str(), h.c_str()); }
    StrV all{q("S.X")}, wn; for (auto& a : t) { wn.push_back(q(fmt("S.T.%u.N", a.first))); all.push_back(wn.back()); if (late) all.push_back(q(fmt("S.T.%u.L", a.first))); StrV x; for (auto& b : a.second.u) { x.push_back(fmt("S.T.%u.U.%u.(%u,%s)", a.first, b.first, b.first, b.second.empty() ? "-" : b.second.c_str())); all.push_back(q(fmt("S.T.%u.U.%u.V", a.first, b.first))); } Str g = sorted(c_rows(c, fmt("S.T.%u.U.", a.first)), ';'); CHECK(g == sj(x), "rows of S.T.%u.U.: %s, expected %s%s", a.first, g.c_str(), sj(x).c_str(), h.c_str()); }
    for (auto& a : r) all.push_back(q(fmt("S.R.%u.P", a.first)));
    { Str g = sorted(c_getx(c, {"S."}), ','); CHECK(g == sj(all), "get of S.: %s, expected %s%s", g.c_str(), sj(all).c_str(), h.c_str()); } { Str g = sorted(c_getx(c, {"S.T.*.N"}), ','); CHECK(wn.empty() ? g.find("ok:string") == Str::npos : g == sj(wn), "get of S.T.*.N: %s, expected %s%s", g.c_str(), sj(wn).c_str(), h.c_str()); }
    for (uint32_t n : {1u, 2u, 3u, 7u, 12u}) { p.s->log.clear(); Str name = fmt("S.T.%u.N", n), g = c_get(c, name); StrV l = p.s->take(); bool ex = t.count(n); CHECK((g.find("ok") == 0) == ex && l.size() == (ex ? 1 : 0), "get of %s gives %s, owner saw [%s]%s", name.c_str(), g.c_str(), join(l).c_str(), h.c_str()); rbusError_t e = c_seti(c, name, 5); l = p.s->take(); CHECK(!e == ex && l.size() == (ex ? 1 : 0), "set of %s gives %s, owner saw [%s]%s", name.c_str(), en(e), join(l).c_str(), h.c_str()); for (auto& x : p.s->v) rbusValue_Release(x.second); p.s->v.clear();
      Str u = c_rows(c, fmt("S.T.%u.U.", n)); CHECK((u.find("ok") == 0) == ex, "rows of S.T.%u.U.: %s%s", n, u.c_str(), h.c_str()); if (n != 3) { g = c_get(c, fmt("S.R.%u.P", n)); CHECK((g.find("ok") == 0) == (r.count(n) > 0), "get of S.R.%u.P gives %s%s", n, g.c_str(), h.c_str()); } g = c_get(c, fmt("S.T.%u.L", n)); CHECK((g.find("ok") == 0) == (ex && late), "get of S.T.%u.L gives %s%s", n, g.c_str(), h.c_str()); }
    for (const char* a : {"a", "b"}) { uint32_t n = find(Str("[") + a + "]"); p.s->log.clear(); Str name = Str("S.T.[") + a + "].N", g = c_get(c, name); StrV l = p.s->take(); CHECK((g.find("ok") == 0) == (n > 0), "get of %s gives %s, owner saw [%s]%s", name.c_str(), g.c_str(), join(l).c_str(), h.c_str()); if (n) { Str w = q(fmt("S.T.%u.N", n)); w = "ok:" + w.substr(w.find('=') + 1); Str w2 = q(name); w2 = "ok:" + w2.substr(w2.find('=') + 1); CHECK(g == w || g == w2, "get of %s (row %u) gives %s%s", name.c_str(), n, g.c_str(), h.c_str()); } }
    mc_settle(); StrV e = c.s->ev; CHECK(e.size() == evs.size(), "%zu row events [%s], expected [%s]%s", e.size(), join(e).c_str(), join(evs).c_str(), h.c_str()); for (size_t i = 0; i < e.size(); i++) { StrV f; size_t a = 0, b; Str x = evs[i]; for (; (b = x.find('|', a)) != Str::npos; a = b + 1) f.push_back(x.substr(a, b - a)); f.push_back(x.substr(a)); Str head = f[0] + "|" + f[1] + "|" + f[2] + "|"; bool ok = e[i].find(head) == 0; Str rest = e[i].substr(std::min(e[i].size(), head.size())); ok = ok && rest.find(f[3]) != Str::npos; if (f.size() > 4) ok = ok && rest.find("instNum") != Str::npos && rest.find(f[4]) != Str::npos && (f[5].empty() || rest.find(f[5]) != Str::npos); CHECK(ok, "row event %s, expected %s%s", e[i].c_str(), x.c_str(), h.c_str()); }
    Str oth = c_rows(c, "O.T."); CHECK(oth == "ok:", "rows of the other owner: %s%s", oth.c_str(), h.c_str()); }
  enum { NOP = 24 };
  bool op(int k) { switch (k) { case 0: add("S.T.", nullptr, false); break; case 1: if (find("[a]")) return false; add("S.T.", "a", false); break; case 2: if (find("[b]")) return false; add("S.T.", "b", false); break; case 3: add("S.T.", nullptr, true); break; case 4: add("S.T.1.U.", nullptr, false); break; case 5: add("S.T.[a].U.", nullptr, false); break; case 6: add("S.T.2.U.", "u", false); break; case 7: add("S.T.1.U.", nullptr, true); break;
    case 8: rem("S.T.1", false); break; case 9: rem("S.T.[a]", false); break; case 10: rem("S.T.2", false); break; case 11: rem("S.T.1", true); break; case 12: rem("S.T.1.U.1", false); break; case 13: rem("S.T.2.U.1", false); break; case 14: oreg("S.R.", 1, nullptr); break; case 15: oreg("S.R.", 12, "x"); break; case 16: oreg("S.R.", 2, nullptr); break; case 17: ounreg("S.R.1"); break; case 18: ounreg("S.R.12"); break; case 19: oreg("S.T.", 12, nullptr); break; case 20: ounreg("S.T.1"); break; case 21: oreg("S.T.", 1, nullptr); break; case 22: if (late) return false; lateop(); break; case 23: ounreg("S.T.12"); break; } return true; } };
SCN(p08_hist) { int depth = (int)mc_param("depth", 3), f = mc_choose(W8::NOP, "first"), g = mc_choose(W8::NOP, "second"); W8 w; w.up(); for (Odo od; od.more();) { w.begin(); bool ok = w.op(f) && w.op(g); for (int i = 2; i < depth && ok; i++) { int k = od.choose(W8::NOP); ok = w.op(k); } if (ok) w.check(); w.done(); } mc_outcome("%d %d", f, g); }
/* the elements of a table registered in every order, in one call or one by one, with a row added after any of the steps: the rows are the same */
SCN(p08_order) { static const StrV P = {"S.T.{i}.:tar", "S.T.{i}.N:pgs", "S.T.{i}.U.{i}.:tar", "S.T.{i}.U.{i}.V:pgs", "S.T.{i}.O.W:pgs"}; W8 w; w.up(); bool first = true; int one = mc_choose(2, "one call"), f = mc_choose(5, "first"), row = mc_choose(5, "row after");
  for (Odo od; od.more();) { if (!first) { comp_close(w.p); comp_open(w.p); } first = false; std::vector<int> ix{f}, rest; for (int i = 0; i < 5; i++) if (i != f) rest.push_back(i); while (!rest.empty()) { int k = rest.size() > 1 ? od.choose((int)rest.size()) : 0; ix.push_back(rest[(size_t)k]); rest.erase(rest.begin() + k); } w.p.s->forced = 1; StrV sp; for (int i : ix) sp.push_back(P[(size_t)i]); Str h = join(sp); mc_count(0, 1);
    bool t = false, done = false; auto addrow = [&] { if (!done && t) { uint32_t n = 0; rbusError_t e = c_add(w.c, "S.T.", nullptr, &n); CHECK(!e && n == 1, "adding a row gives %s (order %s)", en(e), h.c_str()); done = true; } };
    if (one) { if (row) continue; rbusError_t e = k_reg(w.p, sp); CHECK(!e, "registering gives %s (order %s)", en(e), h.c_str()); t = true; addrow(); } else for (int i = 0; i < 5; i++) { rbusError_t e = k_reg(w.p, {sp[(size_t)i]}); CHECK(!e, "registering gives %s (order %s)", en(e), h.c_str()); if (ix[(size_t)i] == 0) t = true; if (i >= row) addrow(); }
    Str g = W8::sorted(c_getx(w.c, {"S."}), ','), x = W8::sj({W8::q("S.T.1.N"), W8::q("S.T.1.O.W")}); CHECK(g == x, "get of S.: %s, expected %s (order %s, row after %d, one call %d)", g.c_str(), x.c_str(), h.c_str(), row, one); uint32_t n = 0; rbusError_t e = c_add(w.c, "S.T.1.U.", nullptr, &n); CHECK(!e, "adding a nested row gives %s (order %s, row after %d, one call %d)", en(e), h.c_str(), row, one); g = W8::sorted(c_getx(w.c, {"S."}), ','); x = W8::sj({W8::q("S.T.1.N"), W8::q("S.T.1.O.W"), W8::q("S.T.1.U.1.V")}); CHECK(g == x, "get of S. with a nested row: %s, expected %s (order %s, row after %d, one call %d)", g.c_str(), x.c_str(), h.c_str(), row, one); }
  mc_outcome("%d %d %d", one, f, row); }
