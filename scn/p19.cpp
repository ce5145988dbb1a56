/* P19: discovery answers exactly what is registered */
#include "kit.h"
extern "C" { int rbus_discoverRegisteredComponents(int*, char***); int rbus_discoverWildcardDestinations(const char*, int*, char***); int rbus_discoverElementObjects(const char*, int*, char***); }
static const std::vector<StrV> G = {{"X.A:pgs", "X.B:pg"}, {"X.S.C:pgs", "X.E!:ee", "X.M():mm"}, {"X.T.{i}.:tar", "X.T.{i}.N:pgs", "X.T.{i}.U.{i}.:tar", "X.T.{i}.U.{i}.V:pg"}, {"X.D:ps", "Y.A:pg"}, {"X.S.F:pgs", "Y.S.G:mm"}};
static const int GC[] = {0, 0, 0, 1, 1};
static StrV split(const Str& s) { StrV r; size_t i = 0; while (i < s.size()) { size_t k = s.find('.', i); if (k == Str::npos) k = s.size(); r.push_back(s.substr(i, k - i)); i = k + 1; } return r; }
static Str nameof(const Str& spec) { return spec.substr(0, spec.rfind(':')); }
static bool tokeq(const Str& reg, const Str& ask) { return reg == ask || (reg[0] == '{' && (isdigit(ask[0]) || ask[0] == '[')); }
struct Ent { Str name; int type; unsigned access; int level; };
struct W19 { PC c[2], q; bool reg[5] = {false, false, false, false, false}; std::set<Str> stale[2]; std::map<int, Str> rows; std::map<int, std::set<int>> sub; int nrow = 0; Str h;
  void up() { scn_start_router(); c[0] = pc_new("c1"); c[1] = pc_new("c2"); q = pc_new("q"); }
  StrV live(int k) { StrV r; for (int g = 0; g < 5; g++) if (reg[g] && GC[g] == k) for (auto& s : G[g]) r.push_back(s); return r; }
  /* the nodes of component k's tree: name as listed, type, access, depth below the root */
  std::vector<Ent> tree(int k) { struct N { int type = 0; unsigned acc = 0; StrV kids; }; std::map<Str, N> t;
    for (auto& sp : live(k)) { Str f = sp.substr(sp.rfind(':') + 1); StrV tk = split(nameof(sp)); bool tab = f[0] == 't'; Str path; for (size_t i = 0; i < tk.size(); i++) { Str par = path; path += (i ? "." : "") + tk[i]; auto& kids = t[par].kids; if (std::find(kids.begin(), kids.end(), tk[i]) == kids.end()) kids.push_back(tk[i]); t[path]; if (i + 1 == tk.size() - (tab ? 1 : 0)) { N& n = t[path]; n.type = f[0] == 'p' ? RBUS_ELEMENT_TYPE_PROPERTY : f[0] == 't' ? RBUS_ELEMENT_TYPE_TABLE : f[0] == 'e' ? RBUS_ELEMENT_TYPE_EVENT : RBUS_ELEMENT_TYPE_METHOD; for (char ch : f.substr(1)) n.acc |= ch == 'g' ? RBUS_ACCESS_GET : ch == 's' ? RBUS_ACCESS_SET : ch == 'a' ? RBUS_ACCESS_ADDROW : ch == 'r' ? RBUS_ACCESS_REMOVEROW : ch == 'e' ? RBUS_ACCESS_SUBSCRIBE : RBUS_ACCESS_INVOKE; } } }
    std::vector<Ent> out; std::function<void(const Str&, const Str&, int)> go = [&](const Str& tp, const Str& ip, int lv) { N n = t[tp]; bool row = ip != "" && isdigit(ip[ip.rfind('.') == Str::npos ? 0 : ip.rfind('.') + 1]); if (lv) out.push_back({ip + (n.type == 0 || n.type == RBUS_ELEMENT_TYPE_TABLE ? "." : ""), n.type, row ? (unsigned)(RBUS_ACCESS_GET | RBUS_ACCESS_SET) : n.acc, lv}); for (auto& kid : n.kids) { Str kp = tp.empty() ? kid : tp + "." + kid; if (kid[0] != '{') go(kp, ip.empty() ? kid : ip + "." + kid, lv + 1); else { if (ip == "X.T") for (auto& r : rows) go(kp, ip + "." + std::to_string(r.first), lv + 1); else for (int u : sub[atoi(ip.c_str() + 4)]) go(kp, ip + "." + std::to_string(u), lv + 1); } } }; go("", "", 0); return out; }
  /* does the broker know something of component k at (exact) or below (path ending in a dot) the name asked? */
  bool routed(int k, const Str& ask) { StrV a = split(ask); bool dot = ask.back() == '.'; for (auto& sp : live(k)) { StrV r = split(nameof(sp)); bool tab = sp[sp.rfind(':') + 1] == 't'; size_t n = r.size(); if (!dot && tab && a.size() == n - 1) n--; if (dot ? r.size() <= a.size() : n != a.size()) continue; bool m = true; for (size_t i = 0; i < a.size(); i++) if (!tokeq(r[i], a[i])) m = false; if (m) return true; } return false; }
  Str canon(const Str& ask) { size_t k = ask.find('['); if (k == Str::npos) return ask; size_t e = ask.find(']'); for (auto& r : rows) if (r.second == ask.substr(k + 1, e - k - 1)) return ask.substr(0, k) + std::to_string(r.first) + ask.substr(e + 1); return ask.substr(0, k) + "0" + ask.substr(e + 1); }
  void info(const Str& ask, int depth) { Str r = c_info(q, ask, depth), at = canon(ask); if (at.back() == '.') at.pop_back(); std::set<Str> want, got, extra; int asked = 0, found = 0; int lv = (int)split(at).size();
    for (int k = 0; k < 2; k++) { if (!routed(k, ask)) continue; asked++; bool f = false; for (auto& e : tree(k)) { Str bare = e.name.back() == '.' ? e.name.substr(0, e.name.size() - 1) : e.name; if (bare != at && bare.compare(0, at.size() + 1, at + ".")) continue; if (bare == at) f = true; int d = e.level - lv; if (depth >= 0 ? d <= depth : d == -depth) want.insert(fmt("%s(%d,%u,%s)", e.name.c_str(), e.type, e.access, c[k].name.c_str())); } if (f) found++; }
    Str info = fmt(" (information on %s, depth %d)%s", ask.c_str(), depth, h.c_str());
    if (r.find("ok:") != 0) { CHECK(found < asked || !asked, "%s%s", r.c_str(), info.c_str()); CHECK(r == "ELEMENT_DOES_NOT_EXIST" || !asked, "%s%s", r.c_str(), info.c_str()); return; }
    CHECK(found == asked || !want.empty(), "an answer about a missing element: %s%s", r.c_str(), info.c_str());
    size_t i = 3; while (i < r.size()) { size_t k = r.find(';', i); Str e = r.substr(i, k - i); i = k + 1; Str n = e.substr(0, e.rfind('(')); if (n.find("M()") != Str::npos) n = n.substr(0, n.find("()") + 2); CHECK(got.insert(e).second, "%s is listed twice: %s%s", e.c_str(), r.c_str(), info.c_str()); if (!want.count(e)) { int k2 = e.find("c1)") != Str::npos ? 0 : 1; bool ok = false; for (auto& s : stale[k2]) if (s == n || (n.back() == '.' && s.compare(0, n.size(), n) == 0)) ok = true; CHECK(ok, "%s is listed and should not be: %s%s", e.c_str(), r.c_str(), info.c_str()); } }
    for (auto& e : want) CHECK(got.count(e), "%s is missing in %s%s", e.c_str(), r.c_str(), info.c_str()); mc_count(0, 1); }
  StrV owners(const Str& ask) { StrV r; for (int k = 0; k < 2; k++) if (routed(k, ask)) r.push_back(c[k].name); return r; }
  void who(const StrV& l) { StrV want; for (auto& n : l) { StrV o = owners(n); want.insert(want.end(), o.begin(), o.end()); } Str r = c_who(q, l); if (want.empty() && r == "ELEMENT_DOES_NOT_EXIST") return; CHECK(r == "ok:" + join(want), "asking who owns %s gives %s instead of %s%s", join(l).c_str(), r.c_str(), join(want).c_str(), h.c_str()); mc_count(0, 1); }
  void whoset(const Str& n) { StrV want = owners(n); Str r = c_who(q, {n}); if (want.size() == 2 && r == "ok:c2,c1") return; CHECK(r == "ok:" + join(want) || (want.empty() && r == "ELEMENT_DOES_NOT_EXIST"), "asking who owns %s gives %s instead of %s%s", n.c_str(), r.c_str(), join(want).c_str(), h.c_str()); mc_count(0, 1); }
  StrV list(int what, const char* arg) { StrV r; rbusHandle_t hh = q.h; (void)hh; call(q.proc, [&] { int n = 0; char** l = nullptr; int e = what == 0 ? rbus_discoverRegisteredComponents(&n, &l) : what == 1 ? rbus_discoverWildcardDestinations(arg, &n, &l) : rbus_discoverElementObjects(arg, &n, &l); if (e) { r.push_back(fmt("error %d", e)); return; } for (int i = 0; i < n; i++) { r.push_back(l[i]); free(l[i]); } if (l) free(l); }); return r; }
  void probe(bool full = true) { mc_settle();
    for (const char* n : {"X.A", "X.B", "X.S.C", "X.E!", "X.M()", "X.D", "Y.A", "X.S.F", "Y.S.G", "X.T.1.N", "X.T.5.N", "X.T.[al].N", "X.T.1.U.1.V", "X.T", "X.S", "X", "Z", "X.A.Q", "X.T.1.Q", "X.", "X.S.", "Y.", "Y.S.", "Z.", "X.T.", "X.T.1.", "X.T.1.U."}) whoset(n);
    static const StrV M = {"X.A", "X.M()", "Y.A", "Z.Q", "X.T.1.N"}; if (full) for (auto& a : M) for (auto& b : M) { who({a, b}); for (auto& d : M) if (a < d) who({a, b, d}); } who({"X.T.", "Z.Q", "X.B", "X.D"}); who({"Z.Q", "Z.", "Y.A", "Z"});
    for (int k = 0; k < 2; k++) { Str r = c_elems(q, c[k].name, false); StrV got = r.find("ok:") ? StrV() : StrV(), want; if (r.find("ok:") == 0) { size_t i = 3; while (i < r.size()) { size_t e = r.find(',', i); if (e == Str::npos) e = r.size(); got.push_back(r.substr(i, e - i)); i = e + 1; } } for (auto& s : live(k)) want.push_back(nameof(s)); for (auto& n : want) if (n.back() == '.') n.pop_back(); std::sort(want.begin(), want.end()); StrV g2; for (auto& g : got) if (g != c[k].name) g2.push_back(g.back() == '.' ? g.substr(0, g.size() - 1) : g); std::sort(g2.begin(), g2.end()); CHECK(g2 == want && got.size() <= want.size() + 1, "the elements of %s are %s instead of %s%s", c[k].name.c_str(), r.c_str(), join(want).c_str(), h.c_str()); }
    { Str r = c_elems(q, "nobody", false); CHECK(r == "ok:" || r == "COMPONENT_DOES_NOT_EXIST" || r == "BUS_ERROR", "the elements of nobody are %s%s", r.c_str(), h.c_str()); }
    { StrV l = list(0, nullptr); std::map<Str, int> n; int boxes = 0; for (auto& s : l) { n[s]++; if (s.find("rbus.") == 0) boxes++; else CHECK(s == "c1" || s == "c2" || s == "q", "%s is in the list of components (%s)%s", s.c_str(), join(l).c_str(), h.c_str()); } CHECK(boxes <= 3, "the list of components has addresses of dead ones (%s)%s", join(l).c_str(), h.c_str()); for (const char* s : {"c1", "c2", "q"}) CHECK(n[s] == 1, "%s is %d times in the list of components (%s)%s", s, n[s], join(l).c_str(), h.c_str()); mc_outcome("%d", (int)l.size()); }
    for (const char* p : {"X.", "X.S.", "Y.", "Z.", "X.T.", "X.T.1."}) { StrV l = list(1, p), w = owners(p); std::sort(l.begin(), l.end()); CHECK(l == w, "the components under %s are %s instead of %s%s", p, join(l).c_str(), join(w).c_str(), h.c_str()); l = list(2, p); std::sort(l.begin(), l.end()); CHECK(l == w, "the components of %s are %s instead of %s%s", p, join(l).c_str(), join(w).c_str(), h.c_str()); }
    for (const char* n : {"X.", "X.S.", "Y.", "Z.", "X.T.", "X.T.1.", "X.T.2.", "X.T.1.U.", "X.T.1.U.1.", "X.T.[al].", "X.A", "X.D", "X.M()", "X.E!", "X.T", "X.T.1", "X.T.1.N", "X.T.2.N", "X.T.1.U.1.V", "X.Q", "X.S.F"}) for (int d : {0, 1, 2, 3, 16, -1, -2, -4}) if (full || d == 16 || (d == -2 && n[1] == '.' && !n[2])) info(n, d);
    for (const char* n : {"X.T.", "X.T.1.U.", "X.T.2.U.", "X.S.", "Z."}) { Str r = c_rows(q, n), w = "ok:"; Str s = n; bool ok = reg[2] && (s == "X.T." || (s.size() > 5 && s[2] == 'T' && rows.count(s[4] - '0'))); if (!ok) { CHECK(r.find("ok:") && r.size(), "the rows of %s are %s%s", n, r.c_str(), h.c_str()); continue; } if (s == "X.T.") for (auto& x : rows) w += fmt("%s%d.(%d,%s);", n, x.first, x.first, x.second.empty() ? "-" : x.second.c_str()); else for (int u : sub[s[4] - '0']) w += fmt("%s%d.(%d,-);", n, u, u); CHECK(r == w, "the rows of %s are %s instead of %s%s", n, r.c_str(), w.c_str(), h.c_str()); }
  }
  void gone(int k) { for (int g = 0; g < 5; g++) if (GC[g] == k) reg[g] = false; stale[k].clear(); if (!k) { rows.clear(); sub.clear(); nrow = 0; } } };
SCN(p19_hist) { int depth = (int)mc_param("depth", 3); W19 w; w.up(); int pre = mc_choose(3, "start"); if (pre) for (int g = 0; g < 5; g++) if (pre == 2 || g == 2) { CHECK(!k_reg(w.c[GC[g]], G[g]), "register"); w.reg[g] = true; w.h += fmt("; group %d", g); }
  for (int i = 0; i < depth; i++) { int k = mc_choose(13, "operation"); if (k < 5) { PC& c = w.c[GC[k]]; if (!w.reg[k]) { CHECK(!k_reg(c, G[k]), "register%s", w.h.c_str()); for (auto& s : G[k]) w.stale[GC[k]].erase(nameof(s)); w.reg[k] = true; w.h += fmt("; registers group %d", k); } else { if (k == 2 && !w.rows.empty()) return; CHECK(!k_unreg(c, G[k]), "unregister%s", w.h.c_str()); w.reg[k] = false; for (auto& s : G[k]) { Str n = nameof(s); w.stale[GC[k]].insert(n); size_t t = n.find(".{i}"); if (t != Str::npos) w.stale[GC[k]].insert(n.substr(0, t + 1)); } w.h += fmt("; unregisters group %d", k); } }
    else if (k == 5 || k == 6) { if (!w.reg[2]) return; bool al = k == 6; for (auto& r : w.rows) if (al && r.second == "al") return; uint32_t inst = 0; rbusError_t e = c_add(w.q, "X.T.", al ? "al" : nullptr, &inst); w.h += "; adds a row"; CHECK(!e && inst, "%s%s", en(e), w.h.c_str()); w.rows[(int)inst] = al ? "al" : ""; }
    else if (k == 7) { if (!w.rows.count(1)) return; w.h += "; removes row 1"; CHECK(!c_rem(w.q, "X.T.1"), "remove%s", w.h.c_str()); w.rows.erase(1); w.sub.erase(1); }
    else if (k == 8) { if (!w.rows.count(1)) return; uint32_t inst = 0; w.h += "; adds a row in row 1"; CHECK(!c_add(w.q, "X.T.1.U.", nullptr, &inst), "add%s", w.h.c_str()); w.sub[1].insert((int)inst); }
    else if (k < 11) { int j = k - 9; comp_close(w.c[j]); w.gone(j); w.h += fmt("; c%d closes and opens", j + 1); comp_open(w.c[j]); if (!j) call(w.c[0].proc, [] { ps->next.clear(); }); }
    else if (k == 11) { mc_kill(w.c[1].proc); mc_settle(); w.gone(1); w.h += "; c2 dies and restarts"; w.c[1] = pc_new("c2"); }
    else { w.h += "; c2 fails to register X.D2 with X.A"; if (!w.reg[0]) return; CHECK(k_reg(w.c[1], {"X.D2:pg", "X.A:pg"}) == RBUS_ERROR_ELEMENT_NAME_DUPLICATE, "register%s", w.h.c_str()); w.stale[1].insert("X.D2"); w.stale[1].insert("X.A"); } }
  w.probe(); CHECK(!mc_misuse(), "%s%s", mc_misuse_text(), w.h.c_str()); }
/* a component that dies at any point of a registration, unregistration or close leaves nothing; one that lives leaves what the call says; questions asked meanwhile get an answer between the two */
SCN(p19_death) { int op = mc_choose(4, "operation"), ask = mc_choose(4, "question"); W19 w; w.up(); for (int g : {0, 3}) { CHECK(!k_reg(w.c[GC[g]], G[g]), "register"); w.reg[g] = true; } w.h = fmt(" (operation %d, question %d)", op, ask); rbusHandle_t h = w.c[0].h, hq = w.q.h; rbusError_t e = RBUS_ERROR_SUCCESS; Str a;
  mc_window(1); mc_crashable(w.c[0].proc, 1);
  int t = async(w.c[0].proc, [&] { if (op < 3) { Elems x(G[op == 0 ? 1 : op == 1 ? 2 : 0]); e = op < 2 ? rbus_regDataElements(h, (int)x.e.size(), x.e.data()) : rbus_unregDataElements(h, (int)x.e.size(), x.e.data()); } else e = rbus_close(h); });
  int u = async(w.q.proc, [&] { int n = 0; char** nm = nullptr; if (ask < 3) { const char* q[] = {ask ? "X.A" : "X.M()", ask == 1 ? "X.B" : "Y.A", "X.D"}; if (rbus_discoverComponentName(hq, 3, q, &n, &nm)) n = 0; } else if (rbus_discoverComponentDataElements(hq, "c1", false, &n, &nm)) n = 0; for (int i = 0; i < n; i++) { a += Str(i ? "," : "") + nm[i]; free(nm[i]); } free(nm); });
  bool j = mc_joinable_within(t, 30000), k = mc_joinable_within(u, 30000); mc_window(0); mc_crashable(w.c[0].proc, 0); bool dead = mc_crashed() > 0; CHECK(k && (j || dead), "a call did not return%s", w.h.c_str()); mc_settle();
  static const std::set<Str> OKA[] = {{"c2,c2", "c1,c2,c2"}, {"c2", "c1,c2", "c1,c1,c2"}, {"c2,c2", "c1,c2,c2"}}; if (ask < 3) CHECK(OKA[ask].count(a), "asking meanwhile gives %s%s", a.c_str(), w.h.c_str()); else { std::set<Str> s; size_t i = 0; while (i < a.size()) { size_t x = a.find(',', i); if (x == Str::npos) x = a.size(); Str n = a.substr(i, x - i); i = x + 1; CHECK(s.insert(n).second && (n == "c1" || n.find("X.") == 0), "asking meanwhile gives %s%s", a.c_str(), w.h.c_str()); } }
  if (dead) { w.gone(0); w.c[0] = pc_new("c1"); } else { CHECK(!e, "%s%s", en(e), w.h.c_str()); if (op < 2) w.reg[op + 1] = true; else if (op == 2) { w.reg[0] = false; for (auto& s : G[0]) w.stale[0].insert(nameof(s)); } else { w.gone(0); comp_open(w.c[0]); } }
  w.probe(false); CHECK(!mc_misuse(), "%s%s", mc_misuse_text(), w.h.c_str()); }
