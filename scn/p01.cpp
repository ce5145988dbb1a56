/* P01: the broker's address table and routing, driven with raw clients against a reference model, over all histories up to a depth */
#include "wire.h"
/* ---------------------------------------------------------------- reference model of the address table */
static StrV toks(const Str& a) { StrV v; Str c; for (size_t i = 0; i < a.size(); i++) { if (a[i] == '.') { v.push_back(c); c.clear(); } else c += a[i]; } if (!c.empty()) v.push_back(c); return v; }
typedef std::vector<Str> Path;
struct Model {
  std::map<Path, int> owner;               /* registered path -> owner */
  bool node(const Path& p) const { for (auto& o : owner) if (o.first.size() >= p.size() && std::equal(p.begin(), p.end(), o.first.begin())) return true; return false; }
  std::set<Str> children(const Path& p) const { std::set<Str> r; for (auto& o : owner) if (o.first.size() > p.size() && std::equal(p.begin(), p.end(), o.first.begin())) r.insert(o.first[p.size()]); return r; }
  /* 0 = ok, 1 = owned already, 2 = conflicts with a table row template */
  int can_add(const Path& p) const {
    Path c; for (auto& t : p) { auto ch = children(c); if (!ch.count(t)) { for (auto& k : ch) if (k[0] == '{' || t[0] == '{') return 2; return 0; } c.push_back(t); }
    return owner.count(p) ? 1 : 0; }
  std::set<int> resolve(const Str& addr) const {
    Path c; for (auto& t : toks(addr)) { auto ch = children(c); if (ch.count(t)) c.push_back(t); else if (ch.count("{i}") && (isdigit((unsigned char)t[0]) || t[0] == '[' || t[0] == '*')) c.push_back("{i}"); else return {}; }
    std::set<int> r; if (c.empty()) return r;
    if (addr.back() == '.') { for (auto& o : owner) if (o.first.size() > c.size() && std::equal(c.begin(), c.end(), o.first.begin())) r.insert(o.second); return r; }
    if (children(c).count("{i}")) c.push_back("{i}");
    auto it = owner.find(c); if (it != owner.end()) r.insert(it->second); return r; }
};
static const char* ALIAS[] = {"D.A", "D.A.B", "D.T.{i}.", "D.T.{i}.P", "D.T.Q", "E"};
static const char* PROBE[] = {"D.A", "D.A.B", "D.A.C", "D", "D.T", "D.T.", "D.T.{i}", "D.T.{i}.P", "D.T.3.P", "D.T.[al].P", "D.T.*.P", "D.T.1", "D.T.1.", "D.T.Q", "D.T.R", "D.A.{i}", "D.A.1", "E", "E.F", "D.A.", "X.Y.Z", "comp0", "comp1", "comp2", "comp.0"};
enum { NP = sizeof PROBE / sizeof *PROBE };
struct Cl { Wire w; bool up = false, comp = false; };
struct Bench {
  Cl c[3]; Wire probe; Model m; uint32_t seq = 1; StrV hist;
  Str H() { return join(hist, "; "); }
  void connect(int i) { CHECK(c[i].w.open(), "connect refused after: %s", H().c_str()); mc_settle(); c[i].up = true;
    Str in = fmt("cl%d.INBOX.1", i); c[i].w.subscribe(in.c_str(), 1); c[i].w.subscribe(fmt("comp%d", i).c_str(), 2); m.owner[toks(in)] = i; m.owner[toks(fmt("comp%d", i))] = i; c[i].comp = true; mc_settle(); adv(i, 0); }
  void adv(int i, int ev) { auto v = probe.take(); CHECK(v.size() == 1 && v[0].topic == "_RTROUTED.ADVISORY" && v[0].payload.find(fmt("cl%d.INBOX.1", i)) != Str::npos && v[0].payload.find(fmt("\"event\":%d", ev)) != Str::npos, "expected exactly one %s advisory for client %d after: %s; got %zu %s", ev ? "disconnect" : "connect", i, H().c_str(), v.size(), v.empty() ? "" : v[0].str().c_str()); }
  void disconnect(int i) { c[i].w.close(); c[i].up = c[i].comp = false; for (auto it = m.owner.begin(); it != m.owner.end();) if (it->second == i) it = m.owner.erase(it); else ++it; mc_settle(); adv(i, 1); }
  void alias(int i, const char* a, int add) {
    Path p = toks(a); int exp = add ? m.can_add(p) : 0; uint32_t s = seq++;
    c[i].w.subscribe(a, 2, add, fmt("cl%d.INBOX.1", i).c_str(), s); mc_settle();
    auto v = c[i].w.take(); CHECK(v.size() == 1 && v[0].seq == s && (v[0].flags & WF_RSP), "no single answer to the %s of %s by client %d after: %s", add ? "registration" : "removal", a, i, H().c_str());
    long r = -1; size_t k = v[0].payload.find("\"result\":"); if (k != Str::npos) r = atol(v[0].payload.c_str() + k + 9);
    CHECK((r == 0) == (exp == 0), "%s of %s by client %d gave %ld, expected %s; after: %s", add ? "registration" : "removal", a, i, r, exp == 0 ? "success" : exp == 1 ? "a duplicate error" : "an error", H().c_str());
    if (add && !exp) m.owner[p] = i;
    if (!add) { auto it = m.owner.find(p); if (it != m.owner.end() && it->second == i) m.owner.erase(it); } }
  void probeall() {
    std::vector<uint32_t> ss; for (int k = 0; k < NP; k++) { WMsg q; q.topic = PROBE[k]; q.reply = "probe.INBOX.9"; q.flags = WF_REQ | WF_RAW; q.seq = seq++; q.payload = fmt("payload-%u", q.seq) + Str((size_t)(k * 7 % 23), '\0'); ss.push_back(q.seq); CHECK(probe.send(q), "broker gone after: %s", H().c_str()); }
    mc_settle();
    std::map<uint32_t, std::vector<int>> got; std::map<uint32_t, WMsg> und;
    for (int i = 0; i < 3; i++) if (c[i].up) { for (auto& g : c[i].w.take()) { got[g.seq].push_back(i);
        size_t k = (size_t)(std::find(ss.begin(), ss.end(), g.seq) - ss.begin()); CHECK(k < ss.size(), "client %d received a message never sent to it %s after: %s", i, g.str().c_str(), H().c_str());
        CHECK(g.topic == PROBE[k] && g.reply == "probe.INBOX.9" && g.flags == (WF_REQ | WF_RAW) && g.payload == fmt("payload-%u", g.seq) + Str((size_t)(k * 7 % 23), '\0'), "request altered on the way to client %d: %s after: %s", i, g.str().c_str(), H().c_str()); }
      CHECK(!c[i].w.eof && !c[i].w.bad, "client %d was disconnected or got garbage after: %s", i, H().c_str()); }
    for (auto& g : probe.take()) { CHECK((g.flags & WF_RSP) && (g.flags & WF_UNDELIVERABLE) && !(g.flags & WF_REQ) && !und.count(g.seq), "unexpected message to the prober %s after: %s", g.str().c_str(), H().c_str()); und[g.seq] = g; }
    for (int k = 0; k < NP; k++) { auto exp = m.resolve(PROBE[k]); auto& g = got[ss[(size_t)k]]; std::set<int> gs(g.begin(), g.end()); Str e, a; for (int x : exp) e += fmt(" %d", x); for (int x : g) a += fmt(" %d", x);
      CHECK(gs == exp && g.size() == exp.size(), "a request to %s reached client(s)%s instead of%s; after: %s", PROBE[k], a.c_str(), e.empty() ? " nobody" : e.c_str(), H().c_str());
      CHECK(exp.empty() == (und.count(ss[(size_t)k]) > 0), "a request to %s (%s) %s answered as undeliverable; after: %s", PROBE[k], exp.empty() ? "nobody owns it" : "owned", exp.empty() ? "was not" : "was", H().c_str()); }
    mc_count(0, 1); }
};
/* every history of connects, disconnects, registrations and removals of the given length, by up to `clients` clients */
SCN(p01_routing) {
  int depth = (int)mc_param("depth", 3), nc = (int)mc_param("clients", 2), na = (int)mc_param("aliases", 6); int part = mc_choose(64, "part");
  scn_start_router(); Bench b; CHECK(b.probe.open(), "connect"); b.probe.subscribe("probe.INBOX.9", 1); mc_settle(); b.probe.subscribe("_RTROUTED.ADVISORY", 2); mc_settle(); b.probe.take();
  uint64_t n = 0;
  for (Odo od; od.more();) {
    /* cheap filter on the first operations so that a partition never runs the others' histories */
    std::vector<std::pair<int, int>> ops; int used = 0; bool skip = false; int nop = 2 * na + 2;
    for (int d = 0; d < depth && !skip; d++) { int lim = std::min(used + 1, nc); int o = od.choose(lim * nop); int cl = o / nop; used = std::max(used, cl + 1); ops.push_back({cl, o % nop});
      if (d == 1 || depth == 1) { if ((ops[0].second * 31 + o) % 64 != part) skip = true; } }
    if (skip) continue;
    n++; b.hist.clear(); b.connect(0); if (nc > 1) b.connect(1);
    for (auto& o : ops) { int c = o.first, k = o.second;
      if (k < 2 * na) { int add = k < na; const char* a = ALIAS[k % na]; if (!b.c[c].up) { b.connect(c); b.hist.push_back(fmt("connect %d", c)); } if (!b.c[c].comp) continue; b.alias(c, a, add); b.hist.push_back(fmt("%d %s %s", c, add ? "registers" : "removes", a)); }
      else if (k == 2 * na) { if (b.c[c].up) { b.disconnect(c); b.hist.push_back(fmt("disconnect %d", c)); } else { b.connect(c); b.hist.push_back(fmt("connect %d", c)); } }
      else { if (!b.c[c].up || !b.c[c].comp) continue; /* the component's own address goes, and with it what was registered through it */
        b.c[c].w.subscribe(fmt("comp%d", c).c_str(), 2, 0); mc_settle(); b.c[c].comp = false; for (auto it = b.m.owner.begin(); it != b.m.owner.end();) if (it->second == c && it->first != toks(fmt("cl%d.INBOX.1", c))) it = b.m.owner.erase(it); else ++it; b.hist.push_back(fmt("%d removes its component address", c)); } }
    b.probeall();
    for (int i = 0; i < 3; i++) if (b.c[i].up) b.disconnect(i);
  }
  mc_outcome("part %d: %llu histories", part, (unsigned long long)n); }
/* registrations of long, deep and odd names: the answer and the reachability agree with the model, limits are refused cleanly */
SCN(p01_names) {
  scn_start_router(); Wire a, b; a.open(); b.open(); mc_settle(); a.subscribe("a.INBOX.1", 1); a.subscribe("compA", 2); b.subscribe("b.INBOX.1", 1); mc_settle();
  for (int tok = 1; tok <= 40; tok++) for (int len = 1; len <= 9; len++) for (int dot = 0; dot < 2; dot++) {
    Str n; for (int i = 0; i < tok; i++) { if (i) n += "."; n += Str((size_t)len, (char)('a' + i % 26)); } if (dot) n += ".";
    if (n.size() > 250) continue;
    for (int add = 1; add >= 0; add--) {
      a.subscribe(n.c_str(), 2, add, "a.INBOX.1", 7); mc_settle(); auto v = a.take(); CHECK(v.size() == 1, "no single answer to registering a name of %d levels, %zu characters", tok, n.size());
      bool ok = v[0].payload.find("\"result\":0") != Str::npos; bool legal = n.size() < 128 && tok <= 32; CHECK(ok == (legal || (!add && n.size() < 128)), "%s a name of %d levels and %zu characters gave %s", add ? "registering" : "removing", tok, n.size(), v[0].payload.c_str());
      WMsg q; q.topic = dot ? n.substr(0, n.size() - 1) : n; q.reply = "b.INBOX.1"; q.flags = WF_REQ; q.seq = 9; q.payload = "{}"; b.send(q); mc_settle(); auto x = a.take(), y = b.take();
      bool reach = legal && add; CHECK(x.size() == (reach ? 1u : 0u), "a request to a name of %d levels and %zu characters %s", tok, n.size(), reach ? "did not arrive once" : "arrived although it is not registered");
      CHECK(y.size() == (reach ? 0u : 1u) && (y.empty() || (y[0].flags & WF_UNDELIVERABLE)), "request to an address of %d levels: %zu answers", tok, y.size()); mc_count(0, 1); } } }
