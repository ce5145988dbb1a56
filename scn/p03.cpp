/* P03: every fragmentation of a client's stream, at the broker and at the receiving client; hostile bytes and messages of a peer */
#include "wire.h"
#include <rtMessage.h>
#include <rtConnection.h>
#include <rtMessageHeader.h>
static WMsg mk(const char* topic, const char* reply, uint32_t flags, uint32_t seq, const Str& pay, uint32_t ctl = 0) { WMsg m; m.topic = topic; m.reply = reply; m.flags = flags; m.seq = seq; m.payload = pay; m.ctl = ctl; return m; }
static Str blob(size_t n, int seed) { Str s(n, '\0'); for (size_t i = 0; i < n; i++) s[i] = (char)((i * 131 + (size_t)seed * 17 + (i >> 8)) & 0xff); return s; }
/* the stream of messages used for the splitting scenarios; `big` adds payloads beyond the read buffer */
static std::vector<WMsg> stream(const char* topic, int kind, uint32_t ctl) { std::vector<WMsg> v;
  v.push_back(mk(topic, "a.INBOX.1", WF_REQ | WF_RAW, 11, "{\"k\":1}", ctl));
  if (kind == 1) v.push_back(mk(topic, "", WF_RAW, 12, blob(66000, 3), ctl));
  v.push_back(mk(topic, "", WF_RAW, 13, "", ctl));
  v.push_back(mk(topic, "a.INBOX.1", WF_REQ | WF_RAW, 14, blob(37, 5), ctl));
  return v; }
static void expect(const std::vector<WMsg>& sent, const std::vector<WMsg>& got, const Str& how) {
  CHECK(got.size() == sent.size(), "%zu messages sent, %zu received (%s)", sent.size(), got.size(), how.c_str());
  for (size_t i = 0; i < sent.size(); i++) CHECK(got[i].seq == sent[i].seq && got[i].flags == sent[i].flags && got[i].topic == sent[i].topic && got[i].reply == sent[i].reply && got[i].payload == sent[i].payload, "message %zu changed: sent %s received %s (%s)", i, sent[i].str().c_str(), got[i].str().c_str(), how.c_str()); }
/* cut positions to use for a stream of n bytes: all of them, or for big streams all near message and buffer boundaries */
static std::vector<size_t> cuts(const std::vector<WMsg>& ms, bool pairs) { std::set<size_t> s; size_t o = 0; bool big = false;
  for (auto& m : ms) { size_t h = 52 + m.topic.size() + m.reply.size(), e = h + m.payload.size(); if (m.payload.size() > 1000) big = true;
    for (size_t p : {(size_t)0, (size_t)1, (size_t)2, (size_t)5, (size_t)6, (size_t)7, h - 1, h, h + 1, (size_t)4096, (size_t)65535, (size_t)65536, (size_t)65537, e - 1, e}) if (p <= e) s.insert(o + p);
    if (!pairs && m.payload.size() <= 1000) for (size_t p = 0; p <= e; p++) s.insert(o + p);
    o += e; }
  (void)big; s.erase(0); s.erase(o); return std::vector<size_t>(s.begin(), s.end()); }
/* broker side: split at every position, then at every pair of positions, then every byte alone */
SCN(p03_split_broker) {
  int kind = mc_choose(2, "kind"), npart = 8, part = mc_choose(npart, "part"); scn_start_router(); Wire a, b; CHECK(a.open() && b.open(), "connect"); mc_settle(); a.subscribe("a.INBOX.1", 1); b.subscribe("b.INBOX.1", 1); b.subscribe("D.B", 5); mc_settle();
  auto ms = stream("D.B", kind, 0); Str s; for (auto& m : ms) s += wire_encode(m);
  auto run = [&](const std::vector<size_t>& at, const Str& how) { size_t o = 0; for (size_t c : at) { CHECK(a.raw(s.substr(o, c - o)), "the broker closed the connection (%s)", how.c_str()); mc_settle(); o = c; } a.raw(s.substr(o)); mc_settle();
    auto g = b.take(); for (auto& m : g) CHECK(m.ctl == 5, "message delivered for another subscription (%s)", how.c_str()); expect(ms, g, how); CHECK(a.take().empty() && !a.eof && !b.eof, "sender disturbed (%s)", how.c_str()); mc_count(0, 1); };
  uint64_t n = 0; auto c1 = cuts(ms, false); for (size_t i : c1) if ((int)(n++ % (uint64_t)npart) == part) run({i}, fmt("stream cut at byte %zu", i));
  auto c2 = cuts(ms, true); for (size_t i : c2) for (size_t j : c2) if (i < j && (int)(n++ % (uint64_t)npart) == part) run({i, j}, fmt("stream cut at bytes %zu and %zu", i, j));
  if (part == 0 && kind == 0) { std::vector<size_t> all; for (size_t i = 1; i < s.size(); i++) all.push_back(i); run(all, "one byte at a time"); }
  if (part == 1) { Str t; for (int i = 0; i < 5; i++) t += s; a.raw(t); mc_settle(); auto g = b.take(); std::vector<WMsg> x; for (int i = 0; i < 5; i++) x.insert(x.end(), ms.begin(), ms.end()); expect(x, g, "five times in one piece"); }
  mc_outcome("kind %d part %d", kind, part); }
/* receiving client: the real rtConnection of a component reads from a broker that splits what it sends */
struct Got { std::vector<WMsg> v; };
static void on_msg(rtMessageHeader const* h, uint8_t const* p, uint32_t n, void* cl) { WMsg m; m.seq = h->sequence_number; m.flags = h->flags; m.ctl = h->control_data; m.topic = h->topic; m.reply = h->reply_topic; m.payload = Str((const char*)p, n); ((Got*)cl)->v.push_back(m); }
SCN(p03_split_client) {
  int kind = mc_choose(2, "kind"), npart = 8, part = mc_choose(npart, "part");
  int ls = socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un ad; memset(&ad, 0, sizeof ad); ad.sun_family = AF_UNIX; strcpy(ad.sun_path, "/tmp/rtrouted"); CHECK(!bind(ls, (struct sockaddr*)&ad, sizeof ad) && !listen(ls, 4), "listen");
  int p = mc_proc_new("client"); rtConnection con = nullptr; Got got; Got* gp = &got; uint32_t id = 0;
  int t = async(p, [&] { rtConnection_Create(&con, "cl", "unix:///tmp/rtrouted"); rtConnection_AddListener(con, "D.B", on_msg, gp); }); mc_settle();
  Wire w; w.fd = accept(ls, nullptr, nullptr); CHECK(w.fd >= 0, "client did not connect"); mc_settle();
  /* answer its subscriptions and learn the route id it uses for D.B */
  for (int k = 0; k < 6; k++) { for (auto& m : w.take()) { size_t q = m.payload.find("\"route_id\":"); if (m.payload.find("\"D.B\"") != Str::npos && q != Str::npos) id = (uint32_t)atol(m.payload.c_str() + q + 11); if (m.flags & WF_REQ) { WMsg r; r.topic = m.reply; r.reply = m.topic; r.flags = WF_RSP; r.seq = m.seq; r.payload = "{\"result\":0}"; w.send(r); } } mc_settle(); }
  CHECK(mc_joined(t) && id, "the client library did not finish connecting"); mc_join(t);
  auto ms = stream("D.B", kind, id); Str s; for (auto& m : ms) s += wire_encode(m);
  auto run = [&](const std::vector<size_t>& at, const Str& how) { size_t o = 0; got.v.clear(); for (size_t c : at) { CHECK(w.raw(s.substr(o, c - o)), "client closed the connection (%s)", how.c_str()); mc_settle(); o = c; } w.raw(s.substr(o)); mc_settle(); expect(ms, got.v, how); CHECK(!w.eof, "client left (%s)", how.c_str()); mc_count(0, 1); };
  uint64_t n = 0; auto c1 = cuts(ms, false); for (size_t i : c1) if ((int)(n++ % (uint64_t)npart) == part) run({i}, fmt("stream cut at byte %zu", i));
  auto c2 = cuts(ms, true); for (size_t i : c2) for (size_t j : c2) if (i < j && (int)(n++ % (uint64_t)npart) == part) run({i, j}, fmt("stream cut at bytes %zu and %zu", i, j));
  if (part == 0 && kind == 0) { std::vector<size_t> all; for (size_t i = 1; i < s.size(); i++) all.push_back(i); run(all, "one byte at a time"); }
  mc_outcome("kind %d part %d", kind, part); mc_kill(p); }
/* ---- hostile peer of the broker ---- */
struct Victims { Wire a, b; uint32_t seq = 100;
  void up() { CHECK(a.open() && b.open(), "connect"); mc_settle(); a.subscribe("a.INBOX.1", 1); b.subscribe("b.INBOX.2", 1); a.subscribe("compA", 2); b.subscribe("compB", 2); b.subscribe("V.B", 2, 1, "b.INBOX.2", 3); mc_settle(); a.take(); auto v = b.take(); CHECK(v.size() == 1, "registration"); }
  void check(const Str& how) { uint32_t q = seq++; a.send(mk("V.B", "a.INBOX.1", WF_REQ | WF_RAW, q, "question")); mc_settle(); auto g = b.take(); CHECK(g.size() == 1 && g[0].seq == q && g[0].payload == "question" && g[0].topic == "V.B" && g[0].ctl == 2, "a request between two other clients got lost or changed, or they received something foreign (%zu messages%s) after a peer sent %s", g.size(), g.empty() ? "" : (" " + g[0].str()).c_str(), how.c_str());
    b.send(mk("a.INBOX.1", "V.B", WF_RSP | WF_RAW, q, "answer")); mc_settle(); auto r = a.take(); CHECK(r.size() == 1 && r[0].seq == q && r[0].payload == "answer", "the answer between two other clients got lost or changed after a peer sent %s", how.c_str());
    CHECK(!a.eof && !b.eof && !a.bad && !b.bad, "another client was disconnected after a peer sent %s", how.c_str()); }
  void newcomer(const Str& how) { Wire c; CHECK(c.open(), "the broker refuses new clients after a peer sent %s", how.c_str()); mc_settle(); c.subscribe("c.INBOX.3", 1); mc_settle(); c.send(mk("V.Nobody", "c.INBOX.3", WF_REQ, 9, "x")); mc_settle(); auto g = c.take(); CHECK(g.size() == 1 && (g[0].flags & WF_UNDELIVERABLE), "the broker does not serve new clients after a peer sent %s", how.c_str()); c.close(); mc_settle(); } };
struct Hostile { Wire h; void up() { CHECK(h.open(), "connect"); mc_settle(); h.subscribe("h.INBOX.9", 1); h.subscribe("compH", 2); mc_settle(); h.take(); } void down() { h.close(); mc_settle(); } };
/* every header field replaced by boundary values, in a message with and without payload, followed by silence, a good message, or disconnection */
SCN(p03_header) {
  int npart = 16, part = mc_choose(npart, "part"); scn_start_router(); Victims v; v.up(); uint64_t n = 0;
  static const char* TOP[] = {"V.B", "_RTROUTED.INBOX.SUBSCRIBE", "V.Nobody", ""};
  static const long VAL[] = {-1, 0, 1, 5, 6, 7, 31, 51, 52, 53, 127, 128, 129, 255, 256, 257, 1000, 65535, 65536, 70000, 0x7fffffffL, 0x80000000L, 0xfffffff0L, 0xffffffffL};
  for (Odo o; o.more();) { int top = o.choose(4), pay = o.choose(2), field = o.choose(7), vi = o.choose((int)(sizeof VAL / sizeof *VAL)), after = o.choose(3); if ((int)(n++ % (uint64_t)npart) != part) continue;
    WMsg m = mk(TOP[top], "h.INBOX.9", WF_REQ, 5, pay ? "{\"add\":1,\"topic\":\"H.x\",\"route_id\":2}" : ""); long x = VAL[vi];
    Str s = field == 0 ? wire_encode(m, (int)(x < 0 ? -1 : x & 0xffff)) : field == 1 ? wire_encode(m, -1, x) : field == 2 ? wire_encode(m, -1, -1, (int)x) : field == 3 ? wire_encode(m, -1, -1, 2, (unsigned)x & 0xffff) : field == 4 ? wire_encode(m, -1, -1, 2, 0xaaaa, (unsigned)x & 0xffff) : field == 5 ? wire_encode(m, -1, -1, 2, 0xaaaa, 0xaaaa, x) : wire_encode(m, -1, -1, 2, 0xaaaa, 0xaaaa, -1, x);
    static const char* FN[] = {"header length", "payload length", "version", "leading marker", "trailing marker", "topic length", "reply topic length"}; Str how = fmt("a message to '%s' with %s %ld%s", TOP[top], FN[field], x, after == 1 ? " and a good message after it" : after == 2 ? " and disconnected" : "");
    mc_note("%s", how.c_str()); Hostile h; h.up(); h.h.raw(s); if (after == 2) { h.down(); v.a.take(); v.b.take(); } mc_settle();
    if (after == 1) { h.h.raw(wire_encode(mk("V.Nobody", "h.INBOX.9", WF_REQ, 6, "x"))); mc_settle(); h.h.raw(blob(300, 1)); mc_settle(); }
    /* a message that did reach the victim is allowed only if it was addressed to it */
    for (auto& g : v.b.take()) CHECK(g.topic == "V.B", "foreign message %s after a peer sent %s", g.str().c_str(), how.c_str()); for (auto& g : v.a.take()) CHECK(0, "foreign message %s after a peer sent %s", g.str().c_str(), how.c_str());
    v.check(how); if (after != 2) h.down(); v.check(how + ", then disconnected"); v.newcomer(how); mc_count(0, 1); }
  mc_outcome("part %d", part); }
/* a valid message cut off at every byte by disconnection; then the victims talk */
SCN(p03_truncated) {
  scn_start_router(); Victims v; v.up(); static const char* TOP[] = {"V.B", "_RTROUTED.INBOX.SUBSCRIBE", "_RTROUTED.INBOX.DIAG", "_enumerate_elements"};
  for (const char* t : TOP) { Str s = wire_encode(mk(t, "h.INBOX.9", WF_REQ, 5, "{\"add\":1,\"topic\":\"H.x\",\"route_id\":2}")); for (size_t i = 0; i <= s.size(); i++) { Str how = fmt("the first %zu of %zu bytes of a message to %s and disconnected", i, s.size(), t); mc_note("%s", how.c_str()); Hostile h; h.up(); h.h.raw(s.substr(0, i)); mc_settle(); h.down(); auto g = v.b.take(); CHECK(g.size() == (i == s.size() && !strcmp(t, "V.B") ? 1u : 0u), "%zu messages arrived after a peer sent %s", g.size(), how.c_str()); v.check(how); mc_count(0, 1); } v.newcomer("truncated messages"); }
  mc_outcome("ok"); }
/* every internal address of the broker with every kind of payload */
SCN(p03_internal) {
  int npart = 16, part = mc_choose(npart, "part"); scn_start_router(); Victims v; v.up(); uint64_t n = 0;
  static const char* TOP[] = {"_RTROUTED.INBOX.SUBSCRIBE", "_RTROUTED.INBOX.HELLO", "_RTROUTED.INBOX.DIAG", "_RTROUTED.INBOX.QUERY", "_enumerate_elements", "_trace_origin_object", "_registered_components", "_RTROUTED.TRANSACTION.INFO", "_RTROUTED.UNKNOWN", "_RTROUTED.ADVISORY", "_RTROUTED"};
  static const char* REP[] = {"h.INBOX.9", "", "_RTROUTED.INBOX.SUBSCRIBE", "_RTROUTED.INBOX.DIAG", "V.Nobody", "_RTROUTED.ADVISORY"};
  std::vector<Str> PAY = {"", Str(1, '\0'), "{", "[]", "[1,2]", "null", "7", "\"x\"", "{}", "\xff\xfe\x00", blob(500, 9), Str(3000, '['), Str(900, '{')};
  static const char* VALS[] = {"null", "true", "-1", "0", "1", "3", "1000000", "4294967296", "1e400", "\"\"", "\".\"", "\"..\"", "\"a\"", "\"_RTROUTED.INBOX.X\"", "\"V.B.\"", "\"V.{i}\"", "\"{i}\"", "\"*\"", "[]", "[1]", "[\"V.B\"]", "[\"V.B\",null,\"\"]", "{}", "{\"a\":1}"};
  static const char* KEYS[] = {"add", "topic", "route_id", "inbox", "expression", "items", "count", "_RTROUTED.INBOX.DIAG.KEY", "T1", "reply_topic"};
  for (const char* k : KEYS) for (const char* x : VALS) { Str p = "{"; bool f = true; auto put = [&](const char* kk, const Str& vv) { if (!f) p += ","; f = false; p += "\"" + Str(kk) + "\":" + vv; };
    put(k, x); for (auto& d : std::vector<std::pair<const char*, const char*>>{{"add", "1"}, {"topic", "\"H.t\""}, {"route_id", "2"}, {"inbox", "\"H.INBOX.4\""}, {"expression", "\"compH\""}, {"items", "[\"V.B\"]"}, {"count", "1"}, {"_RTROUTED.INBOX.DIAG.KEY", "\"heartbeat\""}}) if (strcmp(d.first, k)) put(d.first, d.second);
    PAY.push_back(p + "}"); }
  for (int len : {126, 127, 128, 129, 255, 256, 1000, 20000}) { PAY.push_back("{\"add\":1,\"topic\":\"" + Str((size_t)len, 'L') + "\",\"route_id\":2,\"inbox\":\"" + Str((size_t)len, 'I') + "\",\"expression\":\"" + Str((size_t)len, 'X') + "\",\"count\":1,\"items\":[\"" + Str((size_t)len, 'Y') + "\"],\"_RTROUTED.INBOX.DIAG.KEY\":\"" + Str((size_t)len, 'K') + "\"}");
    Str d; for (int i = 0; i < len / 2; i++) d += "a."; PAY.push_back("{\"add\":1,\"topic\":\"" + d + "\",\"route_id\":2,\"inbox\":\"" + d + "\",\"expression\":\"" + d + "\",\"count\":1,\"items\":[\"" + d + "\"],\"_RTROUTED.INBOX.DIAG.KEY\":\"logRoutingTopics\"}"); }
  for (const char* c : {"enableVerboseLogs", "disableVerboseLogs", "logRoutingStats", "logRoutingTopics", "logRoutingRoutes", "resetBenchmarkData", "dumpBenchmarkData", "heartbeat", "nonsense"}) PAY.push_back(Str("{\"_RTROUTED.INBOX.DIAG.KEY\":\"") + c + "\"}");
  PAY.push_back("{\"add\":0,\"topic\":\"V.B\",\"route_id\":2}"); PAY.push_back("{\"add\":0,\"topic\":\"compB\",\"route_id\":2}"); PAY.push_back("{\"add\":1,\"topic\":\"V.B\",\"route_id\":2}"); PAY.push_back("{\"count\":5000,\"items\":[\"V.B\"],\"expression\":\"V.\"}");
  static const uint32_t FL[] = {WF_REQ, 0, WF_RSP, WF_REQ | WF_RAW, 0xffffffff & ~8u};
  for (size_t t = 0; t < sizeof TOP / sizeof *TOP; t++) for (size_t p = 0; p < PAY.size(); p++) for (size_t r = 0; r < 6; r++) for (size_t f = 0; f < 5; f++) {
    if (r && f > 1 && !(p < 14)) continue; if ((int)(n++ % (uint64_t)npart) != part) continue;
    Str how = fmt("flags %x to %s, reply to '%s', payload (%zu) %s", FL[f], TOP[t], REP[r], PAY[p].size(), PAY[p].substr(0, 150).c_str()); mc_note("%s", how.c_str());
    Hostile h; h.up(); h.h.raw(wire_encode(mk(TOP[t], REP[r], FL[f], 77, PAY[p]))); mc_settle();
    for (auto& g : v.b.take()) CHECK(0, "foreign message %s after a peer sent %s", g.str().c_str(), how.c_str());
    v.check(how); h.down(); v.check(how + ", then left"); if (n % 7 == 0) v.newcomer(how); mc_count(0, 1); }
  v.newcomer("all of them"); mc_outcome("part %d", part); }
