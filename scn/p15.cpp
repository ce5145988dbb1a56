/* P15: any two operations at the same time have the result of one order of them */
#include "kit.h"
struct W15 { int id; PC p, p2, c, b; bool p2open = true, bopen = true; };
static Str nm15(W15* w, const char* s) { return fmt("W%d.%s", w->id, s); }
static Str norm15(W15* w, Str s) { for (auto& x : {std::make_pair(fmt("W%d.", w->id), Str("W.")), std::make_pair(fmt("prov%d", w->id), Str("prov")), std::make_pair(fmt("cons%d", w->id), Str("cons"))}) { size_t i = 0; while ((i = s.find(x.first, i)) != Str::npos) s.replace(i, x.first.size(), x.second); } return s; }
enum { P_REG, P_UNREG, P_ADDROW, P_UNREGROW, P_PUB, P_OPEN, P_CLOSE2, P_SET, C_GET, C_SET, C_GETX, C_SETM, C_SUB, C_UNSUB, C_VSUB, C_VUNSUB, C_ISUB, C_IUNSUB, C_ADD, C_REM, C_ROWS, C_INV, C_DISC, C_DISCN, C_OPEN, C_CLOSE2, C_ASUB, C_AINV, C_INFO, B_SUB, B_GET, NOP };
static const char* OPN[] = {"owner registers New", "owner unregisters B", "owner adds a row", "owner removes row 1", "owner publishes E", "owner's process opens a component", "owner's process closes its second component", "owner sets A", "get A", "set A", "get all", "set A and B", "subscribe E", "unsubscribe E2", "subscribe to changes of A", "unsubscribe changes of V", "subscribe to A at intervals", "unsubscribe I at intervals", "add a row", "remove row 1", "row names", "call M", "discover the elements", "discover the names", "consumer's process opens a component", "consumer's process closes its second component", "subscribe E asynchronously", "call M asynchronously", "element information", "other component subscribes E2", "other component gets T.1.N"};
static int proc15(W15* w, int op) { return op <= P_SET ? w->p.proc : w->c.proc; }
static void mcb15(rbusHandle_t, char const* n, rbusError_t e, rbusObject_t o) { ps->as.push_back(fmt("inv %s %d ", n, (int)e) + ostr(o)); }
static rbusEventSubscription_t sub15(const Str& n, long ud, int iv) { rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = n.c_str(); x.handler = (void*)k_evh; x.userData = (void*)(intptr_t)ud; x.interval = (uint32_t)iv; return x; }
static Str op15(W15* w, int op, int k) {
  Str A = nm15(w, "A"), B = nm15(w, "B"), T = nm15(w, "T."), R = nm15(w, "T.1."), E = nm15(w, "E!"), E2 = nm15(w, "E2!"), all = nm15(w, ""), M = nm15(w, "M()"), N = nm15(w, "T.1.N"), V = nm15(w, "V"), I = nm15(w, "I"); rbusHandle_t hp = w->p.h, hc = w->c.h, hb = w->b.h; rbusError_t e = RBUS_ERROR_SUCCESS;
  switch (op) {
    case P_REG: { Elems x({nm15(w, "New") + ":pgs"}); return en(rbus_regDataElements(hp, 1, x.e.data())); }
    case P_UNREG: { Elems x({B + ":pgs"}); return en(rbus_unregDataElements(hp, 1, x.e.data())); }
    case P_ADDROW: e = rbusTable_registerRow(hp, T.c_str(), 50, nullptr); return en(e);
    case P_UNREGROW: return en(rbusTable_unregisterRow(hp, R.c_str()));
    case P_PUB: { rbusObject_t o; rbusObject_Init(&o, nullptr); rbusValue_t v = vint(3); rbusObject_SetValue(o, "k", v); rbusValue_Release(v); rbusEvent_t ev; memset(&ev, 0, sizeof ev); ev.name = E.c_str(); ev.type = RBUS_EVENT_GENERAL; ev.data = o; e = rbusEvent_Publish(hp, &ev); rbusObject_Release(o); return en(e); }
    case P_OPEN: { rbusHandle_t h = nullptr; e = rbus_open(&h, fmt("prov%dy%d", w->id, k).c_str()); if (e) return en(e); Elems x({nm15(w, k ? "Z" : "Y") + ":pgs"}); e = rbus_regDataElements(h, 1, x.e.data()); return Str("open ") + en(e); }
    case P_CLOSE2: return en(rbus_close(w->p2.h));
    case P_SET: case C_SET: { rbusValue_t v = vint(op); e = rbus_set(op == P_SET ? hp : hc, A.c_str(), v, nullptr); rbusValue_Release(v); return en(e); }
    case C_GET: case B_GET: { rbusValue_t v = nullptr; e = rbus_get(op == C_GET ? hc : hb, op == C_GET ? A.c_str() : N.c_str(), &v); Str r = e ? Str(en(e)) : "ok:" + vstr(v); if (!e) rbusValue_Release(v); return r; }
    case C_GETX: { const char* q = all.c_str(); int n = 0; rbusProperty_t pr = nullptr; e = rbus_getExt(hc, 1, &q, &n, &pr); if (e) return en(e); StrV r; for (rbusProperty_t x = pr; x; x = rbusProperty_GetNext(x)) r.push_back(Str(rbusProperty_GetName(x)) + "=" + vstr(rbusProperty_GetValue(x))); rbusProperty_Release(pr); std::sort(r.begin(), r.end()); return join(r); }
    case C_SETM: { rbusValue_t v1 = vint(21), v2 = vint(22); rbusProperty_t p1, p2; rbusProperty_Init(&p1, A.c_str(), v1); rbusProperty_Init(&p2, V.c_str(), v2); rbusProperty_SetNext(p1, p2); e = rbus_setMulti(hc, 2, p1, nullptr); rbusValue_Release(v1); rbusValue_Release(v2); rbusProperty_Release(p1); rbusProperty_Release(p2); return en(e); }
    case C_SUB: return en(rbusEvent_Subscribe(hc, E.c_str(), k_evh, (void*)11, 0));
    case C_UNSUB: return en(rbusEvent_Unsubscribe(hc, E2.c_str()));
    case C_VSUB: return en(rbusEvent_Subscribe(hc, A.c_str(), k_evh, (void*)12, 0));
    case C_VUNSUB: return en(rbusEvent_Unsubscribe(hc, V.c_str()));
    case C_ISUB: { auto x = sub15(A, 13, 2); return en(rbusEvent_SubscribeEx(hc, &x, 1, 0)); }
    case C_IUNSUB: { auto x = sub15(I, 0, 2); return en(rbusEvent_UnsubscribeEx(hc, &x, 1)); }
    case C_ADD: { uint32_t i = 0; e = rbusTable_addRow(hc, T.c_str(), nullptr, &i); return fmt("%s %u", en(e), e ? 0 : i); }
    case C_REM: return en(rbusTable_removeRow(hc, R.c_str()));
    case C_ROWS: { rbusRowName_t* rows = nullptr; e = rbusTable_getRowNames(hc, T.c_str(), &rows); if (e) return en(e); Str r = "ok:"; for (auto* x = rows; x; x = x->next) r += fmt("%s;", x->name); rbusTable_freeRowNames(hc, rows); return r; }
    case C_INV: { rbusObject_t o = nullptr; e = rbusMethod_Invoke(hc, M.c_str(), nullptr, &o); Str r = Str(en(e)) + ostr(o); if (o) rbusObject_Release(o); return r; }
    case C_DISCN: { Str N2 = nm15(w, "New"); Str r; const char* q[] = {A.c_str(), B.c_str(), N2.c_str()}; int n = 0; char** l = nullptr; e = rbus_discoverComponentName(hc, 3, q, &n, &l); r = en(e); if (!e) { for (int i = 0; i < n; i++) { r += Str(",") + l[i]; free(l[i]); } free(l); } return r; }
    case C_DISC: { Str r; char** l = nullptr; int n = 0; e = rbus_discoverComponentDataElements(hc, w->p.name.c_str(), false, &n, &l); r = en(e); if (!e) { StrV z; for (int i = 0; i < n; i++) { z.push_back(l[i]); free(l[i]); } if (l) free(l); std::sort(z.begin(), z.end()); r += join(z); } return r; }
    case C_OPEN: { rbusHandle_t h = nullptr; e = rbus_open(&h, fmt("cons%dy%d", w->id, k).c_str()); if (e) return en(e); rbusValue_t v = nullptr; e = rbus_get(h, N.c_str(), &v); Str r = e ? Str(en(e)) : vstr(v); if (!e) rbusValue_Release(v); e = rbus_close(h); return r + " " + en(e); }
    case C_CLOSE2: return en(rbus_close(hb));
    case C_ASUB: return en(rbusEvent_SubscribeAsync(hc, E.c_str(), k_evh, k_ash, (void*)14, 0));
    case C_AINV: return en(rbusMethod_InvokeAsync(hc, M.c_str(), nullptr, mcb15, 0));
    case C_INFO: { rbusElementInfo_t* x = nullptr; e = rbusElementInfo_get(hc, T.c_str(), RBUS_MAX_NAME_DEPTH, &x); if (e) return en(e); StrV r; for (auto* y = x; y; y = y->next) r.push_back(fmt("%s(%d,%u)", y->name, (int)y->type, y->access)); rbusElementInfo_free(hc, x); std::sort(r.begin(), r.end()); return join(r); }
    case B_SUB: return en(rbusEvent_Subscribe(hb, E2.c_str(), k_evh, (void*)15, 0)); }
  return "?"; }
static void up15(W15& w, int id) {
  w.id = id; w.p = pc_new(fmt("prov%d", id).c_str()); w.c = pc_new(fmt("cons%d", id).c_str()); w.p2 = w.p; w.p2.name = fmt("prov%dx", id); w.p2.h = nullptr; comp_open(w.p2); w.b = w.c; w.b.name = fmt("cons%dx", id); w.b.h = nullptr; comp_open(w.b); PS* s = w.p.s; s->logget = 0; s->autopub = 1;
  StrV el; for (auto x : {"A:pgse", "B:pgs", "V:pgse", "I:pgse", "T.{i}.:tare", "T.{i}.N:pgs", "E!:ee", "E2!:ee", "M():mm"}) el.push_back(nm15(&w, x)); CHECK(!k_reg(w.p, el), "register"); CHECK(!k_reg(w.p2, {nm15(&w, "Q") + ":pgs", nm15(&w, "QE!") + ":ee"}), "register"); int k = 0; for (auto x : {"A", "B", "V", "I", "T.1.N"}) { int z = ++k; Str n = nm15(&w, x); call(w.p.proc, [=] { ps->v[n] = vint(z); }); }
  uint32_t i; CHECK(!c_add(w.p, nm15(&w, "T."), nullptr, &i) && !c_add(w.p, nm15(&w, "T."), "al", &i), "rows"); CHECK(!c_sub(w.c, nm15(&w, "E2!"), 1) && !c_sub(w.c, nm15(&w, "V"), 2) && !c_sub(w.b, nm15(&w, "E!"), 4) && !c_sub(w.c, nm15(&w, "QE!"), 5) && !c_sub(w.c, nm15(&w, "T."), 6), "subscribe"); SubX q; q.name = nm15(&w, "I"); q.interval = 2; q.ud = 3; CHECK(!c_subx(w.c, q), "subscribe"); mc_settle(); s->take(); }
static Str uniqev(W15& w) { std::set<Str> r; for (auto& s : w.c.s->takeev()) r.insert(norm15(&w, s)); Str o; for (auto& s : r) o += s + " "; return o; }
/* everything observable afterwards */
static Str state15(W15& w, PC& d, int a, int b) {
  Str r; auto has = [&](int op) { return a == op || b == op; }; StrV l = w.p.s->take(); std::sort(l.begin(), l.end()); /* the owner may be asked twice when one of two equal subscriptions is refused only at the end */ for (size_t i = 1; i < l.size(); ) if (l[i] == l[i - 1] && (l[i].find("sub ") == 0)) l.erase(l.begin() + (long)i); else i++; if (has(P_UNREGROW) && has(C_REM)) l.clear(); r += "ran " + norm15(&w, join(l, ";")) + "\n"; std::map<Str, int> ev; StrV evs; for (auto& s : w.c.s->takeev()) { Str n = norm15(&w, s); if (n.find("3|") == 0 || n.find("13|") == 0) continue; evs.push_back(n); } std::sort(evs.begin(), evs.end()); r += "events " + join(evs, ";") + "\n"; StrV as = w.c.s->takeas(); std::sort(as.begin(), as.end()); r += "answers " + norm15(&w, join(as, ";")) + "\n";
  for (auto n : {"A", "B", "V", "I", "New", "T.1.N", "T.2.N", "T.3.N", "T.50.N", "Q", "Y", "Z"}) r += Str(n) + "=" + norm15(&w, c_get(d, nm15(&w, n))) + " "; r += "\nrows " + norm15(&w, c_rows(d, nm15(&w, "T."))) + "\nunder " + norm15(&w, c_info(d, nm15(&w, "T."), -RBUS_MAX_NAME_DEPTH)) + "\nnames ";
  StrV el; for (auto n : {"A", "B", "New", "T.1.N", "Q", "Y", "Z", "E!"}) r += norm15(&w, c_who(d, {nm15(&w, n)})) + " "; Str x = c_elems(d, w.p.name, false); size_t i = 3; if (x.find("ok:") == 0) { while (i < x.size()) { size_t z = std::min(x.find(',', i), x.size()); el.push_back(x.substr(i, z - i)); i = z + 1; } std::sort(el.begin(), el.end()); } r += norm15(&w, join(el)) + "\n"; w.p.s->take();
  r += norm15(&w, c_inv(d, nm15(&w, "M()"), nullptr)) + "\n"; w.c.s->ev.clear(); r += Str(en(c_pubi(w.p, nm15(&w, "E!"), 1))) + " "; mc_settle(); r += Str(en(c_pubi(w.p, nm15(&w, "E2!"), 2))) + " "; mc_settle(); if (!has(P_CLOSE2)) r += Str(en(c_pubi(w.p2, nm15(&w, "QE!"), 3))); mc_settle(); StrV pe; for (auto& s : w.c.s->takeev()) { Str n = norm15(&w, s); if (n.find("3|") && n.find("13|")) pe.push_back(n); } std::sort(pe.begin(), pe.end()); r += "\npublished " + join(pe, ";") + "\n";
  for (auto n : {"A", "V"}) r += Str(en(c_seti(d, nm15(&w, n), 99))) + " "; w.p.s->take(); mc_sleep_ms(5100); mc_settle(); r += "\nchanges " + uniqev(w) + "\n"; 
  uint32_t inst = 0; rbusError_t e = c_add(d, nm15(&w, "T."), nullptr, &inst); r += fmt("%s %u ", en(e), inst); mc_settle(); r += uniqev(w); if (!has(C_CLOSE2)) r += Str(" ") + en(comp_close(w.b)); r += Str(" ") + en(comp_close(w.c)); w.p.s->take(); r += Str(" ") + en(c_pubi(w.p, nm15(&w, "E!"), 1)); if (!has(P_CLOSE2)) r += Str(" ") + en(comp_close(w.p2)); r += Str(" ") + en(comp_close(w.p)); return r; }
/* what is not fixed by an order of the calls: a row which its owner unregisters while its removal is being handled; an asynchronous subscription may be refused in its answer instead of its result; an event sent to a component that is closing */
static Str result15(W15& w, PC& d, int a, int b, Str ra, Str rb) {
  auto has = [&](int x, int y) { return (a == x && b == y) || (a == y && b == x); }; if (a == C_ASUB || b == C_ASUB) { StrV& as = w.c.s->as; for (size_t i = 0; i < as.size(); i++) if (as[i].find("14|") == 0 && as[i].find("SUBSCRIPTION_ALREADY_EXIST") != Str::npos) { as.erase(as.begin() + (long)i); (a == C_ASUB && ra == "SUCCESS" ? ra : rb) = "SUBSCRIPTION_ALREADY_EXIST"; break; } }
  if (has(P_PUB, C_CLOSE2)) { StrV& ev = w.c.s->ev; ev.erase(std::remove_if(ev.begin(), ev.end(), [](const Str& s) { return s.find("4|") == 0; }), ev.end()); (a == P_PUB ? ra : rb) = "-"; }
  if (has(P_UNREGROW, C_REM)) ra = rb = "-";
  return norm15(&w, ra) + "\n" + norm15(&w, rb) + "\n" + state15(w, d, a, b); }
static uint64_t h15(int a, int b, const Str& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : fmt("%d %d ", a, b) + s) h = (h ^ c) * 1099511628211ull; return h; }
static void pair15(int a, int b) {
  scn_start_router(); PC d = pc_new("probe"); Str ref[2], got; Str info = fmt(" (%s and %s)", OPN[a], OPN[b]); mc_note("%s", info.c_str());
  W15 w; up15(w, 1); W15* pw = &w; Str ra, rb, *pa = &ra, *pb = &rb; mc_window(1); int t1 = async(proc15(&w, a), [=] { *pa = op15(pw, a, 0); }), t2 = async(proc15(&w, b), [=] { *pb = op15(pw, b, 1); }); CHECK(mc_joinable_within(t1, 70000) && mc_joinable_within(t2, 70000), "a call did not return%s", info.c_str()); mc_settle(); mc_window(0); mc_sleep_ms(1000); mc_settle(); got = result15(w, d, a, b, ra, rb);
  if (!mc_memo(h15(a, b, got), 0)) {
    for (int o = 0; o < 2; o++) { W15 w; up15(w, o + 2); W15* pw = &w; Str ra, rb, *pa = &ra, *pb = &rb; for (int i = 0; i < 2; i++) { bool first = (i == 0) == (o == 0); call(proc15(&w, first ? a : b), [=] { *(first ? pa : pb) = op15(pw, first ? a : b, !first); }); mc_settle(); } mc_sleep_ms(1000); mc_settle(); ref[o] = result15(w, d, a, b, ra, rb); mc_memo(h15(a, b, ref[o]), 1); }
    if (got != ref[0] && got != ref[1]) { mc_note("one order:\n%s\n", ref[0].c_str()); mc_note("other order:\n%s\n", ref[1].c_str()); mc_note("concurrently:\n%s\n", got.c_str()); auto diff = [&](const Str& r) { size_t i = 0; while (i < r.size() && i < got.size() && r[i] == got[i]) i++; size_t s = r.rfind('\n', i ? i - 1 : 0); s = s == Str::npos ? 0 : s + 1; size_t g = got.rfind('\n', i ? i - 1 : 0); g = g == Str::npos ? 0 : g + 1; return "[" + got.substr(g, got.find('\n', i) - g) + "] instead of [" + r.substr(s, r.find('\n', i) - s) + "]"; }; mc_fail("the result is that of neither order%s: %s, nor %s", info.c_str(), diff(ref[0]).c_str(), diff(ref[1]).c_str()); } }
  CHECK(!mc_misuse(), "%s%s", mc_misuse_text(), info.c_str()); mc_outcome("%d %d %s", a, b, got.substr(0, got.find('\n', got.find('\n') + 1)).c_str()); }
SCN(p15_pairs) { int a = (int)mc_param("a", -1), b = (int)mc_param("b", -1); if (a < 0) { a = mc_choose(NOP, "first"); b = mc_choose(NOP - a, "second") + a; } /* a component is not used by a thread while another closes it */ if ((a == C_CLOSE2 && b >= C_CLOSE2 && (b == C_CLOSE2 || b >= B_SUB)) || (a == P_CLOSE2 && b == a)) { mc_outcome("-"); return; } pair15(a, b); }
