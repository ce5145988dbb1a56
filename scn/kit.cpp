#include "kit.h"
PS* ps;
PS* ps_init(int proc) { PS* s = new PS; call(proc, [&] { ps = s; }); return s; }
PC pc_new(const char* name, const char* procname) { PC c; c.name = name; c.h = nullptr; c.proc = mc_proc_new(procname ? procname : name); c.s = ps_init(c.proc); comp_open(c); return c; }
static Str S(const char* s) { return s ? Str(s) : Str("(null)"); }
static int errof(std::map<Str, int>& m, const Str& n) { auto i = m.find(n); return i == m.end() ? 0 : i->second; }
static rbusError_t h_get(rbusHandle_t h, rbusProperty_t p, rbusGetHandlerOptions_t* o) {
  Str n = S(rbusProperty_GetName(p)); if (ps->logget) ps->log.push_back("get " + n); if (ps->get) return ps->get(h, n.c_str(), p, o); int e = errof(ps->geterr, n); if (e) return (rbusError_t)e;
  auto i = ps->v.find(n); if (i != ps->v.end()) rbusProperty_SetValue(p, i->second); else { rbusValue_t v = vstrv(("?" + n).c_str()); rbusProperty_SetValue(p, v); rbusValue_Release(v); }
  return RBUS_ERROR_SUCCESS; }
static rbusError_t h_set(rbusHandle_t h, rbusProperty_t p, rbusSetHandlerOptions_t* o) {
  Str n = S(rbusProperty_GetName(p)); rbusValue_t v = rbusProperty_GetValue(p); ps->log.push_back("set " + n + "=" + vstr(v) + fmt(" c%d s%u %s", o ? (int)o->commit : -1, o ? o->sessionId : 0, o ? S(o->requestingComponent).c_str() : "?")); if (ps->set) return ps->set(h, n.c_str(), p, o);
  int e = errof(ps->seterr, n); if (e) return (rbusError_t)e;
  auto& x = ps->v[n]; if (x) rbusValue_Release(x); rbusValue_Retain(v); x = v; return RBUS_ERROR_SUCCESS; }
static rbusError_t h_add(rbusHandle_t h, char const* t, char const* a, uint32_t* inst) { ps->log.push_back("add " + S(t) + " " + S(a)); if (ps->row) ps->row(h, t); int e = errof(ps->adderr, S(t)); if (e) return (rbusError_t)e; *inst = ps->forced ? ps->forced : ++ps->next[S(t)]; return RBUS_ERROR_SUCCESS; }
static rbusError_t h_rem(rbusHandle_t h, char const* r) { ps->log.push_back("rem " + S(r)); if (ps->row) ps->row(h, r); int e = errof(ps->remerr, S(r)); return (rbusError_t)e; }
static rbusError_t h_sub(rbusHandle_t h, rbusEventSubAction_t a, char const* n, rbusFilter_t f, int32_t iv, bool* ap) { if (ps->logsub) ps->log.push_back(fmt("%s %s f%d i%d", a == RBUS_EVENT_ACTION_SUBSCRIBE ? "sub" : "unsub", n, f ? 1 : 0, iv)); if (ps->sub) return ps->sub(h, a, n, f, iv, ap); if (ps->autopub >= 0 && ap) *ap = ps->autopub; return (rbusError_t)errof(ps->suberr, S(n)); }
static rbusError_t h_met(rbusHandle_t h, char const* n, rbusObject_t in, rbusObject_t out, rbusMethodAsyncHandle_t ah) { ps->log.push_back("met " + S(n) + " " + ostr(in)); if (ps->met) return ps->met(h, n, in, out, ah); int e = errof(ps->meterr, S(n)); rbusValue_t v = vstrv(("out of " + S(n)).c_str()); rbusObject_SetValue(out, "result", v); rbusValue_Release(v); return (rbusError_t)e; }
Elems::Elems(const StrV& specs) { names.reserve(specs.size() * 2);
  for (auto& s : specs) { size_t k = s.rfind(':'); names.push_back(s.substr(0, k)); Str f = s.substr(k + 1); rbusDataElement_t d; memset(&d, 0, sizeof d); d.name = (char*)names.back().c_str();
    d.type = f[0] == 'p' ? RBUS_ELEMENT_TYPE_PROPERTY : f[0] == 't' ? RBUS_ELEMENT_TYPE_TABLE : f[0] == 'e' ? RBUS_ELEMENT_TYPE_EVENT : RBUS_ELEMENT_TYPE_METHOD;
    for (size_t i = 1; i < f.size(); i++) switch (f[i]) { case 'g': d.cbTable.getHandler = h_get; break; case 's': d.cbTable.setHandler = h_set; break; case 'a': d.cbTable.tableAddRowHandler = h_add; break; case 'r': d.cbTable.tableRemoveRowHandler = h_rem; break; case 'e': d.cbTable.eventSubHandler = h_sub; break; case 'm': d.cbTable.methodHandler = (void*)h_met; break; }
    e.push_back(d); } }
rbusError_t k_reg(PC& c, const StrV& specs) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { Elems x(specs); e = rbus_regDataElements(h, (int)x.e.size(), x.e.data()); }); return e; }
rbusError_t k_unreg(PC& c, const StrV& specs) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { Elems x(specs); e = rbus_unregDataElements(h, (int)x.e.size(), x.e.data()); }); return e; }
Str c_get(Comp& c, const Str& n) { Str r; rbusHandle_t h = c.h; call(c.proc, [&] { rbusValue_t v = nullptr; rbusError_t e = rbus_get(h, n.c_str(), &v); if (e) r = en(e); else { r = "ok:" + vstr(v); rbusValue_Release(v); } }); return r; }
Str c_getx(Comp& c, const StrV& n) { Str r; rbusHandle_t h = c.h; call(c.proc, [&] { std::vector<const char*> p; for (auto& x : n) p.push_back(x.c_str()); int np = 0; rbusProperty_t pr = nullptr; rbusError_t e = rbus_getExt(h, (int)p.size(), p.data(), &np, &pr); if (e) r = en(e); else { int k = 0; for (rbusProperty_t q = pr; q; q = rbusProperty_GetNext(q)) k++; r = "ok:"; for (rbusProperty_t q = pr; q; q = rbusProperty_GetNext(q)) { if (q != pr) r += ","; r += S(rbusProperty_GetName(q)) + "=" + vstr(rbusProperty_GetValue(q)); } if (k != np) r += fmt(" (count says %d)", np); } if (pr) rbusProperty_Release(pr); }); return r; }
rbusError_t c_set(Comp& c, const Str& n, rbusValue_t v, rbusSetOptions_t* o) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { e = rbus_set(h, n.c_str(), v, o); }); return e; }
rbusError_t c_seti(Comp& c, const Str& n, int i) { rbusValue_t v = vint(i); rbusError_t e = c_set(c, n, v); rbusValue_Release(v); return e; }
rbusError_t c_add(Comp& c, const Str& t, const char* a, uint32_t* inst) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { e = rbusTable_addRow(h, t.c_str(), a, inst); }); return e; }
rbusError_t c_rem(Comp& c, const Str& r) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { e = rbusTable_removeRow(h, r.c_str()); }); return e; }
Str c_rows(Comp& c, const Str& t) { Str r; rbusHandle_t h = c.h; call(c.proc, [&] { rbusRowName_t* rows = nullptr; rbusError_t e = rbusTable_getRowNames(h, t.c_str(), &rows); if (e) { r = en(e); return; } r = "ok:"; for (auto* p = rows; p; p = p->next) r += fmt("%s(%u,%s);", p->name ? p->name : "(null)", p->instNum, p->alias ? p->alias : "-"); rbusTable_freeRowNames(h, rows); }); return r; }
Str c_info(Comp& c, const Str& n, int depth) { Str r; rbusHandle_t h = c.h; call(c.proc, [&] { rbusElementInfo_t* rows = nullptr; rbusError_t e = rbusElementInfo_get(h, n.c_str(), depth, &rows); if (e) { r = en(e); return; } r = "ok:"; for (auto* p = rows; p; p = p->next) r += fmt("%s(%d,%u,%s);", p->name ? p->name : "(null)", (int)p->type, p->access, p->component ? p->component : "-"); rbusElementInfo_free(h, rows); }); return r; }
Str c_who(Comp& c, const StrV& el) { Str r; rbusHandle_t h = c.h; call(c.proc, [&] { std::vector<const char*> p; for (auto& x : el) p.push_back(x.c_str()); int n = 0; char** nm = nullptr; rbusError_t e = rbus_discoverComponentName(h, (int)p.size(), p.data(), &n, &nm); if (e) { r = en(e); return; } r = "ok:"; for (int i = 0; i < n; i++) { r += Str(i ? "," : "") + S(nm[i]); free(nm[i]); } free(nm); }); return r; }
Str c_elems(Comp& c, const Str& nme, bool next) { Str r; rbusHandle_t h = c.h; call(c.proc, [&] { int n = 0; char** nm = nullptr; rbusError_t e = rbus_discoverComponentDataElements(h, nme.c_str(), next, &n, &nm); if (e) { r = en(e); return; } r = "ok:"; for (int i = 0; i < n; i++) { r += Str(i ? "," : "") + S(nm[i]); free(nm[i]); } if (nm) free(nm); }); return r; }
static void ev_common(int w, rbusHandle_t h, rbusEvent_t const* e, rbusEventSubscription_t* s) { ps->ev.push_back(fmt("%ld%s|%s|%d|", (long)(intptr_t)s->userData, w == 2 ? "b" : "", e->name ? e->name : "(null)", (int)e->type) + ostr(e->data)); if (ps->onev) ps->onev(h, e, s); }
void k_evh(rbusHandle_t h, rbusEvent_t const* e, rbusEventSubscription_t* s) { ev_common(1, h, e, s); }
void k_evh2(rbusHandle_t h, rbusEvent_t const* e, rbusEventSubscription_t* s) { ev_common(2, h, e, s); }
void k_ash(rbusHandle_t h, rbusEventSubscription_t* s, rbusError_t e) { ps->as.push_back(fmt("%ld|%s|%s", (long)(intptr_t)s->userData, s->eventName, en(e))); if (ps->onas) ps->onas(h, s->eventName); }
rbusError_t c_sub(Comp& c, const Str& n, long ud, int timeout) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { e = rbusEvent_Subscribe(h, n.c_str(), k_evh, (void*)(intptr_t)ud, timeout); }); return e; }
rbusError_t c_unsub(Comp& c, const Str& n) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { e = rbusEvent_Unsubscribe(h, n.c_str()); }); return e; }
static rbusEventSubscription_t mks(const SubX& s) { rbusEventSubscription_t x; memset(&x, 0, sizeof x); x.eventName = s.name.c_str(); x.filter = s.filter; x.interval = s.interval; x.duration = s.duration; x.handler = (void*)k_evh; x.userData = (void*)(intptr_t)s.ud; x.publishOnSubscribe = s.pos; return x; }
rbusError_t c_subx(Comp& c, const SubX& s, int timeout) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { rbusEventSubscription_t x = mks(s); e = rbusEvent_SubscribeEx(h, &x, 1, timeout); }); return e; }
rbusError_t c_unsubx(Comp& c, const SubX& s) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { rbusEventSubscription_t x = mks(s); e = rbusEvent_UnsubscribeEx(h, &x, 1); }); return e; }
rbusError_t c_subasync(Comp& c, const SubX& s, int timeout) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { rbusEventSubscription_t x = mks(s); e = rbusEvent_SubscribeExAsync(h, &x, 1, k_ash, timeout); }); return e; }
rbusError_t c_pub(Comp& c, const Str& n, const Str& field, rbusValue_t v, rbusEventType_t t) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { rbusObject_t o; rbusObject_Init(&o, nullptr); rbusObject_SetValue(o, field.c_str(), v); rbusEvent_t ev; memset(&ev, 0, sizeof ev); ev.name = n.c_str(); ev.type = t; ev.data = o; e = rbusEvent_Publish(h, &ev); rbusObject_Release(o); }); return e; }
rbusError_t c_pubi(Comp& c, const Str& n, int i) { rbusValue_t v = vint(i); rbusError_t e = c_pub(c, n, "k", v); rbusValue_Release(v); return e; }
Str c_inv(Comp& c, const Str& n, rbusObject_t in) { Str r; rbusHandle_t h = c.h; call(c.proc, [&] { rbusObject_t out = nullptr; rbusError_t e = rbusMethod_Invoke(h, n.c_str(), in, &out); r = Str(en(e)) + "|" + ostr(out); if (out) rbusObject_Release(out); }); return r; }
rbusFilter_t mkfilter(int op, rbusValue_t v) { rbusFilter_t f; rbusFilter_InitRelation(&f, (rbusFilter_RelationOperator_t)op, v); return f; }
rbusObject_t mkobj(const Str& name, const std::vector<std::pair<Str, Str>>& kv) { rbusObject_t o; rbusObject_Init(&o, name.empty() ? nullptr : name.c_str()); for (auto& x : kv) { rbusValue_t v = vstrv(x.second.c_str()); rbusObject_SetValue(o, x.first.c_str(), v); rbusValue_Release(v); } return o; }
