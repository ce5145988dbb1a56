#ifndef SCN_KIT_H
#define SCN_KIT_H
/* provider / consumer building blocks: handlers that record what they are asked and answer from a table; every process has its own PS */
#include "common.h"
struct PS {
  StrV log;                                     /* what handlers saw, in order */
  std::map<Str, rbusValue_t> v;                 /* values the get handler supplies */
  std::map<Str, int> geterr, seterr, adderr, remerr, suberr, meterr;
  std::map<Str, uint32_t> next;                 /* next instance number per table */
  uint32_t forced = 0;                          /* when set: the number the add handler gives */
  StrV ev;                                      /* events received, in order: "userData|name|type|content" */
  StrV as;                                      /* asynchronous answers received */
  int autopub = -1;                             /* value the subscribe handler stores in *autoPublish; -1: leave it */
  int logget = 1, logsub = 1;
  std::function<rbusError_t(rbusHandle_t, const char*, rbusProperty_t, rbusGetHandlerOptions_t*)> get;
  std::function<rbusError_t(rbusHandle_t, const char*, rbusProperty_t, rbusSetHandlerOptions_t*)> set;
  std::function<rbusError_t(rbusHandle_t, const char*, rbusObject_t, rbusObject_t, rbusMethodAsyncHandle_t)> met;
  std::function<void(rbusHandle_t, const rbusEvent_t*, rbusEventSubscription_t*)> onev;
  std::function<rbusError_t(rbusHandle_t, rbusEventSubAction_t, const char*, rbusFilter_t, int32_t, bool*)> sub;
  std::function<void(rbusHandle_t, const char*, rbusError_t, rbusObject_t)> onmet;
  std::function<void(rbusHandle_t, const char*)> row, onas; /* add / remove row handlers; asynchronous subscription answers */
  StrV take() { StrV r; r.swap(log); return r; }
  StrV takeev() { StrV r; r.swap(ev); return r; }
  StrV takeas() { StrV r; r.swap(as); return r; }
};
extern PS* ps;                                  /* this process's state (set by ps_init) */
PS* ps_init(int proc);
struct PC : Comp { PS* s = nullptr; };          /* component with state */
PC pc_new(const char* name, const char* procname = nullptr);
/* elements: "name:k letters"  k = p property, t table, e event, m method; letters g s a r e m = which handlers */
struct Elems { std::vector<Str> names; std::vector<rbusDataElement_t> e; Elems(const StrV& specs); };
rbusError_t k_reg(PC& c, const StrV& specs);
rbusError_t k_unreg(PC& c, const StrV& specs);
/* consumer operations: return "ERR" name or "ok:<content>" */
Str c_get(Comp& c, const Str& n);
Str c_getx(Comp& c, const StrV& n);             /* content: name=value,... in the order received */
rbusError_t c_set(Comp& c, const Str& n, rbusValue_t v, rbusSetOptions_t* o = nullptr);
rbusError_t c_seti(Comp& c, const Str& n, int i);
rbusError_t c_add(Comp& c, const Str& table, const char* alias, uint32_t* inst);
rbusError_t c_rem(Comp& c, const Str& row);
Str c_rows(Comp& c, const Str& table);          /* "ok:name(inst,alias);..." */
Str c_info(Comp& c, const Str& n, int depth);
Str c_who(Comp& c, const StrV& elems);          /* rbus_discoverComponentName */
Str c_elems(Comp& c, const Str& n, bool next);  /* rbus_discoverComponentDataElements */
rbusError_t c_sub(Comp& c, const Str& n, long ud, int timeout = 0);
rbusError_t c_unsub(Comp& c, const Str& n);
struct SubX { Str name; rbusFilter_t filter = nullptr; uint32_t interval = 0, duration = 0; long ud = 0; bool pos = false; };
rbusError_t c_subx(Comp& c, const SubX& s, int timeout = 0);
rbusError_t c_unsubx(Comp& c, const SubX& s);
rbusError_t c_subasync(Comp& c, const SubX& s, int timeout = 0);
rbusError_t c_pub(Comp& c, const Str& n, const Str& field, rbusValue_t v, rbusEventType_t t = RBUS_EVENT_GENERAL);
rbusError_t c_pubi(Comp& c, const Str& n, int i);
Str c_inv(Comp& c, const Str& n, rbusObject_t in);   /* "ERR|outparams" */
void k_evh(rbusHandle_t, rbusEvent_t const*, rbusEventSubscription_t*);
void k_evh2(rbusHandle_t, rbusEvent_t const*, rbusEventSubscription_t*);
void k_ash(rbusHandle_t, rbusEventSubscription_t*, rbusError_t);
rbusFilter_t mkfilter(int op, rbusValue_t v);
rbusObject_t mkobj(const Str& name, const std::vector<std::pair<Str, Str>>& kv);
#endif
