#include "common.h"
static rbusHandle_t h;
static rbusError_t getH(rbusHandle_t, rbusProperty_t p, rbusGetHandlerOptions_t*) { rbusValue_t v; rbusValue_Init(&v); rbusValue_SetInt32(v, 42); rbusProperty_SetValue(p, v); rbusValue_Release(v); return RBUS_ERROR_SUCCESS; }
OPFN void* sm_prov(void*) { rbusError_t e = rbus_open(&h, "prov"); CHECK(e==0,"open %d",e);
  rbusDataElement_t de = {(char*)"Device.A.B", RBUS_ELEMENT_TYPE_PROPERTY, {getH,0,0,0,0,0}}; e = rbus_regDataElements(h,1,&de); CHECK(e==0,"reg %d",e); return 0; }
OPFN void* sm_cons(void*) { rbusError_t e = rbus_open(&h, "cons"); CHECK(e==0,"open %d",e); return 0; }
OPFN void* sm_get(void*) { rbusValue_t v; rbusError_t e = rbus_get(h,"Device.A.B",&v); CHECK(e==0,"get %d",e); CHECK(rbusValue_GetInt32(v)==42,"val"); rbusValue_Release(v); return 0; }
OPFN void* sm_close(void*) { CHECK(rbus_close(h)==0,"close"); return 0; }
SCN(smoke) { scn_start_router(); int p = mc_proc_new("prov"), c = mc_proc_new("cons");
  mc_call(p, sm_prov, 0); mc_call(c, sm_cons, 0); mc_window(1); mc_call(c, sm_get, 0); mc_window(0); mc_call(c, sm_close, 0); mc_call(p, sm_close, 0); mc_outcome("done %lld", (long long)mc_now_us()/1000); }
