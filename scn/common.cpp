#include "common.h"
#include <getopt.h>
#include <math.h>
static void* router_thread(void*) {
  static char a0[]="rtrouted", a1[]="-f", a2[]="-l", a3[]="fatal"; static char* av[]={a0,a1,a2,a3,nullptr};
  optind = 1; mc_rtrouted_main(4, av); return nullptr; }
int scn_start_router() { int p = mc_proc_new("router"); mc_spawn(p, router_thread, nullptr); mc_settle(); return p; }
static void* smgr_thread(void*) { static char a0[]="smgr"; static char* av[]={a0,nullptr}; mc_session_manager_main(1, av); return nullptr; }
int scn_start_session_manager() { int p = mc_proc_new("smgr"); mc_spawn(p, smgr_thread, nullptr); mc_settle(); return p; }
Str fmt(const char* f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
Str join(const StrV& v, const char* sep) { Str r; for (size_t i = 0; i < v.size(); i++) { if (i) r += sep; r += v[i]; } return r; }

static Str hex(const void* p, size_t n) { static const char* d = "0123456789abcdef"; Str r; const unsigned char* b = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { r += d[b[i] >> 4]; r += d[b[i] & 15]; } return r; }
Str vstr(rbusValue_t v) {
  if (!v) return "(null)";
  switch (rbusValue_GetType(v)) {
    case RBUS_BOOLEAN: return fmt("bool:%d", (int)rbusValue_GetBoolean(v));
    case RBUS_CHAR: return fmt("char:%d", (int)(unsigned char)rbusValue_GetChar(v));
    case RBUS_BYTE: return fmt("byte:%d", (int)rbusValue_GetByte(v));
    case RBUS_INT8: return fmt("i8:%d", (int)rbusValue_GetInt8(v));
    case RBUS_UINT8: return fmt("u8:%u", (unsigned)rbusValue_GetUInt8(v));
    case RBUS_INT16: return fmt("i16:%d", (int)rbusValue_GetInt16(v));
    case RBUS_UINT16: return fmt("u16:%u", (unsigned)rbusValue_GetUInt16(v));
    case RBUS_INT32: return fmt("i32:%d", rbusValue_GetInt32(v));
    case RBUS_UINT32: return fmt("u32:%u", rbusValue_GetUInt32(v));
    case RBUS_INT64: return fmt("i64:%lld", (long long)rbusValue_GetInt64(v));
    case RBUS_UINT64: return fmt("u64:%llu", (unsigned long long)rbusValue_GetUInt64(v));
    case RBUS_SINGLE: { float f = rbusValue_GetSingle(v); return "f32:" + hex(&f, 4); }
    case RBUS_DOUBLE: { double f = rbusValue_GetDouble(v); return "f64:" + hex(&f, 8); }
    case RBUS_DATETIME: { rbusDateTime_t const* t = rbusValue_GetTime(v); if (!t) return "time:null";
      return fmt("time:%d/%d/%d %d:%d:%d wd%d yd%d dst%d tz%s%d:%d", t->m_time.tm_year, t->m_time.tm_mon, t->m_time.tm_mday, t->m_time.tm_hour, t->m_time.tm_min, t->m_time.tm_sec, t->m_time.tm_wday, t->m_time.tm_yday, t->m_time.tm_isdst, t->m_tz.m_isWest ? "-" : "+", t->m_tz.m_tzhour, t->m_tz.m_tzmin); }
    case RBUS_STRING: { int n = -1; char const* s = rbusValue_GetString(v, &n); if (!s) return "str:null"; size_t l = strlen(s); Str body = l <= 60 ? Str(s) : Str(s, 20) + "..." + fmt("h%zx", std::hash<Str>()(s)); return fmt("str:%zu:%d:", l, n) + body; }
    case RBUS_BYTES: { int n = -1; uint8_t const* b = rbusValue_GetBytes(v, &n); if (n < 0) return "bytes:?"; if (n == 0) return "bytes:0"; if (n <= 40) return fmt("bytes:%d:", n) + hex(b, (size_t)n); return fmt("bytes:%d:h%zx", n, std::hash<Str>()(Str((const char*)b, (size_t)n))); }
    case RBUS_PROPERTY: return "prop{" + pstr(rbusValue_GetProperty(v)) + "}";
    case RBUS_OBJECT: return "obj{" + ostr(rbusValue_GetObject(v)) + "}";
    case RBUS_NONE: return "none";
    default: return fmt("type%d?", (int)rbusValue_GetType(v)); } }
Str pstr(rbusProperty_t p, bool list) { Str r; int n = 0; while (p) { if (n) r += ";"; char const* nm = rbusProperty_GetName(p); r += (nm ? Str(nm) : Str("(null)")) + "=" + vstr(rbusProperty_GetValue(p)); p = list ? rbusProperty_GetNext(p) : nullptr; if (++n > 600) { r += "..LOOP"; break; } } return r; }
Str ostr(rbusObject_t o) { Str r; int n = 0; while (o) { if (n) r += "|"; char const* nm = rbusObject_GetName(o); r += (nm ? Str(nm) : Str("(null)")) + "(" + fmt("%d", (int)rbusObject_GetType(o)) + ")[" + pstr(rbusObject_GetProperties(o)) + "]"; if (rbusObject_GetChildren(o)) r += "<" + ostr(rbusObject_GetChildren(o)) + ">"; o = rbusObject_GetNext(o); if (++n > 100) { r += "..LOOP"; break; } } return r; }
rbusValue_t vint(int i) { rbusValue_t v; rbusValue_Init(&v); rbusValue_SetInt32(v, i); return v; }
rbusValue_t vstrv(const char* s) { rbusValue_t v; rbusValue_Init(&v); rbusValue_SetString(v, s); return v; }

static const long long I64S[] = {0,1,-1,127,-128,255,256,32767,-32768,65535,2147483647LL,-2147483648LL,4294967295LL,9007199254740993LL,-9007199254740993LL,9223372036854775807LL,(-9223372036854775807LL-1)};
struct VS { rbusValueType_t t; int k; };
static const std::vector<VS>& specs() {
  static std::vector<VS> v; if (!v.empty()) return v;
  auto add = [&](rbusValueType_t t, int n) { for (int i = 0; i < n; i++) v.push_back({t, i}); };
  add(RBUS_BOOLEAN, 2); add(RBUS_CHAR, 4); add(RBUS_BYTE, 4); add(RBUS_INT8, 5); add(RBUS_UINT8, 4); add(RBUS_INT16, 5); add(RBUS_UINT16, 4); add(RBUS_INT32, 6); add(RBUS_UINT32, 5);
  add(RBUS_INT64, 7); add(RBUS_UINT64, 6); add(RBUS_SINGLE, 6); add(RBUS_DOUBLE, 7); add(RBUS_DATETIME, 4); add(RBUS_STRING, 7); add(RBUS_BYTES, 7);
  return v; }
int nvals() { return (int)specs().size(); }
rbusValue_t mkval(int i) {
  VS s = specs()[(size_t)i]; rbusValue_t v; rbusValue_Init(&v); int k = s.k;
  switch (s.t) {
    case RBUS_BOOLEAN: rbusValue_SetBoolean(v, k); break;
    case RBUS_CHAR: { char a[] = {0, 'a', 127, (char)-128}; rbusValue_SetChar(v, a[k]); break; }
    case RBUS_BYTE: { unsigned char a[] = {0, 1, 128, 255}; rbusValue_SetByte(v, a[k]); break; }
    case RBUS_INT8: { int8_t a[] = {0, 1, -1, 127, -128}; rbusValue_SetInt8(v, a[k]); break; }
    case RBUS_UINT8: { uint8_t a[] = {0, 1, 128, 255}; rbusValue_SetUInt8(v, a[k]); break; }
    case RBUS_INT16: { int16_t a[] = {0, -1, 255, 32767, -32768}; rbusValue_SetInt16(v, a[k]); break; }
    case RBUS_UINT16: { uint16_t a[] = {0, 255, 32768, 65535}; rbusValue_SetUInt16(v, a[k]); break; }
    case RBUS_INT32: { int32_t a[] = {0, 1, -1, 70000, INT32_MAX, INT32_MIN}; rbusValue_SetInt32(v, a[k]); break; }
    case RBUS_UINT32: { uint32_t a[] = {0, 1, 65536, 0x80000000u, UINT32_MAX}; rbusValue_SetUInt32(v, a[k]); break; }
    case RBUS_INT64: { int64_t a[] = {0, -1, 4294967296LL, 9007199254740993LL, -9007199254740993LL, INT64_MAX, INT64_MIN}; rbusValue_SetInt64(v, a[k]); break; }
    case RBUS_UINT64: { uint64_t a[] = {0, 1, 4294967296ULL, 9007199254740993ULL, 0x8000000000000000ULL, UINT64_MAX}; rbusValue_SetUInt64(v, a[k]); break; }
    case RBUS_SINGLE: { float a[] = {0.0f, -1.5f, 3.4028234e38f, 1.17549435e-38f, 16777217.0f, -0.1f}; rbusValue_SetSingle(v, a[k]); break; }
    case RBUS_DOUBLE: { double a[] = {0.0, -1.5, 1.7976931348623157e308, 2.2250738585072014e-308, 0.1, -1e-17, 123456789.123456789}; rbusValue_SetDouble(v, a[k]); break; }
    case RBUS_DATETIME: { rbusDateTime_t t; memset(&t, 0, sizeof t); if (k == 1) { t.m_time.tm_year = 124; t.m_time.tm_mon = 11; t.m_time.tm_mday = 31; t.m_time.tm_hour = 23; t.m_time.tm_min = 59; t.m_time.tm_sec = 58; t.m_tz.m_tzhour = 5; t.m_tz.m_tzmin = 30; t.m_tz.m_isWest = false; }
      if (k == 2) { t.m_time.tm_year = 70; t.m_time.tm_mday = 1; t.m_tz.m_tzhour = 8; t.m_tz.m_isWest = true; t.m_time.tm_isdst = 1; t.m_time.tm_wday = 4; }
      if (k == 3) { t.m_time.tm_year = 124; t.m_time.tm_mon = 11; t.m_time.tm_mday = 31; t.m_time.tm_hour = 23; t.m_time.tm_min = 59; t.m_time.tm_sec = 59; t.m_tz.m_tzhour = 5; t.m_tz.m_tzmin = 30; t.m_time.tm_yday = 365; }
      rbusValue_SetTime(v, &t); break; }
    case RBUS_STRING: { Str a; if (k == 1) a = "x"; if (k == 2) a = "hello, w\xc3\xb6rld \t\"quoted\" \\ %s %n"; if (k == 3) a = Str(255, 'q'); if (k == 4) a = Str(256, 'r'); if (k == 5) a = Str(9000, 's') + "end"; if (k == 6) a = Str(70000, 't') + "end"; rbusValue_SetString(v, a.c_str()); break; }
    case RBUS_BYTES: { std::vector<uint8_t> b; if (k == 0) b = {0}; if (k == 1) b = {0xff}; if (k == 2) b = {0, 1, 0, 2, 0}; if (k == 3) for (int j = 0; j < 256; j++) b.push_back((uint8_t)j); if (k == 4) b.assign(4096, 0xab); if (k == 5) { b.assign(70001, 7); b[70000] = 9; b[65536] = 3; } if (k == 6) b = {'a', 'b', 0, 'c'}; rbusValue_SetBytes(v, b.data(), (int)b.size()); break; }
    default: break; }
  return v; }
Str valname(int i) { rbusValue_t v = mkval(i); Str s = vstr(v); rbusValue_Release(v); return s; }
const char* ename(int e) { static const char* n[] = {"SUCCESS","BUS_ERROR","INVALID_INPUT","NOT_INITIALIZED","OUT_OF_RESOURCES","DESTINATION_NOT_FOUND","DESTINATION_NOT_REACHABLE","DESTINATION_RESPONSE_FAILURE","INVALID_RESPONSE_FROM_DESTINATION","INVALID_OPERATION","INVALID_EVENT","INVALID_HANDLE","SESSION_ALREADY_EXIST","COMPONENT_NAME_DUPLICATE","ELEMENT_NAME_DUPLICATE","ELEMENT_NAME_MISSING","COMPONENT_DOES_NOT_EXIST","ELEMENT_DOES_NOT_EXIST","ACCESS_NOT_ALLOWED","INVALID_CONTEXT","TIMEOUT","ASYNC_RESPONSE","INVALID_METHOD","NOSUBSCRIBERS","SUBSCRIPTION_ALREADY_EXIST","INVALID_NAMESPACE","DIRECT_CON_NOT_EXIST","NOT_WRITABLE","NOT_READABLE","INVALID_PARAMETER_TYPE","INVALID_PARAMETER_VALUE"};
  if (e >= 0 && e < (int)(sizeof n / sizeof *n)) return n[e]; static char b[4][32]; static int k; k = (k + 1) & 3; snprintf(b[k], 32, "error%d", e); return b[k]; }
void comp_open(Comp& c) { rbusHandle_t h = nullptr; Str nm = c.name; call(c.proc, [&] { rbusError_t e = rbus_open(&h, nm.c_str()); if (e) mc_fail("rbus_open(%s) failed: %s", nm.c_str(), en(e)); }); c.h = h; }
Comp comp_new(const char* name, const char* procname) { Comp c; c.name = name; c.h = nullptr; c.proc = mc_proc_new(procname ? procname : name); comp_open(c); return c; }
rbusError_t comp_close(Comp& c) { rbusError_t e = RBUS_ERROR_SUCCESS; rbusHandle_t h = c.h; call(c.proc, [&] { e = rbus_close(h); }); c.h = nullptr; return e; }
