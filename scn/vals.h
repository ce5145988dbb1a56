#ifndef SCN_VALS_H
#define SCN_VALS_H
#include "common.h"
typedef rbusValue_t V;
/* ---- values of a richer set, with their reference ---- */
struct RV { int cls; /*0 int 1 float 2 string 3 bytes 4 time*/ rbusValueType_t t; __int128 i; double d; Str s; long long inst; rbusDateTime_t dt; };
static std::vector<RV> rvs() {
  std::vector<RV> r;
  auto I = [&](rbusValueType_t t, std::vector<__int128> l) { for (auto x : l) { RV v; v.cls = 0; v.t = t; v.i = x; r.push_back(v); } };
  I(RBUS_BOOLEAN, {0, 1}); I(RBUS_CHAR, {0, 'A', 127, -1, -128}); I(RBUS_BYTE, {0, 1, 127, 128, 255}); I(RBUS_INT8, {0, 1, -1, 127, -128}); I(RBUS_UINT8, {0, 1, 127, 128, 255});
  I(RBUS_INT16, {0, -1, 256, 32767, -32768}); I(RBUS_UINT16, {0, 256, 32768, 65535}); I(RBUS_INT32, {0, -1, 65536, INT_MAX, INT_MIN}); I(RBUS_UINT32, {0, 1, (__int128)INT_MAX + 1, UINT_MAX});
  I(RBUS_INT64, {0, -1, 4294967296LL, (1LL << 53), (1LL << 53) + 1, -(1LL << 53) - 1, -(1LL << 53), LLONG_MAX, LLONG_MAX - 1, LLONG_MIN, LLONG_MIN + 1});
  I(RBUS_UINT64, {0, 1, (1LL << 53), (1LL << 53) + 1, LLONG_MAX, (__int128)LLONG_MAX + 1, (__int128)ULLONG_MAX - 1, (__int128)ULLONG_MAX});
  for (double d : {0.0, 1.0, -1.0, 1.5, -0.25, 16777216.0, 3.0e38, 1e-30}) { RV v; v.cls = 1; v.t = RBUS_SINGLE; v.d = (double)(float)d; r.push_back(v); }
  for (double d : {0.0, 1.0, -1.0, 1.5, 0.1, 1e300, -1e300, 2.2250738585072014e-308, 4294967296.0}) { RV v; v.cls = 1; v.t = RBUS_DOUBLE; v.d = d; r.push_back(v); }
  for (Str s : {Str(""), Str("a"), Str("A"), Str("ab"), Str("b"), Str("a b"), Str("\xc3\xa9"), Str("10"), Str("9"), Str(300, 'z'), Str(300, 'z') + "a"}) { RV v; v.cls = 2; v.t = RBUS_STRING; v.s = s; r.push_back(v); }
  for (Str s : {Str("\0", 1), Str("\0\0", 2), Str("a"), Str("ab"), Str("ab\0c", 4), Str("ab\0d", 4), Str("\xff"), Str("\x80"), Str(500, 'q'), Str(501, 'q')}) { RV v; v.cls = 3; v.t = RBUS_BYTES; v.s = s; r.push_back(v); }
  auto T = [&](int y, int mo, int d, int h, int mi, int s, bool west, int th, int tm) { RV v; v.cls = 4; v.t = RBUS_DATETIME; memset(&v.dt, 0, sizeof v.dt); v.dt.m_time.tm_year = y - 1900; v.dt.m_time.tm_mon = mo - 1; v.dt.m_time.tm_mday = d; v.dt.m_time.tm_hour = h; v.dt.m_time.tm_min = mi; v.dt.m_time.tm_sec = s; v.dt.m_tz.m_isWest = west; v.dt.m_tz.m_tzhour = th; v.dt.m_tz.m_tzmin = tm;
    struct tm t; memset(&t, 0, sizeof t); t.tm_year = y - 1900; t.tm_mon = mo - 1; t.tm_mday = d; t.tm_hour = h; t.tm_min = mi; t.tm_sec = s; v.inst = (long long)timegm(&t) + (west ? 1 : -1) * (th * 3600 + tm * 60); r.push_back(v); };
  T(2024, 1, 31, 23, 59, 59, false, 0, 0); T(2024, 2, 1, 0, 0, 0, false, 0, 0); T(2024, 2, 1, 0, 0, 1, false, 0, 0); T(2024, 2, 1, 0, 0, 0, true, 5, 0); T(2024, 2, 1, 0, 0, 0, false, 5, 30); T(2024, 1, 31, 18, 30, 0, false, 0, 0); T(2024, 1, 31, 19, 0, 0, true, 5, 0); T(1999, 12, 31, 12, 45, 7, false, 0, 45); T(2038, 1, 20, 1, 1, 1, true, 11, 59);
  return r; }
static V mk(const RV& r) { V v; rbusValue_Init(&v);
  switch (r.t) { case RBUS_BOOLEAN: rbusValue_SetBoolean(v, (bool)r.i); break; case RBUS_CHAR: rbusValue_SetChar(v, (char)r.i); break; case RBUS_BYTE: rbusValue_SetByte(v, (unsigned char)r.i); break; case RBUS_INT8: rbusValue_SetInt8(v, (int8_t)r.i); break; case RBUS_UINT8: rbusValue_SetUInt8(v, (uint8_t)r.i); break;
    case RBUS_INT16: rbusValue_SetInt16(v, (int16_t)r.i); break; case RBUS_UINT16: rbusValue_SetUInt16(v, (uint16_t)r.i); break; case RBUS_INT32: rbusValue_SetInt32(v, (int32_t)r.i); break; case RBUS_UINT32: rbusValue_SetUInt32(v, (uint32_t)r.i); break; case RBUS_INT64: rbusValue_SetInt64(v, (int64_t)r.i); break; case RBUS_UINT64: rbusValue_SetUInt64(v, (uint64_t)r.i); break;
    case RBUS_SINGLE: rbusValue_SetSingle(v, (float)r.d); break; case RBUS_DOUBLE: rbusValue_SetDouble(v, r.d); break; case RBUS_STRING: rbusValue_SetString(v, r.s.c_str()); break; case RBUS_BYTES: rbusValue_SetBytes(v, (const uint8_t*)r.s.data(), (int)r.s.size()); break; case RBUS_DATETIME: rbusValue_SetTime(v, &r.dt); break; default: break; }
  return v; }
static int sgn(long double x) { return x < 0 ? -1 : x > 0; }
/* 9 = unspecified */
static int refcmp(const RV& a, const RV& b) {
  if (a.cls <= 1 && b.cls <= 1) {
    if (a.cls == 0 && b.cls == 0) return a.i < b.i ? -1 : a.i > b.i;
    __int128 lim = (__int128)1 << 53; const RV& x = a.cls == 0 ? a : b; if ((a.cls == 0 || b.cls == 0) && (x.i > lim || x.i < -lim)) return 9;
    return sgn((a.cls ? (long double)a.d : (long double)a.i) - (b.cls ? (long double)b.d : (long double)b.i)); }
  if (a.cls != b.cls) return 8;                    /* must differ, either sign */
  if (a.cls == 4) return a.inst < b.inst ? -1 : a.inst > b.inst;
  size_t n = std::min(a.s.size(), b.s.size()); int c = memcmp(a.s.data(), b.s.data(), n); if (c) return c < 0 ? -1 : 1; return a.s.size() < b.s.size() ? -1 : a.s.size() > b.s.size(); }
#endif
