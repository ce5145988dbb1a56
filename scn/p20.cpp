/* P20: value, property and object model.  Pure data: every case of every enumeration runs against a reference model. */
#include "vals.h"
#include <math.h>
#include <limits.h>
#include <float.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
static size_t heap() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
typedef rbusProperty_t P; typedef rbusObject_t O;

SCN(p20_pairs) {
  auto r = rvs(); size_t n = r.size(); int part = mc_choose(8, "part");
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { if ((i + j) % 8 != (size_t)part) continue;
    mc_count(0, 1); V a = mk(r[i]), b = mk(r[j]); Str sa = vstr(a), sb = vstr(b);
    int c = rbusValue_Compare(a, b), d = rbusValue_Compare(b, a), w = refcmp(r[i], r[j]);
    if (w == 8) CHECK(c != 0 && d != 0, "compare(%s, %s) = %d, reverse %d: different kinds must not be equal", sa.c_str(), sb.c_str(), c, d);
    else if (w != 9) { CHECK(sgn(c) == w, "compare(%s, %s) = %d, expected sign %d", sa.c_str(), sb.c_str(), c, w); CHECK(sgn(d) == -w, "compare(%s, %s) = %d, expected sign %d", sb.c_str(), sa.c_str(), d, -w); }
    /* copy a into a value that held b */
    V e = mk(r[j]); rbusValue_Copy(e, a); CHECK(vstr(e) == sa, "copy of %s over %s gave %s", sa.c_str(), sb.c_str(), vstr(e).c_str()); CHECK(vstr(a) == sa, "copy changed its source");
    /* swap exchanges, pointer assignment shares */
    V x = a, y = b; rbusValue_Swap(&x, &y); CHECK(vstr(x) == sb && vstr(y) == sa, "swap of %s and %s gave %s and %s", sa.c_str(), sb.c_str(), vstr(x).c_str(), vstr(y).c_str());
    V q = e; rbusValue_Retain(q); rbusValue_SetPointer(&q, b); CHECK(q == b && vstr(q) == sb, "set pointer"); rbusValue_SetPointer(&q, q); CHECK(vstr(q) == sb, "set pointer to itself"); rbusValue_Release(q);
    /* overwrite in place with every kind */
    V z = mk(r[j]);
    switch (r[i].t) { case RBUS_STRING: rbusValue_SetString(z, r[i].s.c_str()); break; case RBUS_BYTES: rbusValue_SetBytes(z, (const uint8_t*)r[i].s.data(), (int)r[i].s.size()); break; case RBUS_INT64: rbusValue_SetInt64(z, (int64_t)r[i].i); break; case RBUS_DATETIME: rbusValue_SetTime(z, &r[i].dt); break; case RBUS_BOOLEAN: rbusValue_SetBoolean(z, (bool)r[i].i); break; case RBUS_DOUBLE: rbusValue_SetDouble(z, r[i].d); break; default: rbusValue_Copy(z, a); }
    CHECK(vstr(z) == sa, "storing %s over %s reads back %s", sa.c_str(), sb.c_str(), vstr(z).c_str()); rbusValue_Release(z);
    rbusValue_Releases(3, a, b, e); }
  mc_outcome("pairs part %d", part); }

/* typed Ex accessors accept exactly their own type */
SCN(p20_access) {
  auto r = rvs();
  for (auto& x : r) { V v = mk(x); rbusValueType_t t = rbusValue_GetType(v); CHECK(t == x.t, "type");
    bool b; char c; unsigned char u; int8_t i8; uint8_t u8; int16_t i16; uint16_t u16; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; float f; double d; rbusDateTime_t const* tm; char const* s; uint8_t const* by; int l; P pp; O oo;
    struct { rbusValueType_t t; rbusValueError_t e; } e[] = { {RBUS_BOOLEAN, rbusValue_GetBooleanEx(v, &b)}, {RBUS_CHAR, rbusValue_GetCharEx(v, &c)}, {RBUS_BYTE, rbusValue_GetByteEx(v, &u)}, {RBUS_INT8, rbusValue_GetInt8Ex(v, &i8)}, {RBUS_UINT8, rbusValue_GetUInt8Ex(v, &u8)}, {RBUS_INT16, rbusValue_GetInt16Ex(v, &i16)}, {RBUS_UINT16, rbusValue_GetUInt16Ex(v, &u16)}, {RBUS_INT32, rbusValue_GetInt32Ex(v, &i32)}, {RBUS_UINT32, rbusValue_GetUInt32Ex(v, &u32)}, {RBUS_INT64, rbusValue_GetInt64Ex(v, &i64)}, {RBUS_UINT64, rbusValue_GetUInt64Ex(v, &u64)}, {RBUS_SINGLE, rbusValue_GetSingleEx(v, &f)}, {RBUS_DOUBLE, rbusValue_GetDoubleEx(v, &d)}, {RBUS_DATETIME, rbusValue_GetTimeEx(v, &tm)}, {RBUS_PROPERTY, rbusValue_GetPropertyEx(v, &pp)}, {RBUS_OBJECT, rbusValue_GetObjectEx(v, &oo)} };
    for (auto& q : e) CHECK((q.e == RBUS_VALUE_ERROR_SUCCESS) == (q.t == x.t), "typed accessor for type %d on %s returned %d", q.t, vstr(v).c_str(), q.e);
    rbusValueError_t es = rbusValue_GetStringEx(v, &s, &l), eb = rbusValue_GetBytesEx(v, &by, &l); bool sb = x.t == RBUS_STRING || x.t == RBUS_BYTES;
    CHECK((es == 0) == sb && (eb == 0) == sb, "string accessor on %s", vstr(v).c_str());
    /* the same through a property and through an object */
    P p; rbusProperty_Init(&p, "n", v); O o; rbusObject_Init(&o, "o"); rbusObject_SetProperty(o, p);
    CHECK(vstr(rbusProperty_GetValue(p)) == vstr(v) && rbusObject_GetValue(o, "n") == v, "value through property/object");
    rbusValueError_t ei = rbusObject_GetPropertyInt64(o, "n", &i64); CHECK((ei == 0) == (x.t == RBUS_INT64), "object int64 accessor on %s: %d", vstr(v).c_str(), ei); if (!ei) CHECK((__int128)i64 == x.i, "object int64 value");
    rbusValueError_t eu = rbusObject_GetPropertyUInt8(o, "n", &u8); CHECK((eu == 0) == (x.t == RBUS_UINT8), "object uint8 accessor"); if (!eu) CHECK((__int128)u8 == x.i, "object uint8 value");
    ei = rbusObject_GetPropertyInt64(o, "absent", &i64); CHECK(ei != 0, "absent property found");
    rbusObject_Release(o); rbusProperty_Release(p); rbusValue_Release(v); mc_count(0, 1); }
  mc_outcome("%zu", r.size()); }

/* text */
SCN(p20_text) {
  auto r = rvs();
  { V w = vint(3); char* s = rbusValue_ToString(w, nullptr, 0); free(s); rbusValue_Release(w); }
  for (auto& x : r) { V v = mk(x); Str sv = vstr(v); char* s = rbusValue_ToString(v, nullptr, 0); CHECK(s, "no text for %s", sv.c_str()); Str text = s; free(s); mc_count(0, 1);
    Str want; bool rt = false;
    if (x.cls == 0 && x.t != RBUS_CHAR && x.t != RBUS_BYTE) { rt = true; if (x.t == RBUS_BOOLEAN) want = x.i ? "true" : "false"; else if (x.i < 0) want = fmt("%lld", (long long)x.i); else want = fmt("%llu", (unsigned long long)x.i); }
    if (x.t == RBUS_STRING) { rt = true; want = x.s; }
    if (x.t == RBUS_BYTES) { for (unsigned char c : x.s) want += fmt("%02X", c); }
    if (x.cls <= 3 && (rt || x.t == RBUS_BYTES)) CHECK(text == want, "text of %s is '%s', expected '%s'", sv.c_str(), text.c_str(), want.c_str());
    if (x.t == RBUS_DATETIME) { rt = true; want = fmt("%04d-%02d-%02dT%02d:%02d:%02d", x.dt.m_time.tm_year + 1900, x.dt.m_time.tm_mon + 1, x.dt.m_time.tm_mday, x.dt.m_time.tm_hour, x.dt.m_time.tm_min, x.dt.m_time.tm_sec); want += (x.dt.m_tz.m_tzhour || x.dt.m_tz.m_tzmin) ? fmt("%c%02d:%02d", x.dt.m_tz.m_isWest ? '-' : '+', x.dt.m_tz.m_tzhour, x.dt.m_tz.m_tzmin) : "Z"; CHECK(text == want, "text of a time is '%s', expected '%s'", text.c_str(), want.c_str()); }
    if (x.cls == 1) { double d = atof(text.c_str()); double err = fabs(d - x.d); CHECK(err <= (x.t == RBUS_SINGLE ? 1e-6 : 1e-15) + fabs(x.d) * (x.t == RBUS_SINGLE ? 1e-6 : 1e-14), "text of %g is '%s'", x.d, text.c_str()); }
    if (rt) { V b; rbusValue_Init(&b); CHECK(rbusValue_SetFromString(b, x.t, text.c_str()), "'%s' not accepted back for %s", text.c_str(), sv.c_str());
      if (x.cls == 4) { CHECK(rbusValue_GetType(b) == RBUS_DATETIME, "type after parse"); auto t = rbusValue_GetTime(b); const auto &m = t->m_time; const auto &o = x.dt.m_time; CHECK(m.tm_year == o.tm_year && m.tm_mon == o.tm_mon && m.tm_mday == o.tm_mday && m.tm_hour == o.tm_hour && m.tm_min == o.tm_min && m.tm_sec == o.tm_sec && t->m_tz.m_tzhour == x.dt.m_tz.m_tzhour && t->m_tz.m_tzmin == x.dt.m_tz.m_tzmin && t->m_tz.m_isWest == x.dt.m_tz.m_isWest, "time '%s' parsed as %s", text.c_str(), vstr(b).c_str()); CHECK(m.tm_isdst == 0, "time '%s' parsed with dst %d", text.c_str(), m.tm_isdst); CHECK(rbusValue_Compare(v, b) == 0, "parsed time differs"); }
      else CHECK(vstr(b) == sv, "'%s' parsed back as %s, expected %s", text.c_str(), vstr(b).c_str(), sv.c_str());
      rbusValue_Release(b); }
    /* caller's buffer of every size */
    for (size_t k = 1; k <= text.size() + 2 && k < 40; k++) { char* buf = (char*)malloc(k); memset(buf, 'Z', k); char* q = rbusValue_ToString(v, buf, k); CHECK(q == buf, "ToString into a buffer returned another pointer"); size_t l = strnlen(buf, k); if (x.cls != 2 || k > text.size()) CHECK(l < k, "text of %s in a buffer of %zu bytes is not terminated", sv.c_str(), k); /* existing tests pin that a string that does not fit is cut without terminator */ CHECK(l <= text.size() && memcmp(buf, text.data(), l) == 0, "text of %s in a buffer of %zu bytes is '%s'", sv.c_str(), k, buf); if (k > text.size()) CHECK(l == text.size(), "text of %s truncated in a buffer of %zu bytes: '%s'", sv.c_str(), k, buf); free(buf); }
    rbusValue_Release(v); }
  /* strings that must be accepted with the exact number, or rejected */
  static const char* in[] = {"", " ", "0", "-0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "1x", "x1", "1.5", "true", "TRUE", "false", "2", "abc"};
  struct { rbusValueType_t t; __int128 lo, hi; } ty[] = {{RBUS_INT8, -128, 127}, {RBUS_UINT8, 0, 255}, {RBUS_INT16, -32768, 32767}, {RBUS_UINT16, 0, 65535}, {RBUS_INT32, INT_MIN, INT_MAX}, {RBUS_UINT32, 0, UINT_MAX}, {RBUS_INT64, LLONG_MIN, LLONG_MAX}, {RBUS_UINT64, 0, (__int128)ULLONG_MAX}};
  for (const char* s : in) {
    bool num = *s && strspn(s, "-0123456789") == strlen(s); __int128 val = 0; if (num) { const char* q = s; bool ng = *q == '-'; if (ng) q++; for (; *q; q++) val = val * 10 + (*q - '0'); if (ng) val = -val; }
    for (auto& t : ty) { V b = vstrv("keep"); bool ok = rbusValue_SetFromString(b, t.t, s); bool wantok = num && val >= t.lo && val <= t.hi; mc_count(0, 1);
      CHECK(ok == wantok, "parsing '%s' as type 0x%x: %s", s, t.t, ok ? "accepted" : "rejected");
      if (ok) { RV x; x.cls = 0; x.t = t.t; x.i = val; V e = mk(x); CHECK(vstr(b) == vstr(e), "'%s' parsed as %s", s, vstr(b).c_str()); rbusValue_Release(e); } else CHECK(vstr(b) == "str:4:4:keep", "rejected text changed the value to %s", vstr(b).c_str());
      rbusValue_Release(b); }
    V b = vstrv("keep"); bool ok = rbusValue_SetFromString(b, RBUS_BOOLEAN, s); bool wt = !strcasecmp(s, "true") || !strcmp(s, "1"), wf = !strcasecmp(s, "false") || !strcmp(s, "0");
    CHECK(ok == (wt || wf), "parsing '%s' as boolean: %d", s, ok); if (ok) CHECK(rbusValue_GetBoolean(b) == wt, "'%s' parsed as wrong boolean", s); rbusValue_Release(b); }
  mc_outcome("text"); }

/* property lists against a list model; every sequence of operations of the given length */
typedef std::vector<std::pair<Str, int>> L;
static Str lstr(const L& l) { Str s; for (auto& x : l) s += fmt("%s%s=i32:%d", s.empty() ? "" : ";", x.first.c_str(), x.second); return s; }
static P mkp(const char* n, int v) { V x = vint(v); P p; rbusProperty_Init(&p, n, x); rbusValue_Release(x); return p; }
static void chk(P p, const L& m, const Str& hist) { Str a = pstr(p), b = lstr(m); CHECK(a == b, "after %s: list is [%s], expected [%s]", hist.c_str(), a.c_str(), b.c_str()); CHECK(rbusProperty_Count(p) == m.size(), "after %s: count %u, expected %zu", hist.c_str(), rbusProperty_Count(p), m.size()); }
SCN(p20_lists) {
  int depth = (int)mc_param("depth", 4), part = mc_choose(8, "part"); uint64_t k = 0; static const char* nm[] = {"a", "b", "c"};
  { P w = mkp("w", 1); pstr(w); rbusProperty_Release(w); }
  for (Odo od; od.more(); k++) {
    std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(od.choose(10)); if ((int)(k % 8) != part) continue; mc_count(0, 1);
    size_t h0 = heap(); { P p = mkp("h", 0); L m = {{"h", 0}}; Str hist; hist.reserve(200); int seq = 1; P held = nullptr; L heldm;
      for (int o : ops) { hist += fmt("%d ", o);
        switch (o) {
        case 0: { P q = mkp(nm[seq % 3], seq); rbusProperty_Append(p, q); rbusProperty_Release(q); m.push_back({nm[seq % 3], seq}); seq++; break; }
        case 1: { P q = rbusProperty_AppendInt32(p, "i", seq); CHECK(q, "append"); m.push_back({"i", seq}); seq++; break; }
        case 2: { P n = rbusProperty_GetNext(p); if (n) { rbusProperty_SetNext(p, rbusProperty_GetNext(n)); m.erase(m.begin() + 1); } break; }   /* drop the second */
        case 3: rbusProperty_SetNext(p, rbusProperty_GetNext(p)); break;
        case 4: { V v = vint(seq * 10); rbusProperty_SetValue(p, v); rbusValue_Release(v); m[0].second = seq * 10; seq++; break; }
        case 5: rbusProperty_SetValue(p, rbusProperty_GetValue(p)); break;
        case 6: { P n = rbusProperty_GetNext(p); P l = n ? n : p; rbusProperty_SetName(l, nm[seq % 3]); m[n ? 1 : 0].first = nm[seq % 3]; break; }
        case 7: { P n = rbusProperty_GetNext(p); if (n) { rbusProperty_Retain(n); rbusProperty_Release(p); p = n; m.erase(m.begin()); } break; }   /* pop the front */
        case 8: if (!held) { held = rbusProperty_GetNext(p); if (held) { rbusProperty_Retain(held); rbusProperty_SetNext(p, nullptr); heldm.assign(m.begin() + 1, m.end()); m.resize(1); } } else { rbusProperty_Append(p, held); for (auto& x : heldm) m.push_back(x); rbusProperty_Release(held); held = nullptr; } break;
        case 9: { P q = mkp(nm[seq % 3], seq); rbusProperty_SetNext(q, p); rbusProperty_Release(p); p = q; m.insert(m.begin(), {nm[seq % 3], seq}); seq++; break; } }   /* push the front */
        chk(p, m, hist); if (held) chk(held, heldm, hist + "(held)"); }
      if (held) rbusProperty_Release(held); rbusProperty_Release(p); }
    if (h0 && heap() != h0) { Str h; for (int o : ops) h += fmt("%d ", o); mc_fail("after %sand releasing everything, %zd bytes remain allocated", h.c_str(), (ssize_t)(heap() - h0)); } }
  mc_outcome("part %d of %llu", part, (unsigned long long)k); }
/* objects */
SCN(p20_objects) {
  int depth = (int)mc_param("depth", 4), part = mc_choose(8, "part"); uint64_t k = 0; static const char* nm[] = {"a", "b", "c"};
  { O o; rbusObject_Init(&o, "w"); ostr(o); rbusObject_Release(o); }
  for (Odo od; od.more(); k++) {
    std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(od.choose(12)); if ((int)(k % 8) != part) continue; mc_count(0, 1);
    size_t h0 = heap(); { O o; rbusObject_Init(&o, "obj"); O snap; rbusObject_Init(&snap, "obj"); L m; Str hist; hist.reserve(200); int seq = 1; std::vector<Str> kids; 
      for (int op : ops) { hist += fmt("%d ", op);
        auto setm = [&](const char* n, int v) { for (auto& x : m) if (x.first == n) { x.second = v; return; } m.push_back({n, v}); };
        switch (op) {
        case 0: case 1: case 2: { V v = vint(seq); rbusObject_SetValue(o, nm[op], v); rbusValue_Release(v); setm(nm[op], seq); seq++; break; }
        case 3: case 4: case 5: { P p = mkp(nm[op - 3], seq); rbusObject_SetProperty(o, p); rbusProperty_Release(p); setm(nm[op - 3], seq); seq++; break; }
        case 6: rbusObject_SetPropertyInt32(o, "b", seq); setm("b", seq); seq++; break;
        case 7: { P p = rbusObject_GetProperties(o); if (p) { rbusObject_SetProperties(o, rbusProperty_GetNext(p)); m.erase(m.begin()); } break; }
        case 8: { O c; Str cn = fmt("k%d", seq); rbusObject_Init(&c, cn.c_str()); rbusObject_SetPropertyInt32(c, "x", seq); rbusObject_SetParent(c, o); O f = rbusObject_GetChildren(o); if (f) rbusObject_SetNext(c, f); rbusObject_SetChildren(o, c); rbusObject_Release(c); kids.insert(kids.begin(), fmt("%s(0)[x=i32:%d]", cn.c_str(), seq)); seq++; break; }
        case 9: { O f = rbusObject_GetChildren(o); if (f) { rbusObject_SetChildren(o, rbusObject_GetNext(f)); kids.erase(kids.begin()); } break; }
        case 10: { V v; rbusValue_Init(&v); rbusValue_SetObject(v, o); V w; rbusValue_Init(&w); rbusValue_SetObject(w, rbusValue_GetObject(v)); rbusValue_Release(v); CHECK(rbusValue_GetObject(w) == o, "object value"); rbusValue_Release(w); break; }
        case 11: rbusObject_Retain(o); rbusObject_Release(o); break; }
        Str a = pstr(rbusObject_GetProperties(o)), b = lstr(m); CHECK(a == b, "after %s: object has [%s], expected [%s]", hist.c_str(), a.c_str(), b.c_str());
        for (auto& n : nm) { V v = rbusObject_GetValue(o, n); int found = -1; for (auto& x : m) if (x.first == n) found = x.second; if (found < 0) CHECK(!v, "after %s: %s present", hist.c_str(), n); else CHECK(v && rbusValue_GetInt32(v) == found, "after %s: wrong value of %s", hist.c_str(), n); }
        StrV ks; for (O c = rbusObject_GetChildren(o); c; c = rbusObject_GetNext(c)) { CHECK(rbusObject_GetParent(c) == o, "parent"); ks.push_back(Str(rbusObject_GetName(c)) + "(0)[" + pstr(rbusObject_GetProperties(c)) + "]"); } CHECK(ks == kids, "after %s: children %s, expected %s", hist.c_str(), join(ks).c_str(), join(kids).c_str());
        /* compare with an equal object built separately, and with a different one */
        O e; rbusObject_Init(&e, "obj"); for (auto& x : m) rbusObject_SetPropertyInt32(e, x.first.c_str(), x.second); CHECK(rbusObject_Compare(o, e, false) == 0 && rbusObject_Compare(e, o, false) == 0, "after %s: equal objects compare different", hist.c_str());
        rbusObject_SetPropertyInt32(e, "extra", 1); CHECK(rbusObject_Compare(o, e, false) != 0 && rbusObject_Compare(e, o, false) != 0, "after %s: different objects compare equal", hist.c_str()); rbusObject_Release(e);
        if (!m.empty()) { O f; rbusObject_Init(&f, "obj"); for (auto& x : m) rbusObject_SetPropertyInt32(f, x.first.c_str(), x.second + (&x == &m.back())); CHECK(rbusObject_Compare(o, f, false) != 0, "after %s: objects with different values compare equal", hist.c_str()); rbusObject_Release(f); } }
      rbusObject_Release(o); rbusObject_Release(snap); }
    if (h0 && heap() != h0) { Str h; for (int x : ops) h += fmt("%d ", x); mc_fail("after %sand releasing everything, %zd bytes remain allocated", h.c_str(), (ssize_t)(heap() - h0)); } }
  mc_outcome("part %d of %llu", part, (unsigned long long)k); }
