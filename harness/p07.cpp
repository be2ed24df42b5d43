#include "common.h"
using namespace ansak;
// every enumerator, and everything else an int can hold
static int pickRange() {
    u32 k = pick("range", (u32)sym_param("r0", 0), (u32)sym_param("r1", 6));
    if (k < 6) return (int)k;
    u32 v; sym_units(&v, 4, 1, "otherRange"); sym_assume(v > 5); return (int)v;
}
static bool expect(const Chars& t, int range, bool leadFits) {
    if (range < 0 || range > kUnicode) return false;
    if (t.bad()) return false;
    bool ok = true; for (size_t i = 0; i < t.n; ++i) ok &= inRange(t.v[i], range);
    if (t.st == kCut) ok &= leadFits;
    return ok;
}
template <class C> static void verdict(bool r, bool e, const char* msg) { OBSERVE(r); if (e) sym_reach("valid"); else sym_reach("invalid"); CHECK(r == e, msg); }
extern "C" void p07_8() {
    if (size_t n = sym_param("hist", 0)) { Small<char> h(n, "earlier"); OBSERVE(isUtf8(h.p, RangeType(pick("earlierRange", 0, 6)))); }
    Input<char> s; int range = pickRange(); Chars t(s.n); decode8(s.p, s.n, t); reachStatus(t);
    bool e = expect(t, range, leadFits8(t.lead, range));
    verdict<char>(sym_param("ov", 0) ? isUtf8(s.str(), RangeType(range)) : isUtf8(s.p, RangeType(range)), e, "isUtf8 verdict is wrong");
}
extern "C" void p07_16() {
    if (size_t n = sym_param("hist", 0)) { Small<char16_t> h(n, "earlier"); OBSERVE(isUtf16(h.p, RangeType(pick("earlierRange", 0, 6)))); }
    Input<char16_t> s; int range = pickRange(); Chars t(s.n); decode16(s.p, s.n, t); reachStatus(t);
    bool e = expect(t, range, leadFits16(range));
    verdict<char16_t>(sym_param("ov", 0) ? isUtf16(s.str(), RangeType(range)) : isUtf16(s.p, RangeType(range)), e, "isUtf16 verdict is wrong");
}
extern "C" void p07_2() {
    if (size_t n = sym_param("hist", 0)) { Small<char16_t> h(n, "earlier"); OBSERVE(isUcs2(h.p, RangeType(pick("earlierRange", 0, 6)))); }
    Input<char16_t> s; int range = pickRange(); size_t n = s.cstrlen();
    bool e = range >= 0 && range <= kUnicode; if (e) for (size_t i = 0; i < n; ++i) e &= inRange(s[i], range);
    verdict<char16_t>(sym_param("ov", 0) ? isUcs2(s.str(), RangeType(range)) : isUcs2(s.p, RangeType(range)), e, "isUcs2 verdict is wrong");
}
extern "C" void p07_32() {
    if (size_t n = sym_param("hist", 0)) { Small<char32_t> h(n, "earlier"); OBSERVE(isUcs4(h.p, RangeType(pick("earlierRange", 0, 6)))); }
    Input<char32_t> s; int range = pickRange(); size_t n = s.cstrlen();
    bool e = range >= 0 && range <= kUnicode; if (e) for (size_t i = 0; i < n; ++i) e &= inRange(s[i], range);
    verdict<char32_t>(sym_param("ov", 0) ? isUcs4(s.str(), RangeType(range)) : isUcs4(s.p, RangeType(range)), e, "isUcs4 verdict is wrong");
}
extern "C" void p07_null() {
    int range = pickRange(); bool e = range >= 0 && range <= kUnicode;
    CHECK(isUtf8((const char*)nullptr, RangeType(range)) == e, "isUtf8 of a null pointer"); CHECK(isUtf16((const char16_t*)nullptr, RangeType(range)) == e, "isUtf16 of a null pointer");
    CHECK(isUcs2((const char16_t*)nullptr, RangeType(range)) == e, "isUcs2 of a null pointer"); CHECK(isUcs4((const char32_t*)nullptr, RangeType(range)) == e, "isUcs4 of a null pointer");
    if (e) sym_reach("null pointer");
}
