#include "common.h"
using namespace ansak;
static EncodingCheckPredicate pickPred() {
    // one or two conditions
    EncodingType t = EncodingType(pick("type", (u32)sym_param("t0", 1), (u32)sym_param("t1", 4))); bool pos = pick("sign", 0, 1);
    EncodingCheckPredicate p = pos ? validIf(t) : validIfNot(t);
    if (sym_param("two", 0)) { EncodingType u = EncodingType(pick("type2", 1, 4)); p = pick("sign2", 0, 1) ? p.andIf(u) : p.andIfNot(u); }
    return p;
}
static bool all(const Chars& t, const EncodingCheckPredicate& p) { bool ok = true; for (size_t i = 0; i < t.n; ++i) ok &= p(char32_t(t.v[i])); return ok; }
template <class C> struct V;
template <> struct V<char> { static bool is(const char* s, RangeType r) { return isUtf8(s, r); } static bool is(const char* s, RangeType r, const EncodingCheckPredicate& p) { return isUtf8(s, r, p); } };
template <> struct V<char32_t> { static bool is(const char32_t* s, RangeType r) { return isUcs4(s, r); } static bool is(const char32_t* s, RangeType r, const EncodingCheckPredicate& p) { return isUcs4(s, r, p); } };
template <> struct V<char16_t> { static bool is(const char16_t* s, RangeType r) { return sym_param("as2", 0) ? isUcs2(s, r) : isUtf16(s, r); } static bool is(const char16_t* s, RangeType r, const EncodingCheckPredicate& p) { return sym_param("as2", 0) ? isUcs2(s, r, p) : isUtf16(s, r, p); } };
template <class C> static void go() {
    Input<C> s; EncodingCheckPredicate p = pickPred(); RangeType r = RangeType(pick("range", (u32)sym_param("r0", 0), (u32)sym_param("r1", 6)));
    Chars t(s.n); decodeU(s.p, s.n, t);
    bool plain = V<C>::is(s.p, r), with = V<C>::is(s.p, r, p);
    OBSERVE(with);
    if (!plain) { sym_reach("invalid anyway"); CHECK(!with, "a predicate makes an invalid string valid"); return; }
    bool e = all(t, p);
    sym_reach("valid for the range");
    CHECK(with == e, "a validator does not apply the predicate to each whole character");
}
extern "C" void p10_8() { go<char>(); }
extern "C" void p10_16() { go<char16_t>(); }
extern "C" void p10_32() { go<char32_t>(); }
// the same text, the same verdict in every encoding
extern "C" void p10_same() {
    size_t n = sym_param("chars", 1); u32 v[8]; sym_units(v, 4, n, "chars"); bool bmp = true;
    for (size_t i = 0; i < n; ++i) { sym_assume((v[i] != 0) & (v[i] < 0x110000) & !isSur(v[i])); bmp &= v[i] < 0x10000; }
    EncodingCheckPredicate p = pickPred(); RangeType r = RangeType(pick("range", 0, 5));
    Units<char> a(n * 4); Units<char16_t> b(n * 2); for (size_t i = 0; i < n; ++i) { put(a, v[i]); put(b, v[i]); }
    ucs4String c((const char32_t*)v, n); utf8String s8(a.v, a.n); utf16String s16(b.v, b.n);
    bool r8 = isUtf8(s8, r, p), r16 = isUtf16(s16, r, p), r32 = isUcs4(c, r, p);
    OBSERVE(r8); sym_reach("same text");
    CHECK(r8 == r16 && r16 == r32, "the same text gets different verdicts in different encodings");
    if (bmp) CHECK(isUcs2(s16, r, p) == r32, "the same text gets a different verdict as UCS-2");
}
