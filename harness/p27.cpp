#include "common.h"
using namespace ansak;
static EncodingCheckPredicate pred() { u32 k = pick("pred", 1, 8); return k > 4 ? validIfNot(EncodingType(k - 4)) : validIf(EncodingType(k)); }
#define SAME(a, b, what) { auto x = (a); auto y = (b); observe(x); CHECK(sameAs(x, y), what ": the string and the pointer overload differ"); }
#define EQ(a, b, what) { auto x = (a); auto y = (b); OBSERVE(x); CHECK(x == y, what); }
#define OVER ": the string and the pointer overload differ"
static RangeType range() { int lo = (int)sym_param("r0", 0), hi = (int)sym_param("r1", 6); return RangeType(pick("range", lo, hi)); }
// F: the validator, R: the range of its encoding
#define VALIDATOR(F, R) \
    case 20: { RangeType r = range(); EQ(F(v, r), F(p, r), #F " with a range" OVER) break; } \
    case 21: { EQ(F(v), F(p), #F OVER) EQ(F(p), F(p, R), #F ": the default range") EQ(F(p), F(p, R, EncodingCheckPredicate()), #F ": the default predicate") EQ(F(v), F(v, R, EncodingCheckPredicate()), #F ": the defaults (string)") break; } \
    case 22: { EncodingCheckPredicate q = pred(); EQ(F(v, R, q), F(p, R, q), #F " with a predicate" OVER) break; } \
    case 23: { EncodingCheckPredicate q = pred(); EQ(F(p, q), F(p, R, q), #F ": the overload without a range") break; } \
    case 24: { EncodingCheckPredicate q = pred(); EQ(F(v, q), F(v, R, q), #F ": the string overload without a range") break; }
extern "C" void p27_8() {
    Input<char> s; utf8String v = s.str(); const char* p = s.p;
    switch (sym_param("op", 0)) {
    case 0: SAME(toUcs4(v), toUcs4(p), "toUcs4") break;
    case 1: SAME(toUtf16(v), toUtf16(p), "toUtf16") break;
    case 2: SAME(toUcs2(v), toUcs2(p), "toUcs2") break;
    case 3: EQ(unicodeLength(v), unicodeLength(p), "unicodeLength" OVER) EQ(unicodeLength(p), unicodeLength(p, 0), "unicodeLength: the default length") break;
    case 4: SAME(toWstring(v), toWstring(p), "toWstring") EQ(isWstring(v), isWstring(p), "isWstring" OVER) break;
    case 5: SAME(toLower(v), toLower(v, nullptr), "toLower: the default language") break;
    case 6: EQ(isUtf8(p, (unsigned)s.n), isUtf8(p, (unsigned)s.n, EncodingCheckPredicate()), "isUtf8 with a length: the default predicate") break;
    VALIDATOR(isUtf8, kUtf8)
    }
    sym_reach("compared"); if (s.cstrlen() < s.n) sym_reach("null inside");
}
extern "C" void p27_16() {
    Input<char16_t> s; utf16String v = s.str(); const char16_t* p = s.p;
    if (!sym_param("as2", 0)) switch (sym_param("op", 0)) {
    case 0: SAME(toUcs4(v), toUcs4(p), "toUcs4") break;
    case 1: SAME(toUtf8(v), toUtf8(p), "toUtf8") break;
    case 2: EQ(unicodeLength(v), unicodeLength(p), "unicodeLength" OVER) EQ(unicodeLength(p), unicodeLength(p, 0), "unicodeLength: the default length") break;
    case 3: SAME(toWstring(v), toWstring(p), "toWstring") EQ(isWstring(v), isWstring(p), "isWstring" OVER) break;
    case 4: SAME(toLower(v), toLower(v, nullptr), "toLower: the default language") break;
    VALIDATOR(isUtf16, kUtf16)
    } else switch (sym_param("op", 0)) { VALIDATOR(isUcs2, kUcs2) }
    sym_reach("compared"); if (s.cstrlen() < s.n) sym_reach("null inside");
}
extern "C" void p27_32() {
    Input<char32_t> s; ucs4String v = s.str(); const char32_t* p = s.p; const wchar_t* w = (const wchar_t*)p; std::wstring wv(w, s.n);
    switch (sym_param("op", 0)) {
    case 0: SAME(toUtf8(v), toUtf8(p), "toUtf8") break;
    case 1: SAME(toUtf16(v), toUtf16(p), "toUtf16") break;
    case 2: SAME(toUcs2(v), toUcs2(p), "toUcs2") break;
    case 3: EQ(unicodeLength(v), unicodeLength(p), "unicodeLength" OVER) EQ(unicodeLength(p), unicodeLength(p, 0), "unicodeLength: the default length") break;
    case 4: SAME(toWstring(v), toWstring(p), "toWstring") EQ(isWstring(v), isWstring(p), "isWstring" OVER) break;
    case 5: SAME(toLower(v), toLower(v, nullptr), "toLower: the default language") break;
    case 6: SAME(toUtf8(wv), toUtf8(w), "toUtf8 (wide)") SAME(toUtf16(wv), toUtf16(w), "toUtf16 (wide)") break;
    case 7: SAME(toUcs2(wv), toUcs2(w), "toUcs2 (wide)") SAME(toUcs4(wv), toUcs4(w), "toUcs4 (wide)") break;
    case 8: EQ(isUtf8(wv), isUtf8(w), "isUtf8 (wide)" OVER) EQ(isUtf16(wv), isUtf16(w), "isUtf16 (wide)" OVER) EQ(isUcs2(wv), isUcs2(w), "isUcs2 (wide)" OVER) EQ(isUcs4(wv), isUcs4(w), "isUcs4 (wide)" OVER) break;
    VALIDATOR(isUcs4, kUcs4)
    }
    sym_reach("compared"); if (s.cstrlen() < s.n) sym_reach("null inside");
}
