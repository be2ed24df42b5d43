#include "common.h"
using namespace ansak;
static bool is(const char* l, const char* k) { size_t i = 0; for (; k[i]; ++i) if (l[i] != k[i]) return false; return l[i] == 0; }
static bool turkic(const char* l) {
    return is(l, "az") || is(l, "aze") || is(l, "azj") || is(l, "azb") || is(l, "kk") || is(l, "kaz") || is(l, "tt") || is(l, "tat") || is(l, "tr") || is(l, "tur");
}
static void compare(const char* l, bool t) {
    char32_t c; sym_units(&c, 4, 1, "c"); size_t n = 1 + sym_param("more", 0);
    ucs4String s(n, c), plain = toLower(s), r = toLower(s, l);
    OBSERVE(r[0]);
    CHECK(plain.size() == n && r.size() == n, "lower-casing changes the number of characters");
    u32 e = t && c == 0x49 ? 0x131 : t && c == 0x130 ? 0x69 : (u32)plain[n - 1];
    if (t) sym_reach("Turkic"); else sym_reach("other language");
    CHECK(r[n - 1] == e && r[0] == e, t ? "wrong lower-case form for a Turkic language" : "a language that is not Turkic changes lower-casing");
}
extern "C" void p14() {      // any language string; the character is any 32-bit value
    Small<char> l(pick("langlen", (u32)sym_param("len", 3), (u32)sym_param("lenhi", 0)), "lang");
    compare(l.p, turkic(l.p));
}
// a listed code followed or preceded by anything
extern "C" void p14_near() {
    static const char* const k[] = {"az", "aze", "azj", "azb", "kk", "kaz", "tt", "tat", "tr", "tur"};
    const char* code = k[pick("code", 0, 9)]; size_t n = 0; while (code[n]) ++n;
    size_t before = sym_param("before", 0), after = sym_param("after", 0);
    Str<char> l(before + n + after); if (before) sym_units(l.p, 1, before, "before"); if (after) sym_units(l.p + before + n, 1, after, "after");
    for (size_t i = 0; i < n; ++i) l.p[before + i] = code[i];
    compare(l.p, turkic(l.p));
}
extern "C" void p14_null() { sym_reach("null language"); compare(nullptr, false); }
// the encodings agree on the language
extern "C" void p14_enc() {
    Small<char> l(pick("langlen", 0, 3), "lang"); u32 c; sym_units(&c, 4, 1, "c"); sym_assume((c == 0x49) | (c == 0x130) | (c == 0x69) | (c == 0x131) | (c == 0x54));
    Units<char> o8(4); put(o8, c); Units<char16_t> o16(2); put(o16, c); bool t = turkic(l.p);
    u32 e = c == 0x49 ? (t ? 0x131 : 0x69) : c == 0x130 ? 0x69 : c == 0x54 ? 0x74 : c;
    Units<char> e8(4); put(e8, e);
    utf8String r8 = toLower(utf8String(o8.v, o8.n), l.p); utf16String r16 = toLower(utf16String(o16.v, o16.n), l.p); ucs4String r32 = toLower(ucs4String(1, c), l.p);
    observe(r8); sym_reach("encodings");
    CHECK(same(r8, e8.v, e8.n), "language handled differently in UTF-8"); CHECK(r16.size() == 1 && r16[0] == e, "language handled differently in UTF-16"); CHECK(r32.size() == 1 && r32[0] == e, "language handled differently in UCS-4");
}
