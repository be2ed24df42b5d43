#include "common.h"
using namespace ansak;
// lower-case form of one character, as P13 and P14 establish it
static u32 low1(u32 c, const char* lang) { ucs4String r = toLower(ucs4String(1, char32_t(c)), lang); CHECK(r.size() == 1, "lower-casing changes the number of characters"); return r[0]; }
static const char* pickLang() { return pick("lang", 0, (u32)sym_param("langs", 1)) ? "tr" : nullptr; }
template <class C> static void go() {
    Input<C> s; const char* lang = pickLang(); std::basic_string<C> in = s.str(), keep = in;
    { Small<C> h(sym_param("hist", 0), "earlier"); if (h.n) { auto x = toLower(h.str(), pick("earlierLang", 0, 1) ? "tr" : nullptr); OBSERVE(x.size()); } }
    std::basic_string<C> r = toLower(in, lang); observe(r);
    Chars t(s.n); decodeU(s.p, s.n, t); reachStatus(t);
    CHECK(sameAs(in, keep), "lower-casing modifies its input");
    if (t.bad()) { if (sizeof(C) != 4) CHECK(r.empty(), "lower-casing a malformed string gives a non-empty result"); return; }
    Units<C> o(t.n * 6);
    for (size_t i = 0; i < t.n; ++i) if (!put(o, low1(t.v[i], lang))) { CHECK(r.empty(), "lower-casing a string with a character outside the encoding"); return; }
    CHECK(r.size() == o.n, "lower-casing gives another number of units"); CHECK(same(r, o.v, o.n), "lower-casing a string is not lower-casing its characters");
}
extern "C" void p15_8() { go<char>(); }
extern "C" void p15_16() { go<char16_t>(); }
extern "C" void p15_32() { go<char32_t>(); }
// one text, three encodings
extern "C" void p15_same() {
    size_t n = sym_param("chars", 1); u32 v[8]; sym_units(v, 4, n, "chars");
    for (size_t i = 0; i < n; ++i) sym_assume((v[i] != 0) & (v[i] < 0x110000) & !isSur(v[i]));
    const char* lang = pickLang();
    Units<char> a(n * 4); Units<char16_t> b(n * 2); for (size_t i = 0; i < n; ++i) { put(a, v[i]); put(b, v[i]); }
    utf8String r8 = toLower(utf8String(a.v, a.n), lang); utf16String r16 = toLower(utf16String(b.v, b.n), lang); ucs4String r32 = toLower(ucs4String((char32_t*)v, n), lang);
    observe(r8); sym_reach("same text");
    Chars d8(a.n * 2), d16(b.n * 2); decode8(r8.data(), r8.size(), d8); decode16(r16.data(), r16.size(), d16);
    CHECK(d8.st == kOk && same(r32, (char32_t*)d8.v, d8.n), "UTF-8 and UCS-4 lower-casing differ"); CHECK(d16.st == kOk && same(r32, (char32_t*)d16.v, d16.n), "UTF-16 and UCS-4 lower-casing differ");
}
