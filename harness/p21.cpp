#include "common.h"
using namespace ansak;
static bool blank(u32 c) { return (c == 9) | (c == 10) | (c == 13) | (c == 0x20) | (c == 0xa0) | (c == 0x1680) | ((c >= 0x2000) & (c <= 0x200a)) | (c == 0x202f) | (c == 0x205f) | (c == 0x3000); }
struct Text { u32* v; size_t n; Text(size_t k) : v(new u32[k + 1]), n(k) {} ~Text() { delete[] v; } };
static bool character(u32 c) { return (c != 0) & (c < 0x110000) & !isSur(c); }
// blanks, any characters, repetitions of one that is not blank, blanks
static void make(Text& t, size_t pre, size_t n, size_t mid, size_t suf) {
    if (pre) { u32 b; sym_units(&b, 4, 1, "blank"); sym_assume(blank(b)); for (size_t i = 0; i < pre; ++i) t.v[i] = b; }
    if (n) sym_units(t.v + pre, 4, n, "chars"); for (size_t i = 0; i < n; ++i) sym_assume(character(t.v[pre + i]));
    if (mid) { n += mid; u32 b; sym_units(&b, 4, 1, "mid"); sym_assume(character(b) & !blank(b)); for (size_t i = 0; i < mid; ++i) t.v[pre + n - mid + i] = b; }
    if (suf) { u32 b; sym_units(&b, 4, 1, "blank2"); sym_assume(blank(b)); for (size_t i = 0; i < suf; ++i) t.v[pre + n + i] = b; }
}
template <class C> static void go() {
    size_t pre = pick("pre", (u32)sym_param("pre", 0), (u32)sym_param("prehi", 0)), n = pick("n", (u32)sym_param("chars", 2), (u32)sym_param("charshi", 0)), suf = pick("suf", (u32)sym_param("suf", 0), (u32)sym_param("sufhi", 0)), mid = pick("mid", (u32)sym_param("mid", 0), (u32)sym_param("midhi", 0));
    Text t(pre + n + mid + suf); make(t, pre, n, mid, suf);
    size_t a = 0, b = t.n; while (b > a && split(blank(t.v[b - 1]))) --b; while (a < b && split(blank(t.v[a]))) ++a;
    Units<C> in(t.n * 6), e(t.n * 6); for (size_t i = 0; i < t.n; ++i) put(in, t.v[i]); for (size_t i = a; i < b; ++i) put(e, t.v[i]);
    std::basic_string<C> s(in.v, in.n); trimWhiteSpace(s); observe(s);
    if (a == b) sym_reach("nothing left"); else if (a || b < t.n) sym_reach("trimmed"); else sym_reach("unchanged");
    CHECK(s.size() == e.n, "trimWhiteSpace removes too much or too little"); CHECK(same(s, e.v, e.n), "trimWhiteSpace changes the text it keeps");
    std::basic_string<C> twice = s; trimWhiteSpace(twice); CHECK(sameAs(twice, s), "trimming white space twice differs from once");
}
extern "C" void p21_8() { go<char>(); }
extern "C" void p21_16() { go<char16_t>(); }
extern "C" void p21_32() { go<char32_t>(); }
