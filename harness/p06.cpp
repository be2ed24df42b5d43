#include "common.h"
// a text in one of the encodings
struct Text { int enc; utf8String a; utf16String b; ucs4String c; };
enum { E8, E16, E32, E2 };
static Text conv(const Text& t, int to) {
    Text r; r.enc = to;
    switch (t.enc) {
    case E8: if (to == E16) r.b = ansak::toUtf16(t.a); else if (to == E2) r.b = ansak::toUcs2(t.a); else r.c = ansak::toUcs4(t.a); break;
    case E16: case E2: if (to == E8) r.a = ansak::toUtf8(t.b); else r.c = ansak::toUcs4(t.b); break;
    default: if (to == E8) r.a = ansak::toUtf8(t.c); else if (to == E2) r.b = ansak::toUcs2(t.c); else r.b = ansak::toUtf16(t.c); break;
    }
    return r;
}
static bool legal(int from, int to) { return from != to && !((from == E16 && to == E2) || (from == E2 && to == E16)); }
static unsigned length(const Text& t) { return t.enc == E8 ? ansak::unicodeLength(t.a) : t.enc == E32 ? ansak::unicodeLength(t.c) : ansak::unicodeLength(t.b); }
extern "C" void p06() {
    // pre fillers, then n characters, then suf fillers; all Unicode
    size_t pre = pick("pre", (u32)sym_param("pre", 0), (u32)sym_param("prehi", 0)), n = pick("chars", (u32)sym_param("chars", 2), (u32)sym_param("charshi", 0));
    size_t total = pre + n; u32* v = new u32[total + 1]; u32 f = 0;
    if (pre) { sym_units(&f, 4, 1, "filler"); }
    for (size_t i = 0; i < pre; ++i) v[i] = f;
    if (n) sym_units(v + pre, 4, n, "chars");
    bool ucs2 = sym_param("ucs2", 0);
    for (size_t i = 0; i < total; ++i) { if (i && i < pre) continue; sym_assume((v[i] != 0) & (v[i] < (ucs2 ? 0x10000u : 0x110000u)) & !isSur(v[i])); }
    int from = pick("from", 0, ucs2 ? 3 : 2);
    Text t; t.enc = from;
    if (from == E8) { Units<char> o(total * 4); for (size_t i = 0; i < total; ++i) put(o, v[i]); t.a.assign(o.v, o.n); }
    else if (from == E32) t.c.assign((const char32_t*)v, total);
    else { Units<char16_t> o(total * 2); for (size_t i = 0; i < total; ++i) put(o, v[i]); t.b.assign(o.v, o.n); }
    int hops = (int)sym_param("hops", 2); Text cur = t;
    CHECK(length(cur) == total, "unicodeLength differs between encodings of the same text");
    for (int h = 0; h < hops; ++h) {
        int to;
        if (h == hops - 1) to = from; else to = pick("to", 0, ucs2 ? 3 : 2);
        if (!legal(cur.enc, to)) { sym_assume(false); }
        cur = conv(cur, to);
        CHECK(length(cur) == total, "unicodeLength changed by a conversion");
    }
    sym_reach("converted back");
    observe(cur.a); observe(cur.b); observe(cur.c);
    CHECK(cur.a.size() == t.a.size() && cur.b.size() == t.b.size() && cur.c.size() == t.c.size(), "a chain of conversions changed the size of the text");
    CHECK(sameAs(cur.a, t.a) && sameAs(cur.b, t.b) && sameAs(cur.c, t.c), "a chain of conversions did not return the original text");
    delete[] v;
}
