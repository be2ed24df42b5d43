#include "common.h"
#include UNICODE_TABLE
using namespace ansak;
static bool in(u32 c, u32 a, u32 b) { return (c >= a) & (c <= b); }
static bool refClass(int k, u32 c) {
    switch (k) {
    case kIsPrivate: return in(c, 0xe000, 0xf8ff) | in(c, 0xf0000, 0xffffd) | in(c, 0x100000, 0x10fffd);
    case kIsControl: return in(c, 0, 0x1f) | in(c, 0x7f, 0x9f);
    default: return in(c, 9, 13) | (c == 0x20) | (c == 0x85) | (c == 0xa0) | (c == 0x1680) | in(c, 0x2000, 0x200a) | (c == 0x2028) | (c == 0x2029) | (c == 0x202f) | (c == 0x205f) | (c == 0x3000);
    }
}
template <class C> static void one(int k, C c, u32 v) {
    bool e = refClass(k, v), r = validIf(EncodingType(k))(c), n = validIfNot(EncodingType(k))(c);
    OBSERVE(r);
    if (e) sym_reach("in a class"); else sym_reach("not in a class");
    CHECK(r == e, k == kIsPrivate ? "private use is not exact" : k == kIsControl ? "control is not exact" : "white space is not exact");
    CHECK(n == !e, "the negated class is not exact");
}
extern "C" void p12() {
    int k = (int)pick("class", kIsPrivate, kIsWhitespace);
    char a; char16_t b; char32_t c;
    switch (sym_param("w", 4)) {
    case 1: sym_units(&a, 1, 1, "c"); one(k, a, (u8)a); break;
    case 2: sym_units(&b, 2, 1, "c"); one(k, b, b); break;
    default: sym_units(&c, 4, 1, "c"); one(k, c, c); break;
    }
}
// the widths agree
extern "C" void p12_widths() {
    int k = (int)pick("class", kIsPrivate, kIsWhitespace);
    char32_t c; sym_units(&c, 4, 1, "c"); sym_assume(c < 0x10000); sym_reach("widths");
    bool r = validIf(EncodingType(k))(c); OBSERVE(r);
    CHECK(validIf(EncodingType(k))(char16_t(c)) == r, "16- and 32-bit verdicts differ");
    if (c < 0x100) CHECK(validIf(EncodingType(k))(char(c)) == r, "8- and 32-bit verdicts differ");
}
