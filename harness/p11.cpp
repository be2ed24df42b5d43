#include "common.h"
#include UNICODE_TABLE
using namespace ansak;
// number of toggles <= c; each interval is a path
static size_t interval(u32 c) {
    size_t lo = 0, hi = sizeof kAssignedToggles / sizeof kAssignedToggles[0];
    while (lo < hi) { size_t m = (lo + hi) / 2; if (split(kAssignedToggles[m] <= c)) lo = m + 1; else hi = m; }
    return lo;
}
template <class C> static void one(C c, u32 v) {
    bool e = sizeof(C) == 1 ? true : (interval(v) & 1) != 0;
    bool r = validIf(kIsAssigned)(c), n = validIfNot(kIsAssigned)(c);
    OBSERVE(r);
    if (e) sym_reach("assigned"); else sym_reach("unassigned");
    CHECK(r == e, "assigned differs from the character database"); CHECK(n == !e, "not assigned differs from the character database");
}
extern "C" void p11() {
    char a; char16_t b; char32_t c;
    switch (sym_param("w", 4)) {
    case 1: sym_units(&a, 1, 1, "c"); one(a, (u8)a); break;
    case 2: sym_units(&b, 2, 1, "c"); one(b, b); break;
    default: sym_units(&c, 4, 1, "c"); one(c, c); break;
    }
}
// the same through the validators, where a user meets it
extern "C" void p11_text() {
    u32 c; sym_units(&c, 4, 1, "c"); sym_assume((c != 0) & (c < 0x110000) & !isSur(c));
    bool e = (interval(c) & 1) != 0; EncodingCheckPredicate p = validIf(kIsAssigned);
    Units<char> o8(4); put(o8, c); Units<char16_t> o16(2); put(o16, c);
    char32_t s[2] = {c, 0}; o8.v[o8.n] = 0; o16.v[o16.n] = 0;
    bool r32 = isUcs4(s, kUnicode, p), r8 = isUtf8(o8.v, kUnicode, p), r16 = isUtf16(o16.v, kUnicode, p);
    OBSERVE(r32); sym_reach("text");
    CHECK(r32 == e, "isUcs4 with the assigned predicate"); CHECK(r8 == e, "isUtf8 with the assigned predicate"); CHECK(r16 == e, "isUtf16 with the assigned predicate");
}
