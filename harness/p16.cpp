#include "common.h"
#include "known.h"
#ifndef KNOWN_CUT8
#define KNOWN_CUT8 0
#endif
#ifndef KNOWN_CUT16
#define KNOWN_CUT16 0
#endif
using namespace ansak;
template <class C> static void go(bool known) {
    if (size_t n = sym_param("hist", 0)) { Small<C> h(n, "earlier"); OBSERVE(unicodeLength(h.p)); }
    Input<C> s; Chars t(s.n); decodeU(s.p, s.n, t); reachStatus(t);
    unsigned r; switch (sym_param("ov", 0)) { case 0: r = unicodeLength(s.p); break; case 1: r = unicodeLength(s.str()); break; default: r = unicodeLength(s.p, 0); }
    OBSERVE(r);
    if (t.bad()) { CHECK(r == 0, "the length of a malformed string is not 0"); return; }
    bool big = false; if (sizeof(C) == 1) for (size_t i = 0; i < t.n; ++i) big |= t.v[i] > 0x10ffff;
    if (big) { sym_reach("beyond 10FFFF"); CHECK(r == 0, "the length of UTF-8 with a character above 10FFFF is not 0"); return; }
    // a listed finding: one character too few before a cut-short end
    CHECK(r == t.n || (known && t.st == kCut && t.n != 0 && r == t.n - 1), "unicodeLength is not the number of characters");
}
extern "C" void p16_8() { go<char>(KNOWN_CUT8); }
extern "C" void p16_16() { go<char16_t>(KNOWN_CUT16); }
extern "C" void p16_32() { go<char32_t>(false); }
extern "C" void p16_null() { sym_reach("null pointer"); CHECK(unicodeLength((const char*)nullptr) == 0 && unicodeLength((const char16_t*)nullptr) == 0 && unicodeLength((const char32_t*)nullptr) == 0, "unicodeLength of a null pointer"); }
