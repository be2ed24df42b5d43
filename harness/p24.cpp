#include "common.h"
using ansak::internal::decodeUtf8;
extern "C" void p24() {
    Input<char> s; sym_assume(s.p[0] != 0);
    u32 v = 0; size_t used = 0; Status st = one8((const u8*)s.p, 0, s.n, v, used);
    const char* p = s.p; u32 r = decodeUtf8(p); OBSERVE(r);
    if (st == kBad) { CHECK(r == 0 && p == nullptr, "a broken sequence does not give 0 and a null pointer"); sym_reach("malformed"); return; }
    if (st == kCut) { CHECK(r == 0, "a cut-short sequence does not give 0"); CHECK(p == s.p + s.cstrlen(), "the pointer is not on the terminator"); sym_reach("cut short"); return; }
    CHECK(r == v, "wrong character value"); CHECK(p == s.p + used - 1, "the pointer is not on the last byte of the character"); sym_reach("well-formed");
    used = (size_t)sym_concretize(used);
    char* e = new char[used]; for (size_t i = 0; i < used; ++i) e[i] = s.p[i];     // nothing after the character
    p = e; CHECK(decodeUtf8(p) == v && p == e + used - 1, "the result depends on what follows the character");
    delete[] e;
}
// a whole string, character by character
extern "C" void p24_walk() {
    Input<char> s; Chars t(s.n); decodeU(s.p, s.n, t); reachStatus(t);
    size_t i = 0; const char* p = s.p;
    for (; *p; ++p) {
        u32 r = decodeUtf8(p); OBSERVE(r);
        if (i < t.n) { CHECK(p != nullptr && r == t.v[i], "wrong character value"); ++i; continue; }
        CHECK(r == 0, "a character after the last"); 
        if (t.st == kBad) { CHECK(p == nullptr, "a broken sequence leaves the pointer set"); return; }
        CHECK(t.st == kCut && p == s.p + s.cstrlen(), "the pointer is not on the terminator"); return;
    }
    CHECK(t.st == kOk && i == t.n, "the walk ends early");
}
