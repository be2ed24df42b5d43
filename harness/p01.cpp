#include "common.h"
extern "C" void p01() {
    EARLIER(char, ansak::toUcs4(h.p))
    Input<char> s;
    Chars t(s.n); decode8(s.p, s.n, t); reachStatus(t);
    ucs4String r = sym_param("ov", 0) ? ansak::toUcs4(s.str()) : ansak::toUcs4(s.p);
    observe(r);
    CHECK(isConversion(r, t), "toUcs4(UTF-8) differs from the characters encoded");
}
