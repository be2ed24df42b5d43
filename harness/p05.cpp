#include "common.h"
extern "C" void p05_8() {
    EARLIER(char, ansak::toUcs2(h.p))
    Input<char> s;
    Chars t(s.n); decode8(s.p, s.n, t); reachStatus(t);
    ansak::ucs2String r = sym_param("ov", 0) ? ansak::toUcs2(s.str()) : ansak::toUcs2(s.p);
    observe(r);
    CHECK(isConversion(r, t, true), "toUcs2(UTF-8) differs from the characters encoded");
}
extern "C" void p05_32() {
    EARLIER(char32_t, ansak::toUcs2(h.p))
    Input<char32_t> s;
    Chars t(s.n); decode32(s.p, s.n, t); reachStatus(t);
    ansak::ucs2String r = sym_param("ov", 0) ? ansak::toUcs2(s.str()) : ansak::toUcs2(s.p);
    observe(r);
    CHECK(isConversion(r, t, true), "toUcs2(UCS-4) differs from the characters");
}
