#include "common.h"
extern "C" void p03_8() {
    EARLIER(char16_t, ansak::toUtf8(h.p))
    Input<char16_t> s;
    Chars t(s.n); decode16(s.p, s.n, t); reachStatus(t);
    utf8String r = sym_param("ov", 0) ? ansak::toUtf8(s.str()) : ansak::toUtf8(s.p);
    observe(r);
    CHECK(isConversion(r, t), "toUtf8(UTF-16) differs from the characters encoded");
}
extern "C" void p03_32() {
    EARLIER(char16_t, ansak::toUcs4(h.p))
    Input<char16_t> s;
    Chars t(s.n); decode16(s.p, s.n, t); reachStatus(t);
    ucs4String r = sym_param("ov", 0) ? ansak::toUcs4(s.str()) : ansak::toUcs4(s.p);
    observe(r);
    CHECK(isConversion(r, t), "toUcs4(UTF-16) differs from the characters encoded");
}
