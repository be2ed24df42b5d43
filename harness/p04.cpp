#include "common.h"
extern "C" void p04_8() {
    EARLIER(char, ansak::toUtf16(h.p))
    Input<char> s;
    Chars t(s.n); decode8(s.p, s.n, t); reachStatus(t);
    utf16String r = sym_param("ov", 0) ? ansak::toUtf16(s.str()) : ansak::toUtf16(s.p);
    observe(r);
    CHECK(isConversion(r, t), "toUtf16(UTF-8) differs from the UTF-16 form of the characters encoded");
}
extern "C" void p04_32() {
    EARLIER(char32_t, ansak::toUtf16(h.p))
    Input<char32_t> s;
    Chars t(s.n); decode32(s.p, s.n, t); reachStatus(t);
    utf16String r = sym_param("ov", 0) ? ansak::toUtf16(s.str()) : ansak::toUtf16(s.p);
    observe(r);
    CHECK(isConversion(r, t), "toUtf16(UCS-4) differs from the UTF-16 form of the characters");
}
