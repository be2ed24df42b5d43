#include "common.h"
extern "C" void p02() {
    EARLIER(char32_t, ansak::toUtf8(h.p))
    Input<char32_t> s;
    Chars t(s.n); decode32(s.p, s.n, t);
    bool high = false; for (size_t i = 0; i < t.n; ++i) high |= t.v[i] > 0x7fffffff;
    if (t.st == kOk && !high) sym_reach("encodable"); else sym_reach("not encodable");
    utf8String r = sym_param("ov", 0) ? ansak::toUtf8(s.str()) : ansak::toUtf8(s.p);
    observe(r);
    CHECK(isConversion(r, t), "toUtf8(UCS-4) differs from the shortest forms");
}
