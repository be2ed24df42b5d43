#include "common.h"
using namespace ansak;
static_assert(sizeof(wchar_t) == 4, "32-bit wchar_t");
template <class A, class B> static void eq(const A& a, const B& b, const char* what) { observe(a); CHECK(sameAs(a, b), what); }
// a copy of the units up to the first 0, or nothing
template <class A> static void copy(const A& r, const S32& s, size_t n, bool valid, const char* what) {
    observe(r); if (!valid) { CHECK(r.empty(), what); sym_reach("not copied"); return; }
    sym_reach("copied");
    unsigned bad = r.size() != n; if (!bad) for (size_t i = 0; i < n; ++i) bad |= (u32)r[i] != (u32)s[i];
    CHECK(!bad, what);
}
extern "C" void p23_wide() {
    Input<char32_t> s; size_t n = s.cstrlen(); const char32_t* c = s.p; const wchar_t* w = (const wchar_t*)s.p;
    bool str = sym_param("ov", 0) != 0; std::wstring ws(w, s.n);
    bool valid = true; for (size_t i = 0; i < n; ++i) valid &= inRange(c[i], kUtf16);
    valid = ::split(valid);
    switch (sym_param("op", 0)) {
    case 0: eq(str ? toUtf8(ws) : toUtf8(w), toUtf8(c), "toUtf8 of a wide string"); break;
    case 1: eq(str ? toUtf16(ws) : toUtf16(w), toUtf16(c), "toUtf16 of a wide string"); break;
    case 2: eq(str ? toUcs2(ws) : toUcs2(w), toUcs2(c), "toUcs2 of a wide string"); break;
    case 3: copy(str ? toUcs4(ws) : toUcs4(w), s, n, valid, "toUcs4 of a wide string"); break;
    case 4: copy(str ? toWstring(ucs4String(c, s.n)) : toWstring(c), s, n, valid, "toWstring of a UCS-4 string"); break;
    case 5: { bool r = str ? isUtf8(ws) : isUtf8(w); OBSERVE(r); CHECK(r == isUcs4(c, kUtf16), "isUtf8 of a wide string"); CHECK(r == valid, "isUtf8 of a wide string"); break; }
    case 6: { bool r = str ? isUtf16(ws) : isUtf16(w); OBSERVE(r); CHECK(r == isUcs4(c, kUtf16), "isUtf16 of a wide string"); break; }
    case 7: { bool r = str ? isUcs4(ws) : isUcs4(w); OBSERVE(r); CHECK(r == isUcs4(c, kUtf16), "isUcs4 of a wide string"); break; }
    case 8: { bool r = str ? isUcs2(ws) : isUcs2(w); OBSERVE(r); CHECK(r == isUcs4(c, kUcs2), "isUcs2 of a wide string"); break; }
    case 9: { bool r = str ? isWstring(ucs4String(c, s.n)) : isWstring(c); OBSERVE(r); CHECK(r == isUcs4(c, kUtf16), "isWstring of a UCS-4 string"); CHECK(r == valid, "isWstring of a UCS-4 string"); break; }
    }
    sym_reach("compared");
}
extern "C" void p23_8() {
    Input<char> s; bool str = sym_param("ov", 0) != 0;
    if (sym_param("op", 0) == 0) eq(str ? toWstring(s.str()) : toWstring((const char*)s.p), toUcs4((const char*)s.p), "toWstring of a UTF-8 string");
    else { bool r = str ? isWstring(s.str()) : isWstring((const char*)s.p); OBSERVE(r); CHECK(r == isUtf8((const char*)s.p, kUtf16), "isWstring of a UTF-8 string"); }
    sym_reach("compared");
}
extern "C" void p23_16() {
    Input<char16_t> s; bool str = sym_param("ov", 0) != 0;
    if (sym_param("op", 0) == 0) eq(str ? toWstring(s.str()) : toWstring((const char16_t*)s.p), toUcs4((const char16_t*)s.p), "toWstring of a UTF-16 string");
    else { bool r = str ? isWstring(s.str()) : isWstring((const char16_t*)s.p); OBSERVE(r); CHECK(r == isUtf16((const char16_t*)s.p, kUtf16), "isWstring of a UTF-16 string"); }
    sym_reach("compared");
}
