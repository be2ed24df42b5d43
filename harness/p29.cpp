#include "common.h"
using namespace ansak;
static_assert(sizeof(wchar_t) == 2, "16-bit wchar_t");
template <class A, class B> static void eq(const A& a, const B& b, const char* what) { observe(a); CHECK(sameAs(a, b), what); }
static void yes(bool a, bool b, const char* what) { OBSERVE(a); CHECK(a == b, what); }
// the units up to the first 0 if `valid`, or nothing
template <class A, class C> static void copy(const A& r, const Str<C>& s, bool valid, const char* what) {
    observe(r); if (!::split(valid)) { CHECK(r.empty(), what); sym_reach("not copied"); return; }
    size_t n = s.cstrlen(); sym_reach("copied");
    unsigned bad = r.size() != n; if (!bad) for (size_t i = 0; i < n; ++i) bad |= (u32)r[i] != (u32)s[i];
    CHECK(!bad, what);
}
template <class C> static bool ascii(const Str<C>& s) { bool ok = true; size_t n = s.cstrlen(); for (size_t i = 0; i < n; ++i) ok &= s[i] > 0 && (u32)s[i] < 0x80; return ok; }
#define OV(f, a, b) (str ? f(a) : f(b))
extern "C" void p29_wide() {
    Input<char16_t> s; const char16_t* c = s.p; const wchar_t* w = (const wchar_t*)c; bool str = sym_param("ov", 0) != 0; std::wstring ws(w, s.n); utf16String cs = s.str();
    Chars t(s.n); decode16(s.p, s.n, t); bool ucs2 = t.st == kOk; for (size_t i = 0; i < t.n; ++i) ucs2 &= t.v[i] < 0x10000;
    switch (sym_param("op", 0)) {
    case 0: eq(OV(toUtf8, ws, w), toUtf8(c), "toUtf8 of a wide string"); break;
    case 1: eq(OV(toUcs4, ws, w), toUcs4(c), "toUcs4 of a wide string"); break;
    case 2: copy(OV(toUtf16, ws, w), s, !t.bad(), "toUtf16 of a wide string"); break;
    case 3: copy(OV(toUcs2, ws, w), s, ucs2, "toUcs2 of a wide string"); break;
    case 4: copy(OV(toWstring, cs, c), s, !t.bad(), "toWstring of a UTF-16 string"); break;
    case 5: yes(OV(isUtf8, ws, w), isUtf16(c, kUtf8), "isUtf8 of a wide string"); yes(OV(isUtf16, ws, w), isUtf16(c), "isUtf16 of a wide string"); yes(OV(isUcs2, ws, w), isUtf16(c, kUcs2), "isUcs2 of a wide string"); yes(OV(isUcs4, ws, w), isUtf16(c, kUcs4), "isUcs4 of a wide string"); yes(OV(isWstring, cs, c), isUtf16(c), "isWstring of a UTF-16 string"); break;
#if defined(_UNICODE)
    case 6: copy(OV(toTstring, cs, c), s, !t.bad(), "toTstring of a UTF-16 string"); break;
    case 7: yes(OV(isTstring, cs, c), isUtf16(c), "isTstring of a UTF-16 string"); break;
#elif defined(_MBCS)
    case 6: copy(OV(toTstring, cs, c), s, ascii(s), "toTstring of a UTF-16 string"); break;
    case 7: yes(OV(isTstring, cs, c), ascii(s), "isTstring of a UTF-16 string"); break;
#endif
    }
    sym_reach("compared");
}
extern "C" void p29_8() {
    Input<char> s; const char* c = s.p; utf8String cs = s.str(); bool str = sym_param("ov", 0) != 0;
    switch (sym_param("op", 0)) {
    case 0: eq(OV(toWstring, cs, c), toUtf16(c), "toWstring of a UTF-8 string"); break;
    case 1: yes(OV(isWstring, cs, c), isUtf8(c, kUtf16), "isWstring of a UTF-8 string"); break;
#if defined(WIN32)
    case 2: copy(OV(toUtf8, cs, c), s, isUtf8(c), "toUtf8 of a UTF-8 string"); break;
    case 3: yes(OV(isUtf16, cs, c), isUtf8(c, kUtf16), "isUtf16 of a UTF-8 string"); yes(OV(isUcs2, cs, c), isUtf8(c, kUcs2), "isUcs2 of a UTF-8 string"); yes(OV(isUcs4, cs, c), isUtf8(c, kUcs4), "isUcs4 of a UTF-8 string"); break;
#endif
#if defined(_UNICODE)
    case 6: eq(OV(toTstring, cs, c), toUtf16(c), "toTstring of a UTF-8 string"); break;
    case 7: yes(OV(isTstring, cs, c), isUtf8(c, kUtf16), "isTstring of a UTF-8 string"); break;
#elif defined(_MBCS)
    case 6: copy(OV(toTstring, cs, c), s, ascii(s), "toTstring of a UTF-8 string"); break;
    case 7: yes(OV(isTstring, cs, c), ascii(s), "isTstring of a UTF-8 string"); break;
#endif
    }
    sym_reach("compared");
}
extern "C" void p29_32() {
    Input<char32_t> s; const char32_t* c = s.p; ucs4String cs = s.str(); bool str = sym_param("ov", 0) != 0;
    switch (sym_param("op", 0)) {
    case 0: eq(OV(toWstring, cs, c), toUtf16(c), "toWstring of a UCS-4 string"); break;
    case 1: yes(OV(isWstring, cs, c), isUcs4(c, kUtf16), "isWstring of a UCS-4 string"); break;
#if defined(_UNICODE)
    case 6: eq(OV(toTstring, cs, c), toUtf16(c), "toTstring of a UCS-4 string"); break;
    case 7: yes(OV(isTstring, cs, c), isUcs4(c, kUtf16), "isTstring of a UCS-4 string"); break;
#elif defined(_MBCS)
    case 6: copy(OV(toTstring, cs, c), s, ascii(s), "toTstring of a UCS-4 string"); break;
    case 7: yes(OV(isTstring, cs, c), ascii(s), "isTstring of a UCS-4 string"); break;
#endif
    }
    sym_reach("compared");
}
extern "C" void p29_null() {
    const char* a = nullptr; const char16_t* b = nullptr; const char32_t* c = nullptr; const wchar_t* w = nullptr;
    CHECK(toUtf8(w).empty() && toUtf16(w).empty() && toUcs2(w).empty() && toUcs4(w).empty(), "conversion of a null wchar_t pointer");
    CHECK(toWstring(a).empty() && toWstring(b).empty() && toWstring(c).empty(), "toWstring of a null pointer");
    CHECK(isUtf8(w) && isUtf16(w) && isUcs2(w) && isUcs4(w) && isWstring(a) && isWstring(b) && isWstring(c), "validation of a null pointer");
#if defined(WIN32)
    CHECK(toUtf8(a).empty() && isUtf16(a) && isUcs2(a) && isUcs4(a), "null char pointer");
#if defined(_UNICODE) || defined(_MBCS)
    CHECK(toTstring(a).empty() && toTstring(b).empty() && toTstring(c).empty() && isTstring(a) && isTstring(b) && isTstring(c), "TCHAR functions on a null pointer");
#endif
#endif
    sym_reach("null pointer");
}
