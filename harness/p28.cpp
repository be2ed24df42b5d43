#include "common.h"
using namespace ansak;
// decodes completely, no character outside the encoding, and is the one way to write it
static void wellFormed(const utf8String& r) {
    observe(r); Chars t(r.size()); decode8(r.data(), r.size(), t); CHECK(t.st == kOk, "UTF-8 result is malformed or cut short");
    bool nul = false; for (size_t i = 0; i < r.size(); ++i) nul |= r[i] == 0;
    if (nul) { CHECK(false, "null character in the result"); return; }
    Units<char> o(6 * t.n); for (size_t i = 0; i < t.n; ++i) put(o, t.v[i]);
    CHECK(same(r, o.v, o.n), "UTF-8 result is not in shortest form"); sym_reach(r.empty() ? "empty" : "not empty");
}
static void wellFormed(const utf16String& r, bool ucs2 = false) {
    observe(r); Chars t(r.size()); decode16(r.data(), r.size(), t); CHECK(t.st == kOk, "UTF-16 result has an unpaired surrogate");
    bool nul = false; for (size_t i = 0; i < r.size(); ++i) nul |= r[i] == 0;
    CHECK(!nul, "null character in the result");
    if (ucs2) CHECK(t.n == r.size(), "surrogates in a UCS-2 result"); sym_reach(r.empty() ? "empty" : "not empty");
}
template <class S> static void noSurrogate(const S& r) { observe(r); bool bad = false; for (size_t i = 0; i < r.size(); ++i) bad |= isSur((u32)r[i]) | (r[i] == 0); CHECK(!bad, "surrogate or null character in a UCS-4 result"); sym_reach(r.empty() ? "empty" : "not empty"); }
extern "C" void p28_8() {
    Input<char> s; const char* p = s.p;
    switch (sym_param("op", 0)) {
    case 0: noSurrogate(toUcs4(p)); break;
    case 1: wellFormed(toUtf16(p)); break;
    case 2: wellFormed(toUcs2(p), true); break;
    case 3: wellFormed(toLower(s.str())); break;
    case 4: wellFormed(toLower(s.str(), "tr")); break;
    case 5: { sym_assume(s.cstrlen() == s.n); utf8String v = s.str(); trimWhiteSpace(v); wellFormed(v); break; }
    case 6: wellFormed(toUtf8(p, kSrcCP1252)); break;
    case 7: wellFormed(toUtf8(p, kSrcCP1250)); break;
    case 8: noSurrogate(toWstring(p)); break;
    }
}
extern "C" void p28_16() {
    Input<char16_t> s; const char16_t* p = s.p;
    switch (sym_param("op", 0)) {
    case 0: noSurrogate(toUcs4(p)); break;
    case 1: wellFormed(toUtf8(p)); break;
    case 2: wellFormed(toLower(s.str())); break;
    case 3: wellFormed(toLower(s.str(), "tr")); break;
    case 4: noSurrogate(toWstring(p)); break;
    }
}
extern "C" void p28_32() {
    Input<char32_t> s; const char32_t* p = s.p; const wchar_t* w = (const wchar_t*)p;
    switch (sym_param("op", 0)) {
    case 0: wellFormed(toUtf8(p)); break;
    case 1: wellFormed(toUtf16(p)); break;
    case 2: wellFormed(toUcs2(p), true); break;
    case 3: noSurrogate(toWstring(p)); break;
    case 4: wellFormed(toUtf8(w)); break;
    case 5: wellFormed(toUtf16(w)); break;
    case 6: wellFormed(toUcs2(w), true); break;
    case 7: noSurrogate(toUcs4(w)); break;
    }
}
