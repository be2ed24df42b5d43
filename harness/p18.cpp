#include "common.h"
using namespace ansak;
// Runs one operation on arbitrary input.  The engine reports every access outside
// an object, use of uninitialised data, undefined behaviour, exception and endless
// loop; the leak check is here.
template <class S> static void use(const S& s) { u64 h = s.size(); for (size_t i = 0; i < s.size(); ++i) h += (u64)s[i]; OBSERVE(h); }
static RangeType range() { return RangeType(pick("range", 0, 7)); }
static EncodingCheckPredicate pred() { u32 k = pick("pred", 0, 5); return k == 5 ? validIf(kIsAssigned).andIfNot(kIsPrivate).andIfNot(kIsControl).andIfNot(kIsWhitespace) : validIf(EncodingType(k)); }
static const wchar_t* W(const char32_t* p) { return (const wchar_t*)p; }
template <class C> static void generic(u64 op, Str<C>& s) {
    std::basic_string<C> v = s.str();
    switch (op) {
    case 50: trim(v); use(v); break;
    case 51: { std::basic_string<C> set(s.p, s.n < 2 ? s.n : 2); trim(v, set); use(v); break; }
    case 52: trimWhiteSpace(v); use(v); break;
    case 53: { C d; sym_units(&d, sizeof(C), 1, "delim"); auto p = split(v, d); u64 h = 0; for (auto& x : p) h += x.size(); OBSERVE(h); use(join(p, d)); break; }
    case 54: { C d; sym_units(&d, sizeof(C), 1, "delim"); std::vector<std::basic_string<C>> p; for (size_t i = 0; i <= s.n; ++i) p.push_back(std::basic_string<C>(s.p, i)); use(join(p, d)); break; }
    case 55: use(toLower(v)); break;
    case 56: use(toLower(v, "tr")); break;
    case 57: { const C* p = s.p; OBSERVE(unicodeLength(p)); break; }
    case 58: { const C* p = s.p; OBSERVE(unicodeLength(p, (unsigned)s.n)); break; }
    case 59: trim(v, v); use(v); break;
    case 60: { OBSERVE(unicodeLength(v)); break; }
    case 61: { std::basic_string<C> e; trim(v, e); use(v); break; }
    }
}
static void op8(u64 op, S8& s) {
    const char* p = s.p;
    switch (op) {
    case 0: use(toUcs4(p)); break;
    case 1: use(toUtf16(p)); break;
    case 2: use(toUcs2(p)); break;
    case 3: OBSERVE(isUtf8(p, range())); break;
    case 4: OBSERVE(isUtf8(p, kUtf8, pred())); break;
    case 5: OBSERVE(isUtf8(p, (unsigned)s.n, pred())); break;
    case 6: for (const char* q = p; *q; ++q) { char32_t c = internal::decodeUtf8(q); OBSERVE(c); if (!q || !*q) break; } break;
    case 7: { u32 e; sym_units(&e, 4, 1, "encoding"); use(toUtf8(p, SourceEncoding((int)e))); break; }
    case 8: { utf8String v = s.str(); trimAscii7WhiteSpace(v); use(v); break; }
    case 9: OBSERVE(isWstring(p)); use(toWstring(p)); break;
    case 10: use(toLower(utf8String("I"), p)); break;
    case 13: use(toLower(utf16String(u"I"), p)); break;
    case 14: use(toLower(ucs4String(U"I"), p)); break;
    case 11: { utf8String v = s.str(); use(toUcs4(v)); use(toUtf16(v)); use(toUcs2(v)); break; }
    case 12: { utf8String v = s.str(); OBSERVE(isUtf8(v)); use(toWstring(v)); OBSERVE(isWstring(v)); break; }
    default: generic(op, s);
    }
}
static void op16(u64 op, S16& s) {
    const char16_t* p = s.p;
    switch (op) {
    case 0: use(toUcs4(p)); break;
    case 1: use(toUtf8(p)); break;
    case 2: OBSERVE(isUtf16(p, range())); break;
    case 3: OBSERVE(isUtf16(p, kUtf16, pred())); break;
    case 4: OBSERVE(isUcs2(p, range())); break;
    case 5: OBSERVE(isUcs2(p, kUcs2, pred())); break;
    case 6: OBSERVE(isWstring(p)); use(toWstring(p)); break;
    case 7: { utf16String v = s.str(); use(toUcs4(v)); use(toUtf8(v)); break; }
    case 8: { utf16String v = s.str(); OBSERVE(isUtf16(v)); OBSERVE(isUcs2(v)); use(toWstring(v)); OBSERVE(isWstring(v)); break; }
    default: generic(op, s);
    }
}
static void op32(u64 op, S32& s) {
    const char32_t* p = s.p;
    switch (op) {
    case 0: use(toUtf8(p)); break;
    case 1: use(toUtf16(p)); break;
    case 2: use(toUcs2(p)); break;
    case 3: OBSERVE(isUcs4(p, range())); break;
    case 4: OBSERVE(isUcs4(p, kUcs4, pred())); break;
    case 5: OBSERVE(isWstring(p)); use(toWstring(p)); break;
    case 6: use(toUtf8(W(p))); use(toUtf16(W(p))); use(toUcs2(W(p))); use(toUcs4(W(p))); break;
    case 7: OBSERVE(isUtf8(W(p))); OBSERVE(isUtf16(W(p))); OBSERVE(isUcs2(W(p))); OBSERVE(isUcs4(W(p))); break;
    case 8: { ucs4String v = s.str(); use(toUtf8(v)); use(toUtf16(v)); use(toUcs2(v)); break; }
    case 9: { ucs4String v = s.str(); OBSERVE(isUcs4(v)); use(toWstring(v)); OBSERVE(isWstring(v)); break; }
    default: generic(op, s);
    }
}
extern "C" void p18_8() { u64 mark = sym_heap_mark(); { Input<char> s; op8(sym_param("op", 0), s); sym_reach("returned"); } CHECK(sym_leaked(mark) == 0, "memory is leaked"); }
extern "C" void p18_16() { u64 mark = sym_heap_mark(); { Input<char16_t> s; op16(sym_param("op", 0), s); sym_reach("returned"); } CHECK(sym_leaked(mark) == 0, "memory is leaked"); }
extern "C" void p18_32() { u64 mark = sym_heap_mark(); { Input<char32_t> s; op32(sym_param("op", 0), s); sym_reach("returned"); } CHECK(sym_leaked(mark) == 0, "memory is leaked"); }
extern "C" void p18_null() {
    const char* a = nullptr; const char16_t* b = nullptr; const char32_t* c = nullptr; const wchar_t* w = nullptr; unsigned n = pick("n", 0, 3); u32 e; sym_units(&e, 4, 1, "encoding");
    CHECK(toUcs4(a).empty() && toUtf16(a).empty() && toUcs2(a).empty() && toWstring(a).empty() && toUtf8(a, SourceEncoding((int)e)).empty(), "conversion of a null char pointer");
    CHECK(toUcs4(b).empty() && toUtf8(b).empty() && toWstring(b).empty(), "conversion of a null char16_t pointer");
    CHECK(toUtf8(c).empty() && toUtf16(c).empty() && toUcs2(c).empty() && toWstring(c).empty(), "conversion of a null char32_t pointer");
    CHECK(toUtf8(w).empty() && toUtf16(w).empty() && toUcs2(w).empty() && toUcs4(w).empty(), "conversion of a null wchar_t pointer");
    CHECK(isUtf8(a) && isUtf16(b) && isUcs2(b) && isUcs4(c) && isWstring(a) && isWstring(b) && isWstring(c) && isUtf8(w) && isUtf16(w) && isUcs2(w) && isUcs4(w), "validation of a null pointer");
    CHECK(isUtf8(a, validIf(kIsAssigned)) && isUtf16(b, validIf(kIsAssigned)) && isUcs2(b, validIf(kIsAssigned)) && isUcs4(c, validIf(kIsAssigned)), "validation of a null pointer with a predicate");
    CHECK(isUtf8(a, n) && unicodeLength(a, n) == 0 && unicodeLength(b, n) == 0 && unicodeLength(c, n) == 0, "length-terminated scan of a null pointer");
    sym_reach("null pointers");
}
