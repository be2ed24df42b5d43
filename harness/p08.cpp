#include "common.h"
using namespace ansak;
// the source's validator for each target, the conversion, the target's validator
template <class C> static bool accepted(const C* s, RangeType r);
template <> bool accepted(const char* s, RangeType r) { return isUtf8(s, r); }
template <> bool accepted(const char16_t* s, RangeType r) { return sym_param("as2", 0) ? isUcs2(s, r) : isUtf16(s, r); }
template <> bool accepted(const char32_t* s, RangeType r) { return isUcs4(s, r); }
static void toTarget(const char* s, RangeType r, ucs4String& chars, bool& nonEmpty, bool& ok);
// decode a conversion result to characters, with the reference decoder
template <class D> static void take(const std::basic_string<D>& d, Chars& c, bool& nonEmpty, bool& ok) {
    nonEmpty = !d.empty(); decodeU(d.data(), d.size(), c); ok = c.st == kOk;
    size_t z = 0; for (size_t i = 0; i < d.size(); ++i) z |= d[i] == 0; if (z) ok = false;
}
// converts s for target r; false if there is no such conversion
static bool convert(const char* s, RangeType r, Chars& c, bool& ne, bool& ok) {
    if (r == kAscii) { utf16String d = toUtf16(s); take(d, c, ne, ok); return true; }
    if (r == kUcs2) { ucs2String d = toUcs2(s); take(d, c, ne, ok); ok = ok && isUcs2(d); return true; }
    if (r == kUtf16 || r == kUnicode) { utf16String d = toUtf16(s); take(d, c, ne, ok); ok = ok && isUtf16(d); return true; }
    if (r == kUcs4 || r == kUtf8) { ucs4String d = toUcs4(s); take(d, c, ne, ok); ok = ok && isUcs4(d); return true; }
    return false;
}
static bool convert(const char16_t* s, RangeType r, Chars& c, bool& ne, bool& ok) {
    if (r == kUtf8 || r == kAscii) { utf8String d = toUtf8(s); take(d, c, ne, ok); ok = ok && isUtf8(d, r); return true; }
    if (r == kUcs4 || r == kUtf16 || r == kUnicode) { ucs4String d = toUcs4(s); take(d, c, ne, ok); ok = ok && isUcs4(d, r); return true; }
    return false;
}
static bool convert(const char32_t* s, RangeType r, Chars& c, bool& ne, bool& ok) {
    if (r == kUtf8 || r == kAscii) { utf8String d = toUtf8(s); take(d, c, ne, ok); ok = ok && isUtf8(d, r); return true; }
    if (r == kUcs2) { ucs2String d = toUcs2(s); take(d, c, ne, ok); ok = ok && isUcs2(d); return true; }
    if (r == kUtf16 || r == kUnicode) { utf16String d = toUtf16(s); take(d, c, ne, ok); ok = ok && isUtf16(d); return true; }
    return false;
}
template <class C> static void go() {
    Input<C> s; RangeType r = RangeType(pick("range", (u32)sym_param("r0", 0), (u32)sym_param("r1", 5)));
    Chars t(s.n); decodeU(s.p, s.n, t);
    bool valid = accepted(s.p, r), ne = false, ok = true;
    Chars c(s.n * 2 + 2);
    if (!convert(s.p, r, c, ne, ok)) return;
    OBSERVE(valid); OBSERVE(ne); OBSERVE(c.n);
    if (valid) {
        sym_reach("accepted");
        CHECK(ok, "the conversion of an accepted string is not valid in the target encoding");
        CHECK(c.n == t.n, "the conversion of an accepted string has another number of characters");
        CHECK(ne == (t.n != 0), "the conversion of an accepted string is empty");
    }
    // ranges that a conversion enforces; kAscii is narrower than any encoding
    if (ne && t.st == kOk && r != kAscii && !sym_param("as2", 0)) { sym_reach("converted"); CHECK(valid, "a string was converted that the validator for the target rejects"); }
}
extern "C" void p08_8() { go<char>(); }
extern "C" void p08_16() { go<char16_t>(); }
extern "C" void p08_32() { go<char32_t>(); }
