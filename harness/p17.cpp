#include "common.h"
using namespace ansak;
// a buffer of exactly n units, no terminator: reading the next unit is out of bounds
template <class C> struct Exact {
    C* block; C* p; size_t n; Exact(const Exact&) = delete; Exact& operator=(const Exact&) = delete;
    Exact(const Shape<C>& s = Shape<C>()) : block(new C[s.total() + sym_param("align", 0)]), p(block + sym_param("align", 0)), n(s.total()) { s.make(p); }
    ~Exact() { delete[] block; }
};
template <class C> static bool nullAfterFirst(const C* p, size_t n) { unsigned z = 0; for (size_t i = 1; i < n; ++i) z |= p[i] == 0; return split(z != 0); }
// the end cuts off a sequence that can only become a lone trailing surrogate: it may count as cut short or as malformed
static bool hopeless(const Chars& t, const char* p, size_t n) { return (t.st == kCut) & (n >= 2) && (((u8)p[n - 2] == 0xed) & ((u8)p[n - 1] >= 0xb0) & ((u8)p[n - 1] <= 0xbf)); }
extern "C" void p17_is8() {
    Exact<char> s; sym_assume(s.n != 0);
    EncodingCheckPredicate p; if (u32 k = pick("pred", 0, (u32)sym_param("preds", 0))) p = validIfNot(EncodingType(k));
    bool r = isUtf8(s.p, (unsigned)s.n, p); OBSERVE(r);
    if (split(s.p[0] == 0)) { CHECK(r, "a length-terminated scan that starts with a null"); return; }
    if (nullAfterFirst(s.p, s.n)) { sym_reach("null inside"); CHECK(!r, "isUtf8 with a length accepts a null inside"); return; }
    Chars t(s.n); decode8(s.p, s.n, t); reachStatus(t);
    bool e = !t.bad(); if (e) for (size_t i = 0; i < t.n; ++i) e &= p(char32_t(t.v[i]));
    bool h = hopeless(t, s.p, s.n);
    CHECK((r == e) | (h & !r), "isUtf8 with a length gives the wrong verdict");
}
template <class C> static void len() {
    Exact<C> s; sym_assume(s.n != 0);
    unsigned r = unicodeLength(s.p, (unsigned)s.n); OBSERVE(r);
    if (split(s.p[0] == 0)) { CHECK(r == 0, "the length of a scan that starts with a null"); return; }
    if (nullAfterFirst(s.p, s.n)) { sym_reach("null inside"); CHECK(r == 0, "unicodeLength with a length counts past a null"); return; }
    Chars t(s.n); decodeU(s.p, s.n, t); reachStatus(t);
    bool zero = t.bad(); if (!zero && sizeof(C) == 1) for (size_t i = 0; i < t.n; ++i) zero |= t.v[i] > 0x10ffff;
    unsigned e = zero ? 0 : (unsigned)t.n;
    bool h = sizeof(C) == 1 && hopeless(t, (const char*)s.p, s.n);
    CHECK((r == e) | (h & (r == 0)), "unicodeLength with a length is not the number of complete characters");
}
extern "C" void p17_len8() { len<char>(); }
extern "C" void p17_len16() { len<char16_t>(); }
extern "C" void p17_len32() { len<char32_t>(); }
// part of a longer text: what follows does not matter
template <class C> static void part() {
    Input<C> s; Small<C> other(s.n, "other"); size_t n = sym_param("part", 2);
    for (size_t i = 0; i < n; ++i) other.p[i] = s.p[i];
    sym_reach("part of a longer text");
    unsigned r = unicodeLength(s.p, (unsigned)n); OBSERVE(r);
    CHECK(r == unicodeLength(other.p, (unsigned)n), "the count depends on what follows the given length");
    if (sizeof(C) == 1) CHECK(isUtf8((const char*)s.p, (unsigned)n) == isUtf8((const char*)other.p, (unsigned)n), "the verdict depends on what follows the given length");
}
extern "C" void p17_part8() { part<char>(); }
extern "C" void p17_part16() { part<char16_t>(); }
extern "C" void p17_part32() { part<char32_t>(); }
// a text that ends before the given length: like any null inside
template <class C> static void beyond() {
    Input<C> s; sym_assume(s.n != 0); for (size_t i = 0; i < s.n; ++i) sym_assume(s.p[i] != 0);
    u32 length; sym_units(&length, 4, 1, "length"); sym_assume(length > s.n);
    unsigned r = unicodeLength(s.p, length); OBSERVE(r); sym_reach("ends before the length");
    CHECK(r == 0, "unicodeLength with a length counts past a null");
    if (sizeof(C) == 1) CHECK(!isUtf8((const char*)s.p, length), "isUtf8 with a length accepts a null inside");
}
extern "C" void p17_beyond8() { beyond<char>(); }
extern "C" void p17_beyond16() { beyond<char16_t>(); }
extern "C" void p17_beyond32() { beyond<char32_t>(); }
