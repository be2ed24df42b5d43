// Reference definitions and input shapes shared by the harnesses.  Nothing here
// uses the library's sources: only its public headers are included.
#pragma once
#include "sym.h"
#include "string.hxx"
#include "string_trim.hxx"
#include "string_splitjoin.hxx"
#include "internal/string_decode_utf8.hxx"
#include <string>
#include <vector>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
using ansak::utf8String; using ansak::utf16String; using ansak::ucs4String;

// ------------------------------------------------------------- inputs
// A heap buffer of exactly n+1 units, the last one 0: a read past the terminator
// is out of bounds.
template <class C> struct Str {
    C* block; C* p; size_t n;           // `align` units after the start of a block
    Str(size_t len) : block(new C[len + 1 + sym_param("align", 0)]), p(block + sym_param("align", 0)), n(len) { p[len] = 0; }
    ~Str() { delete[] block; }
    Str(const Str&) = delete; Str& operator=(const Str&) = delete;
    C operator[](size_t i) const { return p[i]; }
    std::basic_string<C> str() const { return std::basic_string<C>(p, n); }
    size_t cstrlen() const { size_t i = 0; while (i < n && p[i]) ++i; return i; }
};
typedef Str<char> S8; typedef Str<char16_t> S16; typedef Str<char32_t> S32;

// a number from lo to hi; each value is explored
inline u32 pick(const char* name, u32 lo, u32 hi) {
    if (lo >= hi) return lo;
    u32 v; sym_units(&v, 4, 1, name); sym_assume((v >= lo) & (v <= hi));
    return (u32)sym_concretize(v);
}
// decide a condition here: one path for each outcome
inline bool split(bool c) { return sym_concretize(c) != 0; }
inline bool isSur(u32 c) { return (c >= 0xd800) & (c <= 0xdfff); }
inline bool isHi(u32 c) { return (c & 0xfffffc00u) == 0xd800; }
inline bool isLo(u32 c) { return (c & 0xfffffc00u) == 0xdc00; }
inline bool isCont(u32 b) { return (b & 0xc0) == 0x80; }

// One character of the given kind, its value symbolic.  UTF-8 kinds: 1..6 the
// form of that many bytes (4: up to 10FFFF, 9: beyond), 7 a surrogate pair in two
// three-byte forms, 8 any byte above 7F.  UTF-16 kinds: 1 one unit, 2 a pair.  UCS-4 kinds: 1 up to FFFF, 2 up to 10FFFF, 3 beyond.
inline size_t fillLen(char, unsigned kind) { return kind == 7 ? 6 : kind == 8 ? 1 : kind == 9 ? 4 : kind; }
inline size_t fillLen(char16_t, unsigned kind) { return kind; }
inline size_t fillLen(char32_t, unsigned) { return 1; }
inline size_t fillLen(wchar_t, unsigned) { return 1; }
template <class C> inline size_t fillLen(C, unsigned) { return 1; }        // any other integral type
template <class C> inline void fillUnits(C* f, unsigned, const char* name) { sym_units(f, sizeof *f, 1, name); }
template <class C> inline u32 kindsOf(C) { return 1; }
inline void fillUnits(char* f, unsigned kind, const char* name) {
    size_t k = fillLen('a', kind); sym_units(f, 1, k, name);
    const u8* b = (const u8*)f;
    switch (kind) {
    case 1: sym_assume((b[0] != 0) & (b[0] < 0x80)); return;
    case 8: sym_assume(b[0] >= 0x80); return;
    case 2: sym_assume((b[0] >= 0xc2) & (b[0] <= 0xdf) & isCont(b[1])); return;
    case 3: sym_assume((b[0] >= 0xe0) & (b[0] <= 0xef) & isCont(b[1]) & isCont(b[2]) & !((b[0] == 0xe0) & (b[1] < 0xa0)) & !((b[0] == 0xed) & (b[1] >= 0xa0))); return;
    case 4: sym_assume((b[0] >= 0xf0) & (b[0] <= 0xf4) & isCont(b[1]) & isCont(b[2]) & isCont(b[3]) & !((b[0] == 0xf0) & (b[1] < 0x90)) & !((b[0] == 0xf4) & (b[1] >= 0x90))); return;
    case 9: sym_assume((b[0] >= 0xf4) & (b[0] <= 0xf7) & isCont(b[1]) & isCont(b[2]) & isCont(b[3]) & !((b[0] == 0xf4) & (b[1] < 0x90))); return;
    case 5: sym_assume((b[0] >= 0xf8) & (b[0] <= 0xfb) & isCont(b[1]) & isCont(b[2]) & isCont(b[3]) & isCont(b[4]) & !((b[0] == 0xf8) & (b[1] < 0x88))); return;
    case 6: sym_assume((b[0] >= 0xfc) & (b[0] <= 0xfd) & isCont(b[1]) & isCont(b[2]) & isCont(b[3]) & isCont(b[4]) & isCont(b[5]) & !((b[0] == 0xfc) & (b[1] < 0x84))); return;
    case 7: sym_assume((b[0] == 0xed) & (b[1] >= 0xa0) & (b[1] <= 0xaf) & isCont(b[2]) & (b[3] == 0xed) & (b[4] >= 0xb0) & (b[4] <= 0xbf) & isCont(b[5])); return;
    }
}
inline void fillUnits(char16_t* f, unsigned kind, const char* name) {
    sym_units(f, 2, kind, name);
    if (kind == 1) sym_assume((f[0] != 0) & !isSur(f[0])); else sym_assume(isHi(f[0]) & isLo(f[1]));
}
inline void fillUnits(char32_t* f, unsigned kind, const char* name) {
    sym_units(f, 4, 1, name);
    if (kind == 1) sym_assume((f[0] != 0) & (f[0] < 0x10000) & !isSur(f[0]));
    else if (kind == 2) sym_assume((f[0] >= 0x10000) & (f[0] < 0x110000));
    else sym_assume((f[0] >= 0x110000) & (f[0] < 0x80000000u));
}
inline void fillUnits(wchar_t* f, unsigned, const char* name) { sym_units(f, sizeof *f, 1, name); sym_assume(f[0] != 0); }
inline u32 kindsOf(char) { return 7; }
inline u32 kindsOf(char16_t) { return 2; }
inline u32 kindsOf(char32_t) { return 3; }
inline u32 kindsOf(wchar_t) { return 1; }
// a few well-formed characters, each of any kind and value
template <class C> struct Mixed {
    u32 n, kind[8]; size_t units;
    Mixed(u32 count, const char* name) : n(count), units(0) { for (u32 i = 0; i < n; ++i) { kind[i] = pick(name, 1, kindsOf(C())); units += fillLen(C(), kind[i]); } }
    void make(C* p, const char* name) const { for (u32 i = 0; i < n; ++i) { fillUnits(p, kind[i], name); p += fillLen(C(), kind[i]); } }
};
// pre..prehi fillers (each one character, or one of each of two kinds), some mixed
// characters, a window of len..lenhi fully symbolic units (0 included), mixed
// characters, suf..sufhi fillers.  All counts are parameters of the run.
template <class C> struct Shape {
    size_t pre, len, suf, a, b; unsigned fa, fg, fb; Mixed<C> before, after;
    Shape() : pre(pick("pre", (u32)sym_param("pre", 0), (u32)sym_param("prehi", 0))), len(pick("len", (u32)sym_param("len", 4), (u32)sym_param("lenhi", 0))), suf(pick("suf", (u32)sym_param("suf", 0), (u32)sym_param("sufhi", 0))), fa((unsigned)sym_param("fill", 1)), fg((unsigned)sym_param("fillg", 0)), fb((unsigned)sym_param("fill2", 1)),
        before((u32)sym_param("mixed", 0), "kind"), after((u32)sym_param("mixed2", 0), "kind2") {
        a = fillLen(C(), fa) + (fg ? fillLen(C(), fg) : 0); b = fillLen(C(), fb);
    }
    size_t total() const { return pre * a + before.units + len + after.units + suf * b; }
    void make(C* p) const {
        C f[16];
        if (pre) { fillUnits(f, fa, "filler"); if (fg) fillUnits(f + fillLen(C(), fa), fg, "fillerg"); for (size_t i = 0; i < pre; ++i) for (size_t j = 0; j < a; ++j) p[i * a + j] = f[j]; }
        p += pre * a; before.make(p, "mixed"); p += before.units;
        if (len) sym_units(p, sizeof(C), len, "window");
        if (sym_param("nz", 0)) for (size_t i = 0; i < len; ++i) sym_assume(p[i] != 0);
        p += len; after.make(p, "mixed2"); p += after.units;
        if (suf) { fillUnits(f, fb, "filler2"); for (size_t i = 0; i < suf; ++i) for (size_t j = 0; j < b; ++j) p[i * b + j] = f[j]; }
    }
};
template <class C> struct Input : Str<C> {
    Input(const Shape<C>& s = Shape<C>()) : Str<C>(s.total()) { s.make(this->p); }
};
// a few fully symbolic units, for arguments of earlier calls
template <class C> struct Small : Str<C> {
    Small(size_t n, const char* name) : Str<C>(n) { if (n) sym_units(this->p, sizeof(C), n, name); }
};

// ------------------------------------------------------------- reference
enum Status { kOk, kBad, kCut };
struct Chars {                     // decoded text
    u32* v; size_t n; Status st; u32 lead;   // lead: first unit of a cut-short end
    Chars(size_t cap) : v(new u32[cap + 1]), n(0), st(kOk), lead(0) {}
    ~Chars() { delete[] v; }
    Chars(const Chars&) = delete; Chars& operator=(const Chars&) = delete;
    void push(u32 c) { v[n++] = c; }
    bool bad() const { return st == kBad; }
};
// the character that starts at s[i] (not 0), its length in `used`; a 0 or index n ends the string
inline Status one8(const u8* s, size_t i, size_t n, u32& v, size_t& used) {
    static const u32 lowest[] = {0, 0, 0x80, 0x800, 0x10000, 0x200000, 0x4000000};
    u32 b = s[i]; size_t at = i;
    if (b < 0x80) { v = b; used = 1; return kOk; }
    if (b < 0xc0 || b >= 0xfe) return kBad;
    unsigned k = b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf8 ? 4 : b < 0xfc ? 5 : 6;
    k = (unsigned)sym_concretize(k);
    v = b & (0x7fu >> k);
    for (unsigned j = 1; j < k; ++j) {
        if (i + j >= n || s[i + j] == 0) return kCut;
        if (!isCont(s[i + j])) return kBad;
        v = v << 6 | (s[i + j] & 0x3f);
    }
    if (v < lowest[k]) return kBad;
    i += k;
    if (isSur(v)) {
        if (isLo(v)) return kBad;
        if (i >= n || s[i] == 0) return kCut;
        if ((s[i] & 0xf0) != 0xe0) return kBad;
        u32 w = s[i] & 0x0f;
        for (unsigned j = 1; j < 3; ++j) {
            if (i + j >= n || s[i + j] == 0) return kCut;
            if (!isCont(s[i + j])) return kBad;
            w = w << 6 | (s[i + j] & 0x3f);
        }
        if (!isLo(w)) return kBad;
        i += 3; v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
    }
    used = i - at; return kOk;
}
// decode n bytes, or up to a 0 if there is one
inline void decode8(const char* sp, size_t n, Chars& out) {
    const u8* s = (const u8*)sp; size_t i = 0;
    while (i < n) {
        u32 v = 0; size_t k = 0;
        if (s[i] == 0) return;
        Status st = one8(s, i, n, v, k);
        if (st != kOk) { out.st = st; if (st == kCut) out.lead = s[i]; return; }
        out.push(v); i += k;
    }
}
inline void decode16(const char16_t* s, size_t n, Chars& out) {
    for (size_t i = 0; i < n && s[i]; ++i) {
        u32 c = s[i];
        if (isLo(c)) { out.st = kBad; return; }
        if (isHi(c)) {
            if (i + 1 >= n || s[i + 1] == 0) { out.st = kCut; out.lead = c; return; }
            u32 d = s[++i];
            if (!isLo(d)) { out.st = kBad; return; }
            c = 0x10000 + ((c - 0xd800) << 10) + (d - 0xdc00);
        }
        out.push(c);
    }
}
inline void decode32(const char32_t* s, size_t n, Chars& out) {
    for (size_t i = 0; i < n && s[i]; ++i) { if (isSur(s[i])) { out.st = kBad; return; } out.push(s[i]); }
}
inline void decodeU(const char* s, size_t n, Chars& o) { decode8(s, n, o); }
inline void decodeU(const char16_t* s, size_t n, Chars& o) { decode16(s, n, o); }
inline void decodeU(const char32_t* s, size_t n, Chars& o) { decode32(s, n, o); }

template <class C> struct Units { C* v; size_t n; Units(size_t cap) : v(new C[cap + 1]), n(0) {} ~Units() { delete[] v; } void push(u64 c) { v[n++] = (C)c; }
    Units(const Units&) = delete; Units& operator=(const Units&) = delete; };
// encoded form; false if a character does not fit
inline bool put(Units<char>& o, u32 c) {
    if (c < 0x80) { o.push(c); return true; }
    if (isSur(c) || c > 0x7fffffff) return false;
    unsigned k = c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6;
    k = (unsigned)sym_concretize(k);
    o.push((0xff00u >> k & 0xff) | c >> 6 * (k - 1));
    for (unsigned j = k - 1; j-- > 0;) o.push(0x80 | (c >> 6 * j & 0x3f));
    return true;
}
inline bool put(Units<char16_t>& o, u32 c) {
    if (isSur(c) || c > 0x10ffff) return false;
    if (c < 0x10000) { o.push(c); return true; }
    c -= 0x10000; o.push(0xd800 | c >> 10); o.push(0xdc00 | (c & 0x3ff)); return true;
}
inline bool put2(Units<char16_t>& o, u32 c) { if (isSur(c) || c > 0xffff) return false; o.push(c); return true; }
inline bool put(Units<char32_t>& o, u32 c) { o.push(c); return true; }

template <class C> bool same(const std::basic_string<C>& r, const C* e, size_t n) {
    if (r.size() != n) return false;
    unsigned bad = 0; const C* p = r.data();
    for (size_t i = 0; i < n; ++i) bad |= p[i] != e[i];
    return !bad;
}
template <class C, class D> bool sameAs(const std::basic_string<C>& a, const std::basic_string<D>& b) {
    if (a.size() != b.size()) return false;
    unsigned bad = 0; for (size_t i = 0; i < a.size(); ++i) bad |= ((u32)a[i] != (u32)b[i]) | (sizeof(C) > 4 && (u64)a[i] >> 32 != (u64)b[i] >> 32);
    return !bad;
}
// `r` is the conversion of `t` into the encoding of C (ucs2: one unit per character)
template <class C> bool isConversion(const std::basic_string<C>& r, const Chars& t, bool ucs2 = false);
template <> inline bool isConversion(const std::basic_string<char>& r, const Chars& t, bool) {
    if (t.bad()) return r.empty();
    Units<char> o(t.n * 6); for (size_t i = 0; i < t.n; ++i) if (!put(o, t.v[i])) return r.empty();
    return same(r, o.v, o.n);
}
template <> inline bool isConversion(const std::basic_string<char16_t>& r, const Chars& t, bool ucs2) {
    if (t.bad()) return r.empty();
    Units<char16_t> o(t.n * 2); for (size_t i = 0; i < t.n; ++i) if (!(ucs2 ? put2(o, t.v[i]) : put(o, t.v[i]))) return r.empty();
    return same(r, o.v, o.n);
}
template <> inline bool isConversion(const std::basic_string<char32_t>& r, const Chars& t, bool) {
    if (t.bad()) return r.empty();
    return same(r, (const char32_t*)t.v, t.n);
}

// ------------------------------------------------------------- ranges
inline bool inRange(u32 c, int range) {
    switch (range) {
    case ansak::kAscii: return c < 0x80;
    case ansak::kUtf8: return c < 0x80000000u && !isSur(c);
    case ansak::kUcs2: return c < 0x10000 && !isSur(c);
    case ansak::kUtf16: case ansak::kUnicode: return c < 0x110000 && !isSur(c);
    case ansak::kUcs4: return !isSur(c);
    }
    return false;
}
inline bool leadFits8(u32 b, int range) {  // can a character that starts with this byte be in range
    switch (range) {
    case ansak::kAscii: return false;
    case ansak::kUtf8: case ansak::kUcs4: return true;
    case ansak::kUcs2: return b < 0xf0;
    default: return b < 0xf5;
    }
}
inline bool leadFits16(int range) { return range != ansak::kAscii && range != ansak::kUcs2; }

template <class C> void observe(const std::basic_string<C>& s) { OBSERVE(s.size()); if (!s.empty()) { OBSERVE((u32)s[0]); OBSERVE((u32)s[s.size() - 1]); } }
template <class C> C* nullOf() { return nullptr; }
// labels for the vacuity check
inline void reachStatus(const Chars& t) { if (t.st == kOk) sym_reach("well-formed"); else if (t.st == kCut) sym_reach("cut short"); else sym_reach("malformed"); }
// an earlier call with arbitrary arguments must not matter
#define EARLIER(C, call) { Small<C> h(sym_param("hist", 0), "earlier"); if (h.n) { auto x = call; OBSERVE(x.size()); } }
inline size_t textUnits(const std::string& s) { return s.size(); }
