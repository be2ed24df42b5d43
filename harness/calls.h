// One call of any public function, for the properties about calls in sequence.
#pragma once
#include "common.h"
#include <string.h>
using namespace ansak;
// a call with its arguments made symbolic beforehand; the
// result as a list of numbers.
typedef std::vector<u32> Res;
enum { k8 = 17, k16 = 8, k32 = 9, kOther = 2, kOps = k8 + k16 + k32 + kOther };
template <class C> struct Text : Str<C> {
    Str<C> copy; std::basic_string<C> s, s2;
    // one character of a kind, `times` times, and a window
    static size_t size(u32 kind, u32 len, u32 times) { return (kind ? fillLen(C(), kind) : 0) * times + len; }
    Text(u32 kind, u32 len, const char* a, const char* b, u32 times = 1) : Str<C>(size(kind, len, times)), copy(size(kind, len, times)) {
        size_t k = kind ? fillLen(C(), kind) : 0; C f[8];
        if (k) { if (a) fillUnits(f, kind, a); else for (C& x : f) x = 0; for (size_t i = 0; i < k * times; ++i) this->p[i] = f[i % k]; k *= times; }
        if (len && b) sym_units(this->p + k, sizeof(C), len, b); else for (size_t i = 0; i < len; ++i) this->p[k + i] = 0;
        for (size_t i = 0; i < this->n; ++i) copy.p[i] = this->p[i];
        s.assign(this->p, this->n); s2 = s;
    }
    void become(const Text& o) { for (size_t i = 0; i < this->n; ++i) { copy.p[i] = this->p[i] = o.p[i]; s[i] = o.p[i]; } }     // in place
    bool intact() const {
        unsigned bad = s.size() != this->n || this->p[this->n] != 0; for (size_t i = 0; i < this->n; ++i) bad |= copy.p[i] != this->p[i];
        if (!bad) for (size_t i = 0; i < this->n; ++i) bad |= s[i] != copy.p[i];
        return !bad;
    }
};
struct Call {
    u32 op, kind, len, rest; Text<char> a; Text<char16_t> b; Text<char32_t> c; RangeType range; EncodingCheckPredicate pred; u32 ch; utf8String set;
    static u32 is(u32 op, u32 lo, u32 n, u32 v) { return op >= lo && op < lo + n ? v : 0; }
    Call(u32 op_, u32 kind_, u32 len_, u32 r, u32 q, const char* fill, const char* win, u32 times = 1) : op(op_), kind(kind_), len(len_), rest(0),
        a(is(op, 0, k8, kind), is(op, 0, k8, len), fill, win, times), b(is(op, k8, k16, kind > 2 ? 2 : kind), is(op, k8, k16, len), fill, win, times), c(is(op, k8 + k16, k32, kind > 3 ? 3 : kind), is(op, k8 + k16, k32, len), fill, win, times),
        range(RangeType(r)), pred(q == 0 ? EncodingCheckPredicate() : q < 5 ? validIf(EncodingType(q)) : validIfNot(EncodingType(q - 4))), ch(0), set(" \t") {
        if (op == k8 + k16 + k32) sym_units(&ch, 4, 1, win);
    }
    void become(const Call& o) { a.become(o.a); b.become(o.b); c.become(o.c); ch = o.ch; }
    bool intact() const { return a.intact() && b.intact() && c.intact() && set.size() == 2 && set[0] == ' ' && set[1] == '\t'; }
    template <class S> static void put(Res& o, const S& s) { o.push_back((u32)s.size()); for (size_t i = 0; i < s.size(); ++i) o.push_back((u32)s[i]); }
    void run(Res& o) const {
        const char* p = a.p; const char16_t* q = b.p; const char32_t* r = c.p; const wchar_t* w = (const wchar_t*)r;
        switch (op) {
        case 0: put(o, toUcs4(p)); break;
        case 1: put(o, toUtf16(a.s)); break;
        case 2: put(o, toUcs2(p)); break;
        case 3: o.push_back(isUtf8(p, range)); break;
        case 4: o.push_back(isUtf8(a.s, kUtf8, pred)); break;
        case 5: o.push_back(isUtf8(p, (unsigned)a.n, pred)); break;
        case 6: o.push_back(unicodeLength(p)); break;
        case 7: o.push_back(unicodeLength(p, (unsigned)a.n)); break;
        case 8: put(o, toLower(a.s)); break;
        case 9: put(o, toLower(a.s, "tr")); break;
        case 10: put(o, toUtf8(p, kSrcCP1252)); break;
        case 11: put(o, toUtf8(p, kSrcCP1250)); break;
        case 12: { utf8String v(a.s); trimWhiteSpace(v); put(o, v); break; }
        case 13: { utf8String v(a.s); trim(v, set); put(o, v); break; }
        case 14: { auto v = split(a.s, ' '); for (auto& x : v) put(o, x); put(o, join(v, ' ')); break; }
        case 15: { utf8String v(a.s); trimAscii7WhiteSpace(v); put(o, v); break; }
        case 16: if (*p) { const char* z = p; o.push_back(internal::decodeUtf8(z)); o.push_back(z ? (u32)(z - p) : ~0u); } break;
        case k8 + 0: put(o, toUcs4(q)); break;
        case k8 + 1: put(o, toUtf8(b.s)); break;
        case k8 + 2: o.push_back(isUtf16(q, range)); break;
        case k8 + 3: o.push_back(isUtf16(b.s, kUtf16, pred)); break;
        case k8 + 4: o.push_back(isUcs2(q, range, pred)); break;
        case k8 + 5: o.push_back(unicodeLength(q)); o.push_back(unicodeLength(q, (unsigned)b.n)); break;
        case k8 + 6: put(o, toLower(b.s)); put(o, toLower(b.s, "az")); break;
        case k8 + 7: { utf16String v(b.s); trimWhiteSpace(v); put(o, v); break; }
        case k8 + k16 + 0: put(o, toUtf8(r)); break;
        case k8 + k16 + 1: put(o, toUtf16(c.s)); break;
        case k8 + k16 + 2: put(o, toUcs2(r)); break;
        case k8 + k16 + 3: o.push_back(isUcs4(r, range)); break;
        case k8 + k16 + 4: o.push_back(isUcs4(c.s, kUcs4, pred)); break;
        case k8 + k16 + 5: o.push_back(unicodeLength(r)); o.push_back(unicodeLength(r, (unsigned)c.n)); break;
        case k8 + k16 + 6: put(o, toLower(c.s)); put(o, toLower(c.s, "tr")); break;
        case k8 + k16 + 7: { ucs4String v(c.s); trimWhiteSpace(v); put(o, v); break; }
        case k8 + k16 + 8: put(o, toUtf8(w)); put(o, toUcs4(w)); o.push_back(isUcs2(w)); put(o, toWstring(r)); break;
        case k8 + k16 + k32: for (int k = 1; k < 5; ++k) { EncodingCheckPredicate e = validIf(EncodingType(k)); o.push_back(e((char)ch)); o.push_back(e((char16_t)ch)); o.push_back(e((char32_t)ch)); } break;
        case k8 + k16 + k32 + 1: put(o, getUnicodeVersionSupported()); break;
        }
    }
};
static bool equal(const Res& a, const Res& b) {
    if (a.size() != b.size()) return false;
    unsigned bad = 0; for (size_t i = 0; i < a.size(); ++i) bad |= a[i] != b[i];
    return !bad;
}
static bool hasRange(u32 op) { return op == 3 || op == k8 + 2 || op == k8 + 4 || op == k8 + k16 + 3; }
static bool hasPred(u32 op) { return op == 4 || op == 5 || op == k8 + 3 || op == k8 + 4 || op == k8 + k16 + 4; }
static u32 P(const char* n, u64 d) { return (u32)sym_param(n, d); }
// the result of a call that is the first one in the process
struct Fresh {
    enum { CAP = 400 }; const Call* c; struct Out { u32 n, v[CAP]; }* out;
    explicit Fresh(const Call* c_) : c(c_), out(new Out()) {}
    ~Fresh() { delete out; }
    Fresh(const Fresh&) = delete; Fresh& operator=(const Fresh&) = delete;
    static void work(void* p) { Fresh& f = *(Fresh*)p; Res r; f.c->run(r); f.out->n = (u32)r.size(); for (size_t i = 0; i < r.size() && i < CAP; ++i) f.out->v[i] = r[i]; }
    void run() { sym_fresh(work, this, out, sizeof *out); }
    bool is(const Res& r) const { if (r.size() != out->n) return false; unsigned bad = 0; for (size_t i = 0; i < r.size() && i < CAP; ++i) bad |= r[i] != out->v[i]; return !bad; }
};
