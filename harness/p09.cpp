#include "common.h"
using namespace ansak;
static EncodingType pickType(const char* nm) { u32 k = pick(nm, 0, (u32)sym_param("types", 6)); if (k == 5) return EncodingType(-1); if (k == 6) return EncodingType(kFirstInvalidEncoding); return EncodingType(k); }
static bool real(EncodingType t) { return t > kIsNone && t < kFirstInvalidEncoding; }
template <class C> static void check(const EncodingCheckPredicate& p, const EncodingCheckPredicate& q, unsigned req, unsigned exc, C c) {
    bool e = true;
    for (unsigned k = 1; k <= 4; ++k) {
        if (!((req | exc) >> k & 1)) continue;
        bool in = validIf(EncodingType(k))(c);
        if (req >> k & 1) e &= in; if (exc >> k & 1) e &= !in;
    }
    bool r = p(c); OBSERVE(r);
    CHECK(r == e, "a combined predicate is not the conjunction of its conditions");
    CHECK(q(c) == e, "the order or repetition of conditions matters to a predicate");
    if (!(req | exc)) CHECK(r, "a predicate without conditions rejects a character");
    if (p == EncodingCheckPredicate()) CHECK(r, "a predicate that equals the default one rejects a character");
}
extern "C" void p09() {
    // a chain of n conditions
    int n = (int)sym_param("n", 3); EncodingType t[6]; bool pos[6]; unsigned req = 0, exc = 0;
    for (int i = 0; i < n; ++i) { t[i] = pickType("type"); pos[i] = pick("sign", 0, 1); if (real(t[i])) (pos[i] ? req : exc) |= 1u << t[i]; }
    EncodingCheckPredicate p, q;
    for (int i = 0; i < n; ++i) {
        if (i == 0 && sym_param("factory", 1)) { p = pos[0] ? validIf(t[0]) : validIfNot(t[0]); continue; }
        EncodingCheckPredicate r = pos[i] ? p.andIf(t[i]) : p.andIfNot(t[i]);
        CHECK(r == p, "andIf returns another predicate than it leaves behind");
    }
    // the same conditions in reverse, the last one repeated
    for (int i = n; i-- > 0;) q = pos[i] ? q.andIf(t[i]) : q.andIfNot(t[i]);
    if (n) q = pos[n - 1] ? q.andIf(t[n - 1]) : q.andIfNot(t[n - 1]);
    if (req & exc) sym_reach("contradictory"); else if (req | exc) sym_reach("conditions"); else sym_reach("no conditions");
    CHECK((p == q) && !(p != q), "the order or repetition of conditions matters to equality");
    if (!(req | exc)) CHECK(p == EncodingCheckPredicate() && !(p != EncodingCheckPredicate()), "a predicate without conditions does not equal the default one");
    else CHECK((p != EncodingCheckPredicate()) == !(p == EncodingCheckPredicate()), "== and != disagree");
    char a; char16_t b; char32_t c;
    switch (sym_param("w", 4)) {
    case 1: sym_units(&a, 1, 1, "c"); check(p, q, req, exc, a); break;
    case 2: sym_units(&b, 2, 1, "c"); check(p, q, req, exc, b); break;
    default: sym_units(&c, 4, 1, "c"); check(p, q, req, exc, c); break;
    }
}
