#include "calls.h"
// The k-th allocation from here on fails.  Natively sym_fail(k) arms operator new;
// sym_fail(0) disarms it and says whether it failed.
static void after(bool threw, bool failed) { CHECK(failed || !threw, "an exception although memory was available"); sym_reach(failed ? "an allocation failed" : "enough memory"); }
static u64 arm() { u32 k = pick("fault", 1, P("faults", 8)); u64 mark = sym_heap_mark(); sym_fail(k); return mark; }
#define TRY(stmt) bool threw = false; try { stmt; } catch (const std::bad_alloc&) { threw = true; } catch (...) { sym_fail(0); CHECK(false, "a failed allocation ends in another exception than bad_alloc"); } bool failed = sym_fail(0) != 0; after(threw, failed);
extern "C" void p30() {
    u32 op = P("f", 0);
    Call f(op, P("fk", 1), P("fl", 0), hasRange(op) ? P("frange", 5) : 1, 1, "f-char", "f-window", P("times", 20));
    Fresh e(&f); e.run();
    Res r, again; r.reserve(Fresh::CAP); again.reserve(Fresh::CAP);
    u64 mark = arm(); TRY(f.run(r))
    CHECK(sym_leaked(mark) == 0, "memory is leaked when an allocation fails");
    CHECK(f.intact(), "an argument changes when an allocation fails");
    if (!threw) CHECK(e.is(r), "another result although the call returned");
    f.run(again); CHECK(e.is(again), "after a failed allocation a call gives another result");
}
// arguments that are changed: as they were, or trimmed
template <class C, class F> static void trimmed(F f) {
    Text<C> t(P("fk", 1), P("fl", 0), "char", "window", P("times", 20)); std::basic_string<C> v(t.s), done(t.s); f(done);
    u64 mark = arm(); TRY(f(v))
    CHECK(sameAs(v, done) || (threw && sameAs(v, t.s)), "a trim that fails leaves something else than the string or the trimmed string");
    { std::basic_string<C> n; n.swap(v); }
    CHECK(sym_leaked(mark) == 0, "memory is leaked when an allocation fails");
    std::basic_string<C> w(t.s); f(w); CHECK(sameAs(w, done), "after a failed allocation a trim gives another result");
}
extern "C" void p30_trim8() { trimmed<char>([](utf8String& s) { trimWhiteSpace(s); }); }
extern "C" void p30_trim16() { trimmed<char16_t>([](utf16String& s) { trimWhiteSpace(s); }); }
extern "C" void p30_trim32() { trimmed<char32_t>([](ucs4String& s) { trimWhiteSpace(s); }); }
extern "C" void p30_ascii() { trimmed<char>([](utf8String& s) { trimAscii7WhiteSpace(s); }); }
extern "C" void p30_set() { trimmed<char>([](utf8String& s) { trim(s, utf8String("this is a rather long set of characters")); }); }
// pieces
template <class C> static void pieces() {
    C d, c; sym_units(&d, sizeof d, 1, "delim"); sym_units(&c, sizeof c, 1, "other"); sym_assume(c != d);
    std::basic_string<C> s(P("first", 20), c); s.push_back(d); s.append(P("second", 3), c); s.push_back(d); s.append(P("third", 0), c); std::basic_string<C> keep(s);
    std::vector<std::basic_string<C>> v, w, w2; { auto x = split(s, d); v = x; } std::basic_string<C> j, j2;
    u64 mark = arm(); TRY({ w = split(s, d); j = join(v, d); })
    CHECK(v.size() == 3 && v[0].size() == P("first", 20) && v[1].size() == P("second", 3) && sameAs(s, keep), "an argument changes when an allocation fails");
    if (!threw) CHECK(w.size() == 3 && sameAs(j, keep), "another result although the call returned");
    { std::vector<std::basic_string<C>> n; n.swap(w); std::basic_string<C> m; m.swap(j); }
    CHECK(sym_leaked(mark) == 0, "memory is leaked when an allocation fails");
    w2 = split(s, d); j2 = join(w2, d); CHECK(w2.size() == 3 && sameAs(j2, keep), "after a failed allocation a call gives another result");
}
extern "C" void p30_pieces8() { pieces<char>(); }
extern "C" void p30_pieces16() { pieces<char16_t>(); }
extern "C" void p30_pieces32() { pieces<char32_t>(); }
