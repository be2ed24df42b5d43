#include "common.h"
using namespace ansak;
template <class C> static bool member(C c, const C* set, size_t n) { unsigned m = 0; for (size_t i = 0; i < n; ++i) m |= c == set[i]; return m != 0; }
// expected bounds of what remains
template <class C> static void check(const Str<C>& s, const std::basic_string<C>& r, const C* set, size_t k, const char* msg) {
    size_t a = 0, b = s.n;
    while (b > a && split(member(s[b - 1], set, k))) --b;
    while (a < b && split(member(s[a], set, k))) ++a;
    if (a == b) sym_reach("nothing left"); else if (a || b < s.n) sym_reach("trimmed"); else sym_reach("unchanged");
    CHECK(r.size() == b - a, msg); CHECK(same(r, s.p + a, b - a), msg);
}
template <class C> static void spaces() {
    Input<C> s; std::basic_string<C> v = s.str(); trim(v); observe(v); const C sp = C(' ');
    check(s, v, &sp, 1, "trim does not remove exactly the outer spaces");
    std::basic_string<C> w = v; trim(w); CHECK(sameAs(v, w), "trimming twice differs from trimming once");
}
template <class C> static void set() {
    Input<C> s; size_t k = pick("k", (u32)sym_param("k", 2), (u32)sym_param("khi", 0)); Small<C> set(k, "set"); std::basic_string<C> v = s.str(), st = set.str();
    trim(v, st); observe(v); check(s, v, set.p, k, "trim does not remove exactly the outer members of the set");
    CHECK(sameAs(st, set.str()), "trim modifies its set");
    std::basic_string<C> w = v; trim(w, st); CHECK(sameAs(v, w), "trimming twice differs from trimming once");
}
extern "C" void p20_8() { spaces<char>(); }
extern "C" void p20_16() { spaces<char16_t>(); }
extern "C" void p20_32() { spaces<char32_t>(); }
extern "C" void p20_b() { spaces<unsigned char>(); }
extern "C" void p20_s() { spaces<short>(); }
extern "C" void p20_l() { spaces<long>(); }
extern "C" void p20_setb() { set<unsigned char>(); }
extern "C" void p20_sets() { set<short>(); }
extern "C" void p20_setl() { set<long>(); }
// the string as its own set
extern "C" void p20_self() { Input<char> s; std::string v = s.str(); trim(v, v); observe(v); sym_reach("nothing left"); CHECK(v.empty(), "trimming all the characters of a string leaves something"); }
extern "C" void p20_w() { spaces<wchar_t>(); }
extern "C" void p20_set8() { set<char>(); }
extern "C" void p20_set16() { set<char16_t>(); }
extern "C" void p20_set32() { set<char32_t>(); }
extern "C" void p20_setw() { set<wchar_t>(); }
extern "C" void p20_ascii() {
    Input<char> s; std::string v = s.str(); trimAscii7WhiteSpace(v); observe(v); static const char set[] = "\t\n\r ";
    check(s, v, set, 4, "trimAscii7WhiteSpace does not remove exactly the outer blanks");
    std::string w = v; trimAscii7WhiteSpace(w); CHECK(sameAs(v, w), "trimming twice differs from trimming once");
}
// n members, one other character, m members
template <class C> static void runs() {
    size_t n = pick("before", (u32)sym_param("n", 0), (u32)sym_param("nhi", 0)), m = pick("after", (u32)sym_param("m", 0), (u32)sym_param("mhi", 0)); C c[3]; sym_units(c, sizeof(C), 3, "chars"); sym_assume((c[0] != c[1]) & (c[2] != c[1]));
    std::basic_string<C> s(n, c[0]), e(1, c[1]), set; s += c[1]; if (sym_param("inside", 0)) { s.append(3, c[0]); s += c[1]; e = s.substr(n); } s.append(m, c[2]); set += c[0]; set += c[2];
    trim(s, set); observe(s); sym_reach("long runs"); CHECK(sameAs(s, e), "trim does not remove exactly the outer members of the set");
}
extern "C" void p20_runs8() { runs<char>(); }
extern "C" void p20_runs16() { runs<char16_t>(); }
extern "C" void p20_runs32() { runs<char32_t>(); }
